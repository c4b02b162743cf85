"""Runs the real command line programs inside this process."""

import contextlib
import importlib.machinery
import importlib.util
import io
import os
import sys

from vf.core import REPO

_cache = {}


class KeptBytes(io.BytesIO):
    def close(self):
        pass


def _stream():
    return io.TextIOWrapper(KeptBytes(), encoding='utf-8', write_through=True)


def _content(stream):
    try:
        stream.flush()
    except ValueError:
        pass
    return stream.vf_bytes.getvalue().decode('utf-8')


def _load(name):
    if name not in _cache:
        path = os.path.join(REPO, 'bin', name)
        loader = importlib.machinery.SourceFileLoader('vf_bin_' + name, path)
        spec = importlib.util.spec_from_loader(loader.name, loader)
        module = importlib.util.module_from_spec(spec)
        loader.exec_module(module)
        _cache[name] = module
    return _cache[name]


class Result(object):
    def __init__(self, code, out, err):
        self.code = code
        self.out = out
        self.err = err

    def __repr__(self):
        return 'exit %r, stdout %r, stderr %r' % (self.code, self.out[-600:], self.err[-600:])


def theanolm(*argv, stdin=None):
    return run('theanolm', *argv, stdin=stdin)


def run(program, *argv, stdin=None):
    """Returns Result.  Uncaught exceptions of the command propagate."""
    module = _load(program)
    saved_argv, saved_hook, saved_stdin = sys.argv, sys.excepthook, sys.stdin
    saved_limit = sys.getrecursionlimit()
    out, err = _stream(), _stream()
    out.vf_bytes, err.vf_bytes = out.buffer, err.buffer
    code = 0
    try:
        sys.argv = [program] + [str(a) for a in argv]
        if stdin is not None:
            sys.stdin = io.TextIOWrapper(io.BytesIO(stdin.encode('utf-8')), encoding='utf-8')
        with contextlib.redirect_stdout(out), contextlib.redirect_stderr(err):
            try:
                module.main()
            except SystemExit as e:
                code = e.code if e.code is not None else 0
    finally:
        sys.argv, sys.excepthook, sys.stdin = saved_argv, saved_hook, saved_stdin
        sys.setrecursionlimit(max(saved_limit, 10000))
    return Result(code, _content(out), _content(err))
