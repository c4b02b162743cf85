"""C27: compressed and plain files are interchangeable."""

import argparse
import gzip
import io
import os
import subprocess
import sys

from vf import cli, core, gen, lattices, training, trainrun
from vf.checks import c17

RULE = ('Every text file argument of the commands (training, validation, scored text, lattices, lattice lists, Kaldi vocabulary, word '
        'class training data and vocabulary, and all output files) is given once as a plain file and once compressed (one or several '
        'gzip members, different levels) or through standard input or output, with text in several scripts, odd white space and '
        'missing final newlines. The models and outputs of the runs are compared. Some commands run in processes with a non-UTF-8 '
        'locale. Distinct by command, arguments and contents.')
REQUIRED = ['opened for reading', 'opened for writing', 'standard input read', 'standard output written', 'several gzip members', 'missing files',
            'training compared', 'compressed training files', 'compressed validation files', 'scoring compared', 'scoring from standard input',
            'scoring to standard output', 'compressed score output', 'sampling compared', 'decoding compared', 'compressed lattices', 'compressed lattice lists',
            'compressed Kaldi vocabularies', 'lattices from standard input', 'word classes compared', 'compressed class vocabularies',
            'compressed class output', 'locales compared', 'non-ASCII texts']
ASSUMPTIONS = ['Compression is recognised by the name ending in ".gz"; the vocabulary and architecture files of "theanolm train" are not '
               'documented to be decompressed and are always given as plain files.']


def compressed(rng, mon, text, suffix='.txt.gz'):
    data = text.encode('utf-8')
    path = gen.tmp_path(suffix)
    pieces = [data]
    if rng.rand() < 0.3:
        at = rng.randint(len(data) + 1)
        pieces = [data[:at], data[at:]]
        mon.count('several gzip members')
    with open(path, 'wb') as f:
        for piece in pieces:
            f.write(gzip.compress(piece, compresslevel=int(gen.pick(rng, [0, 1, 6, 9]))))
    if any(b > 127 for b in data):
        mon.count('non-ASCII texts')
    return path


def read(path):
    with open(path, 'rb') as f:
        data = f.read()
    if path.endswith('.gz'):
        data = gzip.decompress(data) if data else None
    return data


def random_text(rng):
    pool = gen.words(rng, 2 + rng.randint(10))
    content, _ = gen.text(rng, pool, 1 + gen.some(rng, 11, 3000, 0.02))
    if rng.rand() < 0.2:
        content = content.replace(' ', gen.pick(rng, ['\u00a0', '\u2003', '\x0b', '\x0c']), 1)
    return content


# --------------------------------------------------------------- file types
def filetypes(rng, mon):
    from theanolm.backend import TextFileType
    content = random_text(rng)
    mon.case(content)
    plain, packed = gen.tmp_file(content), compressed(rng, mon, content, gen.pick(rng, ['.txt.gz', '.gz', '.x.y.gz']))
    reader = TextFileType('r')
    results = []
    saved = sys.stdin
    sys.stdin = io.TextIOWrapper(io.BytesIO(content.encode('utf-8')), encoding='ascii')
    try:
        for path in (plain, packed, '-'):
            handle = reader(path)
            if path == '-':
                mon.count('standard input read')
            how = rng.randint(3)
            if how == 0:
                results.append((path, ''.join(handle)))
            elif how == 1:
                results.append((path, handle.read()))
            else:
                lines = []
                while True:
                    line = handle.readline()
                    if not line:
                        break
                    lines.append(line)
                results.append((path, ''.join(lines)))
            mon.count('opened for reading')
            if path != '-':
                handle.seek(0)
                mon.check(handle.read() == results[-1][1], 'second-reading', 'reading %s again gives other text' % os.path.basename(path))
                handle.close()
    except UnicodeError as e:
        mon.fail('encoding', 'UTF-8 text cannot be read: %r' % (e,))
    finally:
        sys.stdin = saved
    expected = io.TextIOWrapper(io.BytesIO(content.encode('utf-8')), encoding='utf-8').read()
    for path, text in results:
        mon.check(text == expected, 'read', 'reading %s gives %r, expected %r' % (os.path.basename(path), text, expected))
    writer = TextFileType('w')
    pieces = content.splitlines(True)
    for path in (gen.tmp_path('.out'), gen.tmp_path('.out.gz'), '-'):
        if rng.rand() < 0.3 and path != '-':
            with open(path, 'wb') as f:
                f.write(b'older contents ' * 100)
        saved = sys.stdout
        stream = io.TextIOWrapper(cli.KeptBytes(), encoding='ascii')
        sys.stdout = stream
        data = stream.buffer
        try:
            handle = writer(path)
            for piece in pieces:
                handle.write(piece)
            handle.flush()
            if path != '-':
                handle.close()
        except UnicodeError as e:
            mon.fail('encoding', 'text cannot be written in UTF-8: %r' % (e,))
        finally:
            sys.stdout = saved
        if path == '-':
            mon.count('standard output written')
            written = data.getvalue()
        else:
            written = read(path)
        mon.count('opened for writing')
        mon.check(written == content.encode('utf-8'), 'write', 'writing %s gives %r, expected %r' % (os.path.basename(path), written, content))
    # Errors are reported the way the argument parser understands.
    for path in (gen.tmp_path('.nothing'), gen.tmp_path('.nothing.gz'), os.path.join(gen.tmp_path(), 'x', 'y.gz')):
        mon.count('missing files')
        for kind in (reader, writer) if os.path.dirname(path) != core.SCRATCH else (reader,):
            try:
                kind(path)
            except argparse.ArgumentTypeError:
                continue
            mon.fail('missing-file', 'opening %r did not fail' % path)


# ------------------------------------------------------------------- train
def train(rng, mon):
    setup = trainrun.Setup(rng, simple=False, validation=True if rng.rand() < 0.7 else None)
    if rng.rand() < 0.3:
        text = setup.texts[0].rstrip('\n')
        setup.texts[0] = text
        setup.training[0] = gen.tmp_file(text)
    paths = [gen.tmp_path('.h5') for _ in range(2)]
    files = list(setup.training)
    validation = setup.validation
    which = rng.randint(1, 4 if validation else 2)
    if which & 1:
        changed = [rng.randint(len(files))] if rng.rand() < 0.5 else range(len(files))
        for index in changed:
            files[index] = compressed(rng, mon, setup.texts[index])
            mon.count('compressed training files')
    if which & 2:
        validation = compressed(rng, mon, setup.validation_text)
        mon.count('compressed validation files')
    mon.case([setup.describe(), which, len(files)])
    first = setup.run(paths[0])
    second = setup.run(paths[1], training=files, validation=validation)
    mon.check(first.code == 0, 'command', 'theanolm train failed: %r' % first)
    mon.check(second.code == 0, 'command', 'theanolm train failed with compressed files: %r' % second)
    difference = trainrun.differences(trainrun.contents(paths[0]), trainrun.contents(paths[1]))
    mon.check(not difference, 'model-differs', 'models trained from plain and compressed files differ: %r' % difference[:8])
    lines = [[l for l in r.out.split('\n') if l.startswith('Best validation')] for r in (first, second)]
    mon.check(lines[0] == lines[1], 'perplexity-differs', 'validation perplexities %r' % lines)
    mon.count('training compared')


# ------------------------------------------------------------------- score
def model(rng, include=(), stepwise=False):
    vocab, spec = gen.vocab(rng, positive=True, size=3 + rng.randint(5), include=include)
    description = gen.architecture_text(rng, stepwise=stepwise, max_hidden=1, size=3)
    network = gen.network(rng, description, vocab, minibatch=not stepwise)
    return gen.save_model(network, gen.tmp_path('.h5')), vocab, description


def outputs(rng, mon, name, argv, choices, stdin=None):
    """Runs a command with the given output."""
    kind = gen.pick(rng, choices)
    path = '-' if kind == '-' else gen.tmp_path(kind)
    result = cli.theanolm(*(list(argv) + ['--output-file', path, '--log-file', gen.tmp_path('.log')][:None if argv[0] != 'sample' else 2]), stdin=stdin)
    mon.check(result.code == 0, 'command', '%s failed: %r' % (name, result))
    if kind == '-':
        return kind, result.out.encode('utf-8')
    if kind.endswith('.gz'):
        mon.count('compressed output files')
    return kind, read(path)


def score(rng, mon):
    path, vocab, description = model(rng)
    pool = [str(w) for w in vocab.id_to_word]
    content, _ = gen.text(rng, [w for w in pool if w not in ('<s>', '</s>')], 1 + rng.randint(20), max_len=6)
    if not content.strip():
        content = 'ab\n'
    argv = ['--output', gen.pick(rng, ['perplexity', 'word-scores', 'utterance-scores'])]
    mon.case([description, content, argv])
    plain = outputs(rng, mon, 'score', ['score', path, gen.tmp_file(content)] + argv, ['.out'])[1]
    mon.check(bool(plain) or argv[1] != 'perplexity', 'no-output', 'nothing was written')
    for source in ('gz', '-'):
        if source == 'gz':
            name = compressed(rng, mon, content)
            kind, packed = outputs(rng, mon, 'score', ['score', path, name] + argv, ['.out.gz', '-', '.out'])
        else:
            mon.count('scoring from standard input')
            kind, packed = outputs(rng, mon, 'score', ['score', path, '-'] + argv, ['.out.gz', '-', '.out'], stdin=content)
        mon.count('scoring to standard output' if kind == '-' else 'compressed score output' if kind.endswith('gz') else 'plain score output')
        if kind == '-':
            # There may be other messages.
            packed = packed[packed.find(plain):] if plain and plain in packed else packed
            packed = packed[:len(plain)]
        mon.check(packed == plain, 'scores-differ', 'scoring from %s to %s gives %r, from and to plain files %r' % (source, kind, packed, plain))
        mon.count('scoring compared')


def sample(rng, mon):
    path, vocab, description = model(rng, stepwise=True)
    argv = ['sample', path, '--num-sentences', 1 + rng.randint(6), '--sentence-length', 3 + rng.randint(6), '--random-seed', rng.randint(1 << 30)]
    mon.case([description, argv[2:]])
    plain = outputs(rng, mon, 'sample', argv, ['.out'])[1]
    mon.check(bool(plain), 'no-output', 'nothing was sampled')
    for kind in ('.out.gz', '-'):
        _, packed = outputs(rng, mon, 'sample', argv, [kind])
        if kind == '-':
            packed = packed[packed.find(plain):] if plain in packed else packed
            packed = packed[:len(plain)]
        mon.check(packed == plain, 'samples-differ', 'sampled to %s %r, to a plain file %r' % (kind, packed, plain))
        mon.count('sampling compared')


# ------------------------------------------------------------------ decode
def decode(rng, mon):
    words = ['ab', 'öç', 'e']
    path, vocab, description = model(rng, include=words, stepwise=True)
    kind, files, specs, word_to_id = c17.compose(rng, mon, words)
    files = files[:3]
    texts = [f[2] for f in files]
    output = gen.pick(rng, ['ref', 'full', 'trn', kind])
    flags = ['--output', output, '--lattice-format', kind, '--n-best', 1 if output == kind else 3]
    kaldi = c17.vocabulary(word_to_id)
    mon.case([description, kind, output, texts])

    def flags_of(lattice_paths, listed, list_path, vocabulary_path):
        result = list(flags)
        if kind == 'kaldi':
            result += ['--kaldi-vocabulary', vocabulary_path]
        if listed:
            result += ['--lattice-list', list_path('\n'.join(lattice_paths) + '\n')]
        elif lattice_paths:
            result += ['--lattices'] + lattice_paths
        return result
    plain = outputs(rng, mon, 'decode', ['decode', path] + flags_of([gen.tmp_file(t) for t in texts], False, None, gen.tmp_file(kaldi)), ['.out'])[1]
    mon.check(bool(plain), 'no-output', 'nothing was decoded')
    packed_paths = []
    for text in texts:
        if rng.rand() < 0.7:
            packed_paths.append(compressed(rng, mon, text, '.lat.gz'))
            mon.count('compressed lattices')
        else:
            packed_paths.append(gen.tmp_file(text))
    listed = rng.rand() < 0.5
    vocabulary_path = compressed(rng, mon, kaldi)
    if kind == 'kaldi':
        mon.count('compressed Kaldi vocabularies')
    if listed:
        mon.count('compressed lattice lists')
    name, packed = outputs(rng, mon, 'decode', ['decode', path] + flags_of(packed_paths, listed, lambda t: compressed(rng, mon, t), vocabulary_path),
                           ['.out.gz', '.out', '-'])
    compare(mon, packed, plain, name, 'compressed files')
    if len(texts) == 1 or kind == 'kaldi':
        mon.count('lattices from standard input')
        joined = texts[0]
        for text in texts[1:]:
            joined += ('' if joined.endswith('\n\n') else '\n') + text
        name, packed = outputs(rng, mon, 'decode', ['decode', path] + flags_of(['-'] if rng.rand() < 0.5 else [], False, None, vocabulary_path),
                               ['.out.gz', '.out'], stdin=joined)
        compare(mon, packed, plain, name, 'standard input')


def compare(mon, packed, plain, name, source):
    if name == '-':
        packed = packed[packed.find(plain):] if plain in packed else packed
        packed = packed[:len(plain)]
    mon.check(packed == plain, 'decoded-differ', 'decoding %s to %s gives %r, plain files %r' % (source, name, packed, plain))
    mon.count('decoding compared')


# ------------------------------------------------------------------ wctool
def wctool(rng, mon):
    pool = gen.words(rng, 3 + rng.randint(5))
    texts = []
    for _ in range(1 + rng.randint(2)):
        texts.append(''.join(' '.join(gen.pick(rng, pool) for _ in range(1 + rng.randint(6))) + '\n' for _ in range(3 + rng.randint(10))))
    argv = ['--output-format', gen.pick(rng, ['classes', 'srilm-classes']), '--method', 'bigram-numpy', '--output-frequency', 1 + rng.randint(3),
            '--log-file', gen.tmp_path('.log')]
    vocabulary = None
    if rng.rand() < 0.5:
        kind = gen.pick(rng, ['words', 'classes', 'srilm-classes'])
        vocabulary = ''.join({'words': '%s\n' % w, 'classes': '%s %d\n' % (w, i % 3), 'srilm-classes': 'C%d 0.5 %s\n' % (i % 3, w)}[kind]
                             for i, w in enumerate(sorted(set(pool))))
        argv += ['--vocabulary-format', kind]
    else:
        argv += ['--num-classes', 2 + rng.randint(2)]
    mon.case([texts, argv[:6], vocabulary])
    results = []
    for pack in (False, True):
        make = (lambda t: compressed(rng, mon, t)) if pack else gen.tmp_file
        extra = ['--training-set'] + [make(t) for t in texts]
        if vocabulary is not None:
            extra += ['--vocabulary', make(vocabulary)]
            if pack:
                mon.count('compressed class vocabularies')
        path = gen.tmp_path('.classes.gz' if pack else '.classes')
        result = cli.run('wctool', *(argv + extra + ['--output-file', path]))
        mon.check(result.code == 0, 'command', 'wctool failed: %r' % result)
        results.append(read(path))
        if pack:
            mon.count('compressed class output')
    mon.check(bool(results[0]), 'no-output', 'no classes were written')
    mon.check(results[0] == results[1], 'classes-differ', 'classes from and to compressed files %r, plain files %r' % (results[1], results[0]))
    mon.count('word classes compared')


# ------------------------------------------------------------------ locale
def locale(rng, mon):
    """A process whose locale is not UTF-8."""
    words = ['ab', 'öç', 'да']
    path, vocab, description = model(rng, include=words, stepwise=True)
    content = ''.join(' '.join(gen.pick(rng, words) for _ in range(1 + rng.randint(4))) + '\n' for _ in range(3))
    name = gen.tmp_file(content) if rng.rand() < 0.5 else compressed(rng, mon, content)
    mon.count('non-ASCII texts')
    mon.case([description, content])
    argv = ['score', path, name, '--output', 'word-scores', '--log-file', gen.tmp_path('.log')]
    results = []
    environments = [{}, {'LC_ALL': 'POSIX', 'LANG': 'POSIX', 'PYTHONCOERCECLOCALE': '0', 'PYTHONUTF8': '0'}]
    running = []
    for index, environment in enumerate(environments):
        output = gen.tmp_path('.out' if rng.rand() < 0.5 else '.out.gz')
        command = [sys.executable, os.path.join(core.HOME, 'vf', 'command.py'), os.path.join(core.REPO, 'bin', 'theanolm')] + argv + ['--output-file', output]
        running.append((output, subprocess.Popen(command, env=dict(os.environ, **environment), stdout=subprocess.PIPE, stderr=subprocess.STDOUT,
                                                 cwd=core.SCRATCH)))
    for output, process in running:
        try:
            out, _ = process.communicate(timeout=600)
        except subprocess.TimeoutExpired:
            process.kill()
            raise core.Inconclusive('a command did not finish in 600 s')
        mon.check(process.returncode == 0, 'locale', 'theanolm score failed: %r' % out[-1500:])
        results.append(read(output))
    mon.check(results[0] == results[1] and bool(results[0]), 'locale', 'with locale POSIX %r is written, otherwise %r' % (results[1], results[0]))
    mon.count('locales compared')


FAMILIES = [
    dict(name='filetypes', fn=filetypes, quick=300, thorough=3000),
    dict(name='wctool', fn=wctool, quick=40, thorough=500),
    dict(name='decode', fn=decode, quick=24, thorough=200),
    dict(name='score', fn=score, quick=16, thorough=200),
    dict(name='sample', fn=sample, quick=8, thorough=100),
    dict(name='train', fn=train, quick=16, thorough=150),
    dict(name='locale', fn=locale, quick=2, thorough=10),
]
