"""Check runner: cases, monitors, verdicts, evidence and replays.

A check module defines PROPERTY, RULE, FAMILIES and optionally ASSUMPTIONS.
A family is a function fn(rng, mon) that drives the real code once with a
workload derived from ``rng`` and reports to ``mon`` what it observed.  The
verdict is three-valued:

  exit 0  the property held on everything observed,
  exit 1  a violation was observed (VIOLATION line, replay file),
  exit 3  inconclusive: the harness failed or a monitor observed nothing.
"""

import contextlib
import hashlib
import importlib
import io
import json
import multiprocessing
import multiprocessing.connection
import os
import signal
import sys
import time
import traceback

import numpy

HOME = os.environ.get('VF_HOME', os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
REPO = os.path.realpath(os.environ.get('REPO', '/repo'))
SCRATCH = os.environ.get('VF_SCRATCH', '/tmp')


class Violation(Exception):
    """The observed behaviour contradicts the property."""

    def __init__(self, kind, message, data=None):
        super().__init__('%s: %s' % (kind, message))
        self.kind = kind
        self.message = message
        self.data = data or {}


class Inconclusive(Exception):
    """The harness could not judge the execution."""


class HungError(BaseException):
    """Case used far more CPU time than it may; judged as no progress."""


class Monitor(object):
    """Collects what was observed during the executions of one check."""

    def __init__(self):
        self.counters = {}
        self.distinct = set()
        self.samples = []
        self.case_sample = None
        self.case_family = None

    def count(self, name, number=1):
        self.counters[name] = self.counters.get(name, 0) + int(number)

    def maximum(self, name, value):
        name = 'max ' + name
        self.counters[name] = max(self.counters.get(name, 0), int(value))

    def case(self, description, nontrivial=True):
        """Describes the current case; used for distinctness and samples."""
        digest = hashlib.sha1(repr((self.case_family, description)).encode('utf-8', 'surrogatepass')).hexdigest()
        if nontrivial:
            self.distinct.add(digest)
        self.case_sample = description
        per_family = sum(1 for s in self.samples if s['family'] == self.case_family)
        if per_family < 2 and nontrivial:
            self.samples.append({'family': self.case_family,
                                 'case': _short(description)})

    def check(self, condition, kind, message, **data):
        self.count('oracle decisions')
        if not condition:
            raise Violation(kind, message() if callable(message) else message, data)

    def fail(self, kind, message, **data):
        raise Violation(kind, message, data)

    def close(self, a, b, kind, message, rtol=1e-7, atol=1e-9, **data):
        """|a - b| small; infinities have to be equal, NaN never matches."""
        self.count('oracle decisions')
        a = numpy.asarray(a, dtype='float64')
        b = numpy.asarray(b, dtype='float64')
        if a.shape != b.shape:
            raise Violation(kind, '%s: shapes %s and %s differ' % (message, a.shape, b.shape), data)
        if not numpy.allclose(a, b, rtol=rtol, atol=atol):
            raise Violation(kind, '%s: got %s, expected %s' % (message, _short(a.tolist()), _short(b.tolist())), data)


def _short(value, limit=1500):
    text = value if isinstance(value, str) else json.dumps(value, default=repr, ensure_ascii=False)
    return text if len(text) <= limit else text[:limit] + '...'


def blame(exc):
    """'repo' if the innermost frame that belongs to the repository or to the
    harness is a repository frame, 'harness' otherwise."""
    owner = 'harness'
    for frame, _ in traceback.walk_tb(exc.__traceback__):
        name = os.path.realpath(frame.f_code.co_filename)
        if name.startswith(os.path.join(HOME, 'vf')):
            owner = 'harness'
        elif name.startswith(REPO + os.sep):
            owner = 'repo'
    if owner == 'harness' and 'Apply node that caused the error' in str(exc):
        # A compiled Theano function failed while it was evaluated: the graph that the repository built is invalid.
        owner = 'repo'
    return owner


def stable_seed(*parts):
    digest = hashlib.sha256(repr(parts).encode()).digest()
    return int.from_bytes(digest[:4], 'little')


CASE_CPU_LIMIT = 90.0


class Check(object):

    def __init__(self, property_id, tier, seed):
        self.property_id = property_id
        self.tier = tier
        self.seed = seed
        self.module = importlib.import_module('vf.checks.' + property_id.lower())
        self.mon = Monitor()
        self.violations = []
        self.inconclusive = []
        self.evaluations = 0
        self.per_family = {}
        self.truncated = []
        self.known = load_known(property_id)
        self.known_seen = {}

    # ------------------------------------------------------------------
    def run_case(self, family, index):
        name = family['name']
        case_seed = stable_seed(self.seed, self.property_id, name, index)
        rng = numpy.random.RandomState(case_seed)
        numpy.random.seed(case_seed % (2 ** 32))
        mon = self.mon
        mon.case_family = name
        mon.case_sample = None

        def on_alarm(signum, frame):
            raise HungError()
        signal.signal(signal.SIGVTALRM, on_alarm)
        signal.setitimer(signal.ITIMER_VIRTUAL, family.get('cpu', CASE_CPU_LIMIT))
        found = None
        try:
            with contextlib.redirect_stdout(io.StringIO()):
                family['fn'](rng, mon)
        except Violation as v:
            found = (v.kind, v.message, v.data, traceback.format_exc())
        except HungError:
            found = ('no-progress', 'the case consumed %.0f s of CPU time without finishing'
                     % family.get('cpu', CASE_CPU_LIMIT), {}, traceback.format_exc())
        except Inconclusive as e:
            self.inconclusive.append('%s[%d]: %s' % (name, index, e))
        except MemoryError:
            self.inconclusive.append('%s[%d]: out of memory' % (name, index))
        except (Exception, SystemExit) as e:
            text = traceback.format_exc()
            if blame(e) == 'repo':
                found = ('crash-' + type(e).__name__,
                         'the code under test failed on a valid input: %r' % (e,), {}, text)
            else:
                self.inconclusive.append('%s[%d]: harness error: %s' % (name, index, text if len(text) < 1600 else text[:500] + ' ... ' + text[-1000:]))
        finally:
            signal.setitimer(signal.ITIMER_VIRTUAL, 0)
        self.evaluations += 1
        self.per_family[name] = self.per_family.get(name, 0) + 1
        if found is not None:
            self.report(name, index, found)
            return False
        return True

    def report(self, name, index, found):
        kind, message, data, text = found
        for entry in self.known:
            if entry['kind'] == kind and entry.get('family', name) == name and \
               all(data.get(k) == v for k, v in entry.get('match', {}).items()):
                self.known_seen.setdefault(entry['id'], entry)
                return
        folder = os.path.join(HOME, 'evidence', 'replay')
        os.makedirs(folder, exist_ok=True)
        path = os.path.join(folder, '%s-%s-%d-%d.json' % (self.property_id, name, self.seed, index))
        with open(path, 'w', encoding='utf-8') as f:
            json.dump({'property': self.property_id, 'family': name, 'index': index,
                       'seed': self.seed, 'tier': self.tier, 'kind': kind,
                       'message': _short(message, 4000), 'data': _short(data, 4000),
                       'case': _short(self.mon.case_sample, 8000), 'traceback': text,
                       'how': './run.sh %s --replay %s' % (self.property_id, path)},
                      f, indent=1, ensure_ascii=False)
        self.violations.append((name, index, kind, message, path))

    @staticmethod
    def announce(property_id, violation):
        name, index, kind, message, path = violation
        print('VIOLATION property=%s replay=%s' % (property_id, path))
        print('  family=%s index=%d kind=%s' % (name, index, kind))
        print('  ' + _short(message))
        sys.stdout.flush()

    # ------------------------------------------------------------------
    def tasks(self, only, scale):
        """Cases of all families, interleaved so that whatever the time budget cuts off is spread evenly."""
        result = []
        for number, family in enumerate(self.module.FAMILIES):
            if only and family['name'] not in only:
                continue
            cases = family.get(self.tier, family['quick'])
            if self.tier == 'quick':
                # The sizes were chosen for a loaded machine.
                cases = min(cases * getattr(self.module, 'QUICK_SCALE', 2), max(cases, family.get('thorough', cases)))
            cases = max(1, int(cases * scale))
            result.extend(((index + 0.5) / cases, number, index) for index in range(cases))
        # The first case of a family goes first: cases that take long should not be the last ones to start.
        return [(number, index) for _, number, index in sorted(result)]

    def work(self, tasks, shared, connection, deadline):
        """What one worker does: takes the next case until there are none left."""
        names = [family['name'] for family in self.module.FAMILIES]
        while True:
            with shared.get_lock():
                position = shared[0]
                shared[0] += 1
            if position >= len(tasks):
                break
            number, index = tasks[position]
            # Keep going a little to report separate families, but not for ever on a broken tree.
            if shared[1] >= 6 or shared[2 + number] >= 2:
                continue
            if time.time() > deadline:
                self.truncated.append('%s[%d]' % (names[number], index))
                continue
            before = len(self.violations)
            self.run_case(self.module.FAMILIES[number], index)
            if len(self.violations) > before:
                with shared.get_lock():
                    shared[1] += 1
                    shared[2 + number] += 1
                connection.send(('violation', self.violations[-1]))
        connection.send(('done', {'counters': self.mon.counters, 'distinct': self.mon.distinct, 'samples': self.mon.samples,
                                  'inconclusive': self.inconclusive, 'evaluations': self.evaluations, 'per_family': self.per_family,
                                  'truncated': self.truncated, 'known': self.known_seen}))

    def merge(self, result):
        for name, value in result['counters'].items():
            if name.startswith('max '):
                self.mon.counters[name] = max(self.mon.counters.get(name, 0), value)
            else:
                self.mon.count(name, value)
        self.mon.distinct |= result['distinct']
        for sample in result['samples']:
            if sum(1 for s in self.mon.samples if s['family'] == sample['family']) < 2:
                self.mon.samples.append(sample)
        self.inconclusive += result['inconclusive']
        self.evaluations += result['evaluations']
        for name, value in result['per_family'].items():
            self.per_family[name] = self.per_family.get(name, 0) + value
        self.truncated += result['truncated']
        self.known_seen.update(result['known'])

    def run(self, only=None, scale=1.0):
        start = time.time()
        budget = float(os.environ.get('VF_BUDGET', 300 if self.tier == 'quick' else 3000))
        tasks = self.tasks(only, scale)
        context = multiprocessing.get_context('fork')
        shared = context.Array('l', 2 + len(self.module.FAMILIES))
        limit = int(os.environ.get('VF_WORKERS', '8'))
        running = {}
        for _ in range(max(1, min(limit, len(tasks)))):
            receiver, sender = context.Pipe(duplex=False)
            process = context.Process(target=self.work, args=(tasks, shared, sender, start + budget))
            process.start()
            sender.close()
            running[receiver] = process
        found = []
        processes = list(running.values())
        while running:
            for receiver in multiprocessing.connection.wait(list(running)):
                try:
                    what, value = receiver.recv()
                except EOFError:
                    process = running.pop(receiver)
                    process.join()
                    self.inconclusive.append('a worker ended with code %r' % process.exitcode)
                    continue
                if what == 'violation':
                    found.append(value)
                    self.announce(self.property_id, value)
                else:
                    self.merge(value)
                    running.pop(receiver)
        for process in processes:
            process.join()
        self.violations = found
        for entry in self.known_seen.values():
            print('KNOWN-FINDING: property=%s %s' % (self.property_id, entry['what']))
        self.write_evidence(time.time() - start)
        if self.violations:
            return 1
        missing = [name for name in getattr(self.module, 'REQUIRED', [])
                   if not self.mon.counters.get(name)]
        if missing and not only:
            self.inconclusive.append('monitors observed nothing: ' + ', '.join(missing))
        if self.inconclusive:
            for text in self.inconclusive[:2]:
                print('INCONCLUSIVE: ' + text)
            return 3
        print('HELD property=%s tier=%s seed=%d evaluations=%d distinct=%d wall=%.1fs'
              % (self.property_id, self.tier, self.seed, self.evaluations,
                 len(self.mon.distinct), time.time() - start))
        return 0

    def replay(self, path):
        with open(path, encoding='utf-8') as f:
            record = json.load(f)
        self.seed = record['seed']
        for family in self.module.FAMILIES:
            if family['name'] == record['family']:
                ok = self.run_case(family, record['index'])
                for violation in self.violations:
                    self.announce(self.property_id, violation)
                for text in self.inconclusive:
                    print('INCONCLUSIVE: ' + text)
                print('replayed: ' + ('no violation' if ok else 'violation reproduced'))
                return 0 if ok and not self.inconclusive else (1 if not ok else 3)
        print('unknown family ' + record['family'])
        return 3

    def write_evidence(self, wall):
        folder = os.path.join(HOME, 'evidence')
        os.makedirs(folder, exist_ok=True)
        coverage = {
            'evaluations': self.evaluations,
            'distinct_nontrivial': len(self.mon.distinct),
            'rule': self.module.RULE,
            'samples': self.mon.samples[:12],
            'executions_per_family': self.per_family,
            'observed': {k: v for k, v in sorted(self.mon.counters.items())},
        }
        if self.truncated:
            counts = {}
            for name in self.truncated:
                name = name.rsplit('[', 1)[0]
                counts[name] = counts.get(name, 0) + 1
            coverage['cases_not_run_because_of_time_budget'] = counts
        if self.inconclusive:
            coverage['inconclusive'] = [_short(x, 400) for x in self.inconclusive[:10]]
        if self.known_seen:
            coverage['known_findings_seen'] = sorted(self.known_seen)
        evidence = {
            'property': self.property_id,
            'tier': self.tier,
            'seed': self.seed,
            'level': 'exploration',
            'coverage': coverage,
            'assumptions': list(getattr(self.module, 'ASSUMPTIONS', [])) + [
                'Theano is run with its Python backend on CPU in float64; the tensors computed there stand for those of other backends.'],
            'wall_s': round(wall, 2),
            'violations': len(self.violations),
        }
        path = os.path.join(folder, self.property_id + '.json')
        with open(path, 'w', encoding='utf-8') as f:
            json.dump(evidence, f, indent=1, ensure_ascii=False, default=repr)


def load_known(property_id):
    path = os.path.join(HOME, 'KNOWN_FINDINGS.json')
    if not os.path.exists(path):
        return []
    with open(path, encoding='utf-8') as f:
        entries = json.load(f)['findings']
    return [e for e in entries if e['property'] == property_id and e['status'] == 'known']


def main(argv):
    import argparse
    parser = argparse.ArgumentParser(prog='vf')
    parser.add_argument('property')
    parser.add_argument('--tier', default=os.environ.get('VERIF_TIER', 'quick'),
                        choices=['quick', 'thorough'])
    parser.add_argument('--seed', type=int, default=int(os.environ.get('VERIF_SEED', '1')))
    parser.add_argument('--family', action='append')
    parser.add_argument('--scale', type=float, default=1.0)
    parser.add_argument('--replay')
    args = parser.parse_args(argv)

    import logging
    logging.disable(logging.CRITICAL)
    import warnings
    warnings.simplefilter('ignore')
    numpy.seterr(all='ignore')
    try:
        import theanolm
    except BaseException:
        print('INCONCLUSIVE: theanolm cannot be imported: ' + traceback.format_exc())
        return 3
    from vf import convfix
    convfix.install()
    where = os.path.realpath(theanolm.__file__)
    if not where.startswith(REPO + os.sep):
        print('INCONCLUSIVE: theanolm was imported from ' + where)
        return 3
    check = Check(args.property, args.tier, args.seed)
    if args.replay:
        return check.replay(args.replay)
    return check.run(args.family, args.scale)
