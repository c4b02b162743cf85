"""C06: interrupted training resumes from exactly the saved state."""

import contextlib
import functools
import hashlib
import io
import os
import pickle
import resource
import shutil
import signal
import sys

import h5py
import numpy

from vf import cli, core, gen, schedule, training, trainrun

RULE = ('(iterator) The shuffling iterator is saved at random points and restored, and the remaining batches compared. (trainer) A real '
        'network is trained, its state saved after random updates and restored into new objects, and the rest of the epoch compared bit '
        'by bit. (interrupted) Chains of killed and restarted runs are followed by a model of the training schedule, each run starting '
        'from what the killed one had on disk. (killed) "theanolm train" runs in a child process that is killed with SIGKILL at a random '
        'executed line; the file it leaves must be a complete state the run had been in, and scoring and training must continue from '
        'it. Distinct by corpus, options and interruption points.')
QUICK_SCALE = 1
REQUIRED = ['iterator restores', 'restores within a line', 'batches after restore', 'restores into the same iterator',
            'restores at the end of data', 'trainer restores', 'updates compared', 'states saved over older ones', 'kills of scheduled runs',
            'restarts from a saved state', 'completed runs', 'processes killed', 'killed before the first save', 'killed after the first save',
            'killed files compared', 'resumed commands', 'resumed updates compared', 'scored killed files'] + \
           ['restored ' + m for m in training.METHODS]
ASSUMPTIONS = ['A single write() of the HDF5 library to the model file is applied entirely or not at all (the library writes the whole '
               'image with one call); the checks kill the process between executed lines, not within a system call.',
               'The next epoch is shuffled with new random numbers, so only the rest of the interrupted epoch is compared bit by bit.']


# ---------------------------------------------------------------- iterator
def key_of(item):
    word_ids, file_ids, mask = item
    return (schedule.batch_key(word_ids, file_ids, mask), word_ids.shape)


def iterator(rng, mon):
    from theanolm.parsing import ShufflingBatchIterator
    large = rng.rand() < 0.05
    mon.count('large corpora', large)
    corpus = schedule.Corpus(rng, lines=300 + rng.randint(900) if large else 3 + rng.randint(20))
    batch_size = 1 + rng.randint(4)
    sampling = [gen.pick(rng, [0.5, 1.0, 1.6])] if rng.rand() < 0.3 else []
    handles = corpus.open()

    def create():
        return ShufflingBatchIterator(handles, sampling, corpus.vocab, batch_size, corpus.length, map_oos_to_unk=True)
    try:
        first = create()
        for _ in range(rng.randint(3)):
            list(first)
        state = h5py.File('iterator-state', 'a', driver='core', backing_store=False)
        saved = []
        batches = []
        points = set(rng.randint(1, 250 if large else 12, size=1 + rng.randint(3)).tolist())
        for item in first:
            batches.append(key_of(item))
            if len(batches) in points:
                # what is saved last replaces the earlier
                first.get_state(state)
                saved.append(len(batches))
        if not saved:
            # between epochs
            first.get_state(state)
            saved.append(0)
            batches = [key_of(i) for i in first]
        mon.case([corpus.length, batch_size, sampling, saved, len(batches), [b[1] for b in batches]])
        if len(saved) > 1:
            mon.count('saved again')
        offset = saved[-1]
        if int(state['iterator'].attrs.get('buffer_size', 0)):
            mon.count('restores within a line')
        if offset == len(batches):
            mon.count('restores at the end of data')
        other = create()
        for _ in range(rng.randint(2)):
            next(iter(other))
        for target, name in ((other, 'another'), (first, 'the same')):
            if target is first:
                mon.count('restores into the same iterator')
                if rng.rand() < 0.5:
                    next(iter(first))
            target.set_state(state)
            rest = [key_of(i) for i in target]
            mon.count('iterator restores')
            mon.count('batches after restore', len(rest))
            mon.check(rest == batches[offset:], 'rest-of-epoch', 'restored after %d of %d batches, %s iterator gave %r, expected %r'
                      % (offset, len(batches), name, rest[:3], batches[offset:offset + 3]))
            again = [key_of(i) for i in target]
            mon.check(sum(len(b[0]) for b in again) > 0, 'next-epoch', 'no data on the epoch after restoring')
            if not sampling:
                delivered = sorted(c for b in again for c in b[0])
                mon.check(delivered == corpus.sequences, 'next-epoch', 'the epoch after restoring does not deliver every sequence once')
        state.close()
    finally:
        for handle in handles:
            handle.close()


# ----------------------------------------------------------------- trainer
def digest(values):
    result = hashlib.sha1()
    for name in sorted(values):
        array = numpy.ascontiguousarray(values[name])
        result.update(repr((name, array.shape, array.dtype.str)).encode())
        result.update(array.tobytes())
    return result.hexdigest()


class Recorder(object):
    """Stands between the trainer and the optimizer and the scorer."""

    def __init__(self, optimizer, trainer, saves, state, stop=None):
        self.optimizer = optimizer
        self.trainer = trainer
        self.saves = saves
        self.state = state
        self.events = []
        self.saved = []

    @property
    def learning_rate(self):
        return self.optimizer.learning_rate

    @learning_rate.setter
    def learning_rate(self, value):
        self.optimizer.learning_rate = value

    def get_state(self, state):
        self.optimizer.get_state(state)

    def set_state(self, state):
        self.optimizer.set_state(state)

    def update_minibatch(self, word_ids, class_ids, file_ids, mask):
        self.optimizer.update_minibatch(word_ids, class_ids, file_ids, mask)
        self.events.append([schedule.batch_key(word_ids, file_ids, mask), float(self.optimizer.learning_rate)])

    def compute_perplexity(self, _):
        """Called after an update."""
        network = self.optimizer.network
        where = (int(self.trainer.epoch_number), int(self.trainer.update_number))
        values = training.parameters(network)
        more = training.parameters(self.optimizer)
        self.events[-1] += [where, digest(values), digest(more)]
        if len(self.events) in self.saves:
            self.trainer.get_state(self.state)
            self.saved.append(len(self.events))
            self.trainer._vf_history = self.trainer._cost_history.tolist() if hasattr(self.trainer, '_cost_history') else None
        return 100.0 + len(self.events)


def trainer(method, rng, mon):
    from theanolm import Network
    from theanolm.training import Trainer, create_optimizer, CrossEntropyCost
    corpus = schedule.Corpus(rng, lines=6 + rng.randint(14))
    batch_size = 1 + rng.randint(3)
    number = -(-len(corpus.sequences) // batch_size)
    description = gen.architecture_text(rng, max_hidden=1, size=3, dropout=False)
    opts = training.options(rng, method, num_files=len(corpus.paths))
    opts['weights'] = rng.uniform(0.5, 2.0, size=len(corpus.paths))
    opts['learning_rate'] = gen.pick(rng, [0.1, 0.01])
    epochs = 1 + rng.randint(2)
    schedule_options = {'batch_size': batch_size, 'sequence_length': corpus.length, 'validation_frequency': 1, 'patience': -1,
                        'stopping_criterion': 'epoch-count', 'max_epochs': epochs, 'min_epochs': 1, 'max_annealing_count': 0}
    handles = corpus.open()
    state = h5py.File('trainer-state', 'a', driver='core', backing_store=False)

    def create(trainer_options, optimizer_options, h5_state, target, saves):
        result = Trainer(trainer_options, corpus.vocab, handles, [])
        network = Network(gen.architecture(description), corpus.vocab, result.class_prior_probs)
        network.set_sampling('uniform', 1.0, None)
        optimizer = create_optimizer(optimizer_options, network, CrossEntropyCost(network))
        recorder = Recorder(optimizer, result, saves, target)
        result.initialize(network, h5_state, recorder)
        result.set_validation(None if target is None else object(), recorder, samples_per_validation=number + 5)
        return recorder, result, network, optimizer
    try:
        with contextlib.redirect_stdout(io.StringIO()):
            empty = h5py.File('no-state', 'a', driver='core', backing_store=False)
            points = set(rng.randint(1, epochs * number + 1, size=1 + rng.randint(3)).tolist())
            mon.case([description, method, batch_size, number, sorted(points), epochs, {k: v for k, v in opts.items() if k != 'weights'}])
            first, runner, network, optimizer = create(schedule_options, opts, empty, state, points)
            if rng.rand() < 0.5:
                # Learning rate changes during training.
                optimizer.learning_rate = optimizer.learning_rate * 0.25
            runner.train()
            mon.count('updates recorded', len(first.events))
            mon.check(len(first.events) == epochs * number, 'updates', '%d updates, expected %d' % (len(first.events), epochs * number))
            offset = first.saved[-1]
            if len(first.saved) > 1:
                mon.count('states saved over older ones')
            epoch, update = first.events[offset - 1][2]
            mon.check((epoch, update) == ((offset - 1) // number + 1, (offset - 1) % number + 1), 'position',
                      'after %d updates of %d per epoch, the trainer is at epoch %d, update %d' % (offset, number, epoch, update))
            # A new process; the command line options may differ.
            again = dict(opts, learning_rate=7.0)
            numpy.random.seed(rng.randint(1 << 30))
            second, runner2, network2, optimizer2 = create(dict(schedule_options, max_epochs=epoch), again, state, empty, set())
            mon.count('trainer restores')
            mon.count('restored ' + method)
            values, more = training.parameters(network2), training.parameters(optimizer2)
            mon.check(digest(values) == first.events[offset - 1][3], 'parameters', 'restored network parameters differ from those when saving')
            mon.check(digest(more) == first.events[offset - 1][4], 'optimizer-state', 'restored optimizer parameters differ from those when saving')
            mon.check((runner2.epoch_number, runner2.update_number) == (epoch, update), 'position', 'restored at epoch %r, update %r, expected %r'
                      % (runner2.epoch_number, runner2.update_number, (epoch, update)))
            mon.check(float(optimizer2.learning_rate) == first.events[offset - 1][1], 'learning-rate', 'restored learning rate %r, expected %r'
                      % (optimizer2.learning_rate, first.events[offset - 1][1]))
            runner2.train()
        expected = [e for e in first.events[offset:] if e[2][0] == epoch]
        for number_, (a, b) in enumerate(zip(second.events, expected)):
            for name, x, y in zip(['batch', 'learning-rate', 'position', 'parameters', 'optimizer-state'], a, b):
                mon.check(x == y, name, '%d updates after restoring at epoch %d, update %d, %s is %r, without interruption %r'
                          % (number_ + 1, epoch, update, name, x, y))
            mon.count('updates compared')
        mon.check(len(second.events) == len(expected), 'rest-of-epoch', '%d updates after restoring, expected %d' % (len(second.events), len(expected)))
        empty.close()
    finally:
        state.close()
        for handle in handles:
            handle.close()


# ------------------------------------------------------------- interrupted
def interrupted(rng, mon):
    corpus = schedule.Corpus(rng)
    batch_size = 1 + rng.randint(3)
    number = -(-len(corpus.sequences) // batch_size)
    validate = rng.rand() < 0.7 and number >= 7
    opts = schedule.options(rng, number, 7, max_epochs=1 + rng.randint(4))
    script = schedule.script(rng, 10 + rng.randint(80))
    long = validate and rng.rand() < 0.12
    if long:
        # many validations, most of them better than those before
        opts.update(max_epochs=20 + rng.randint(20), min_epochs=20, stopping_criterion='epoch-count')
        script = schedule.script(rng, rng.randint(20))
        mon.count('long validation histories')
    learning_rate = gen.pick(rng, [1.0, 0.1])
    expected = schedule.Expected(mon, opts, 7, lambda x: float(numpy.median(numpy.asarray(x))), number, learning_rate, validate)
    expected.unknown = corpus.sequences
    path = gen.tmp_path('.h5')
    calls = 0
    kills = []
    while True:
        kill_at = rng.randint(0, (12 if long else 3) * number) if len(kills) < 4 and rng.rand() < 0.8 else None
        with h5py.File(path, 'a', driver='core') as state:
            offset = calls
            events, killed, _ = schedule.run(corpus, opts, batch_size, learning_rate, state, (lambda c: script(offset + c)) if validate else None,
                                             kill_at=kill_at)
            if killed:
                # closing the file would write it
                copy = gen.tmp_path('.h5')
                shutil.copyfile(path, copy)
        calls += sum(1 for e in events if e[0] == 'perplexity')
        expected.follow(events, killed)
        kills.append(kill_at if killed else None)
        if not killed:
            with h5py.File(path, 'r') as state:
                expected.compare_saved(state, mon)
            break
        mon.count('kills of scheduled runs')
        path = copy
        try:
            h5py.File(path, 'r').close()
        except OSError as e:
            # HDF5 creates the file before anything has been written.
            mon.check(expected.candidate is None, 'unreadable', 'a state was saved but the file of a killed run cannot be read: %r' % e)
            os.remove(path)
        with h5py.File(path, 'a') as state:
            expected.compare_saved(state, mon)
            if 'trainer' in state:
                mon.count('restarts from a saved state')
        expected.restart(learning_rate)
        mon.check(len(kills) < 60, 'no-progress', 'training did not end')
    mon.case([opts, number, batch_size, corpus.length, kills, validate])


# ------------------------------------------------------------------ killed
class Watch(object):
    """Counts executed lines of the training code and kills the process."""

    def __init__(self, path, kill_at=None):
        self.path = path
        self.kill_at = kill_at
        self.lines = 0
        self.updates = []
        self.image_lines = []
        self.first_save = None
        self.last = None
        self.before = None
        self.roots = tuple(os.path.join(core.REPO, 'theanolm', d) for d in ('training', 'parsing', 'commands', 'network', 'backend'))

    def start(self):
        from theanolm.training.basicoptimizer import BasicOptimizer
        original = BasicOptimizer.update_minibatch
        watch = self

        def update_minibatch(optimizer, word_ids, class_ids, file_ids, mask):
            if watch.before is None:
                watch.before = (digest(training.parameters(optimizer.network)), digest(training.parameters(optimizer)))
            original(optimizer, word_ids, class_ids, file_ids, mask)
            watch.updates.append((schedule.batch_key(word_ids, file_ids, mask), digest(training.parameters(optimizer.network)),
                                  digest(training.parameters(optimizer)), float(optimizer.learning_rate)))
        BasicOptimizer.update_minibatch = update_minibatch
        sys.settrace(self.call)

    def call(self, frame, event, arg):
        name = frame.f_code.co_filename
        if name.startswith(self.roots):
            return self.line
        return None

    def line(self, frame, event, arg):
        if event == 'line':
            self.lines += 1
            if self.kill_at is not None:
                if self.lines >= self.kill_at:
                    os.kill(os.getpid(), signal.SIGKILL)
            else:
                self.look()
        return self.line

    def look(self):
        try:
            status = os.stat(self.path)
        except FileNotFoundError:
            return
        mark = (status.st_mtime_ns, status.st_size, status.st_ino)
        if mark != self.last:
            self.last = mark
            self.image_lines.append(self.lines)
            if self.first_save is None:
                try:
                    with h5py.File(io.BytesIO(open(self.path, 'rb').read()), 'r') as state:
                        if 'trainer' in state:
                            self.first_save = self.lines
                except (OSError, KeyError, RuntimeError):
                    pass


def child(argv, path, kill_at=None):
    """Runs a command in a child process.  Returns the wait status and what the
    child reported."""
    report = gen.tmp_path('.report')
    sys.stdout.flush()
    pid = os.fork()
    if pid == 0:
        code = 99
        try:
            resource.setrlimit(resource.RLIMIT_CPU, (60, 60))
            watch = Watch(path, kill_at)
            watch.start()
            try:
                result = cli.theanolm(*argv)
                outcome = (result.code, result.out[-2000:], result.err[-2000:])
            except BaseException as e:  # pylint: disable=broad-except
                outcome = (98, '', repr(e))
            sys.settrace(None)
            watch.look()
            with open(report, 'wb') as f:
                pickle.dump({'outcome': outcome, 'lines': watch.lines, 'updates': watch.updates, 'before': watch.before,
                             'image_lines': watch.image_lines, 'first_save': watch.first_save}, f)
            code = 0
        finally:
            os._exit(code)
    _, status = os.waitpid(pid, 0)
    result = None
    if os.path.exists(report):
        with open(report, 'rb') as f:
            result = pickle.load(f)
    return status, result


def killed(rng, mon):
    setup = trainrun.Setup(rng, lines=8 + rng.randint(6), deterministic=True, validation=rng.rand() < 0.5)
    setup.options['patience'] = -1
    setup.options['max-epochs'] = 2
    setup.options['min-epochs'] = 1
    setup.options['batch-size'] = 1
    setup.options['stopping-criterion'] = 'epoch-count'
    if setup.validation:
        setup.options['sequence-length'] = 100
    path = gen.tmp_path('.h5')
    mon.case(setup.describe())
    status, reference = child(setup.argv(path), path)
    if reference is None:
        raise core.Inconclusive('the reference run ended with wait status %d' % status)
    mon.check(reference['outcome'][0] == 0, 'command', 'theanolm train failed: %r' % (reference['outcome'],))
    updates = reference['updates']
    number = len(updates) // 2
    mon.check(len(updates) == 2 * number, 'updates', '%d updates in two epochs' % len(updates))
    lines = reference['lines']
    changes = reference['image_lines']
    points = []
    for line in changes:
        # around the moments when the file is written
        points.append(max(1, line - rng.randint(60)))
        points.append(min(lines, line + rng.randint(30)))
    # the first file images appear before training
    chosen = [gen.pick(rng, points[len(points) // 2:]), rng.randint(1, lines + 1), gen.pick(rng, points), rng.randint(lines // 2, lines + 1)]
    for kill_at in chosen:
        copy = gen.tmp_path('.h5')
        status, report = child(setup.argv(copy), copy, kill_at)
        if report is not None or not os.WIFSIGNALED(status) or os.WTERMSIG(status) != signal.SIGKILL:
            mon.count('not killed in time')
            continue
        mon.count('processes killed')
        first_save = reference['first_save']
        examine(rng, mon, setup, copy, kill_at, updates, number, first_save is not None and kill_at > first_save)


def examine(rng, mon, setup, path, kill_at, updates, number, saved):
    if not os.path.exists(path):
        mon.check(not saved, 'no-file', 'killed at line %d, after the first save, but there is no model file' % kill_at)
        mon.count('killed before the first save')
        resume(mon, setup, path, None, updates, number)
        return
    try:
        stored = trainrun.contents(path)
    except (OSError, KeyError, RuntimeError) as e:
        if not saved:
            # HDF5 creates the file before anything has been written.
            mon.count('killed before the first save')
            return
        mon.fail('unreadable', 'killed at line %d, the model file cannot be read: %r' % (kill_at, e))
    groups = {n.split('/')[0].split('@')[0] for n in stored}
    if 'trainer' not in groups and 'layers' not in groups and 'optimizer' not in groups and 'iterator' not in groups:
        mon.check(not saved, 'save-lost', 'killed at line %d, after the first save, but the file contains no state' % kill_at)
        mon.count('killed before the first save')
        resume(mon, setup, path, None, updates, number)
        return
    mon.count('killed after the first save')
    pairs = [(u[1], u[2]) for u in updates]
    from theanolm import TextScorer
    try:
        vocab, network = trainrun.load(path)
    except Exception as e:  # pylint: disable=broad-except
        mon.fail('not-loadable', 'killed at line %d, the model file cannot be loaded: %r' % (kill_at, e))
    net = digest(training.parameters(network))
    positions = [i for i, p in enumerate(pairs) if p[0] == net]
    mon.check(len(positions) > 0, 'mixed-state', 'killed at line %d, the file holds parameters that the network never had' % kill_at)
    mon.count('killed files compared')
    epoch, update = int(stored['trainer@epoch_number']), int(stored['trainer@update_number'])
    done = (epoch - 1) * number + update
    mon.check(done - 1 in positions, 'mixed-state', 'killed at line %d, the file is said to be from epoch %d, update %d, but its parameters are '
              'those after update(s) %r of %d per epoch' % (kill_at, epoch, update, [p + 1 for p in positions], number))
    mon.count('scored killed files')
    text = gen.tmp_file(setup.texts[0])
    result = cli.theanolm('score', path, text, '--output', 'perplexity')
    mon.check(result.code == 0 and 'Perplexity' in result.out, 'not-scored', 'the model of a killed run cannot be scored with: %r' % result)
    resume(mon, setup, path, done, updates, number)


def resume(mon, setup, path, done, updates, number):
    epochs = 2 if done is None or done >= number else 1
    status, report = child(setup.argv(path, max_epochs=epochs, learning_rate=3.0 if done is not None else setup.options['learning-rate'],
                                      random_seed=99), path)
    if report is None:
        raise core.Inconclusive('the resumed run ended with wait status %d' % status)
    mon.check(report['outcome'][0] == 0, 'not-resumed', 'training did not continue from what the killed process left: %r' % (report['outcome'],))
    mon.count('resumed commands')
    if done is None:
        mon.check(len(report['updates']) == 2 * number, 'not-restarted', '%d updates after restarting, expected %d' % (len(report['updates']), 2 * number))
        return
    rest = updates[done:number * epochs] if done % number else []
    if done % number == 0 and done // number < epochs:
        mon.check(report['before'] == (updates[done - 1][1], updates[done - 1][2]), 'resumed-state', 'training continued from another state')
        mon.check(len(report['updates']) == number, 'rest-of-epoch', 'resumed at the end of an epoch, %d updates on the next, expected %d'
                  % (len(report['updates']), number))
        return
    mon.check(len(report['updates']) == len(rest), 'rest-of-epoch', 'resumed after %d updates (%d per epoch), made %d updates, expected %d'
              % (done, number, len(report['updates']), len(rest)))
    for index, (a, b) in enumerate(zip(report['updates'], rest)):
        for name, x, y in zip(['batch', 'parameters', 'optimizer-state', 'learning-rate'], a, b):
            mon.check(x == y, 'resumed-' + name, '%d updates after resuming, %s is %r, without interruption %r' % (index + 1, name, x, y))
        mon.count('resumed updates compared')


FAMILIES = [
    dict(name='iterator', fn=iterator, quick=600, thorough=6000),
    dict(name='interrupted', fn=interrupted, quick=120, thorough=1500),
    dict(name='killed', fn=killed, quick=8, thorough=120),
] + [dict(name='trainer ' + m, fn=functools.partial(trainer, m), quick=8, thorough=90) for m in training.METHODS]
