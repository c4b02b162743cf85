"""Drives the real Trainer with recording stand-ins for the network, optimizer
and validation scorer, and follows the run with an independent model of the
training schedule."""

import contextlib
import hashlib
import io

import h5py
import numpy

from vf import gen


class Interrupted(Exception):
    """Training was killed."""


def digest(*values):
    return int(hashlib.sha1(repr(values).encode('utf-8')).hexdigest()[:13], 16)


def batch_key(word_ids, file_ids, mask):
    columns = []
    for i in range(word_ids.shape[1]):
        n = int(mask[:, i].sum())
        columns.append((tuple(word_ids[:n, i].tolist()), tuple(file_ids[:n, i].tolist())))
    return tuple(columns)


class StubNetwork(object):
    def __init__(self, value=1):
        self.value = value

    def get_state(self, state):
        group = state.require_group('layers')
        if 'value' in group:
            group['value'][...] = self.value
        else:
            group.create_dataset('value', data=numpy.int64(self.value))

    def set_state(self, state):
        self.value = int(state['layers/value'][()])


class StubOptimizer(object):
    """The state after an update depends on the state before, the batch and the
    learning rate."""

    def __init__(self, network, learning_rate, events, kill_at=None):
        self.network = network
        self.learning_rate = learning_rate
        self.events = events
        self.kill_at = kill_at
        self.updates = 0
        self.memory = 7

    def update_minibatch(self, word_ids, class_ids, file_ids, mask):
        if self.kill_at is not None and self.updates >= self.kill_at:
            raise Interrupted()
        self.updates += 1
        key = batch_key(word_ids, file_ids, mask)
        self.network.value = digest(self.network.value, self.memory, key, float(self.learning_rate))
        self.memory = digest(self.memory, key)
        self.events.append(('update', key, float(self.learning_rate), self.network.value, self.memory))

    def get_state(self, state):
        group = state.require_group('optimizer')
        group.attrs['learning_rate'] = self.learning_rate
        group.attrs['memory'] = self.memory

    def set_state(self, state):
        self.learning_rate = float(state['optimizer'].attrs['learning_rate'])
        self.memory = int(state['optimizer'].attrs['memory'])


class StubScorer(object):
    def __init__(self, script, events, marker):
        self.script = script
        self.events = events
        self.marker = marker
        self.calls = 0

    def compute_perplexity(self, batch_iter):
        value = self.script(self.calls)
        self.calls += 1
        self.events.append(('perplexity', value, batch_iter is self.marker))
        return value


def script(rng, length):
    """Validation results: plateaus, improvements, small changes, spikes; keeps
    improving after the given number of calls, so that training will end."""
    values = []
    level = float(100 + 1000 * rng.rand())
    mood = 0.5
    # Slow changes, of which several together make up an improvement.
    creep = 1 - gen.pick(rng, [1e-3, 5e-4, 3e-4, 1e-4, 5e-5]) * rng.rand() if rng.rand() < 0.3 else None
    while len(values) < length:
        if creep is not None:
            if rng.rand() < 0.05:
                level *= gen.pick(rng, [1.001, 1.0005, 0.999, 1.01])
            level *= creep
            values.append(level)
            continue
        if rng.rand() < 0.1:
            mood = rng.rand()
        if rng.rand() < 0.15:
            level *= gen.pick(rng, [0.5, 0.9, 0.98, 0.9985, 0.9995, 1.0, 1.0, 1.05, 1.5] if rng.rand() < mood else [1.0, 1.0, 1.01, 1.3, 0.9996])
        noise = gen.pick(rng, [0.0, 0.0, 1e-4, 0.02, 0.3])
        values.append(level * (1 + noise * (rng.rand() - 0.5)))

    def result(call):
        if call < length:
            return values[call]
        return 1e-3 * 0.99 ** (call - length)
    return result


class Expected(object):
    """What a training run must do."""

    def __init__(self, mon, options, samples, statistic, num_updates, learning_rate, validate):
        self.mon = mon
        self.o = options
        self.samples = samples
        self.statistic = statistic
        self.n = num_updates
        self.validate = validate
        self.candidate = None
        self.now = dict(epoch=1, update=0, order=0, lr=learning_rate, value=1, memory=7, history=[])
        self.orders = {0: {}}
        self.next_order = 1
        self.position = 0
        self.unknown = None

    def restart(self, learning_rate):
        """A new process continues from what was saved."""
        if self.candidate is not None:
            self.now = dict(self.candidate)
            self.now['history'] = list(self.candidate['history'])
        else:
            self.now = dict(epoch=1, update=0, order=self.new_order(), lr=learning_rate, value=1, memory=7, history=[])

    def new_order(self):
        self.orders[self.next_order] = {}
        self.next_order += 1
        return self.next_order - 1

    def is_point(self, update):
        f = self.o['validation_frequency']
        return any(update == -(-k * self.n // f) for k in range(1, f + 1))

    def next_point(self, update):
        while not self.is_point(update):
            update += 1
        return update

    def snapshot(self):
        result = dict(self.now)
        result['history'] = list(self.now['history'])
        return result

    def follow(self, events, killed=False):
        """Consumes the events of one run; returns at the end of training."""
        mon = self.mon
        stream = iter(events + [('end',)])
        event = next(stream)
        local = []
        center = None
        candidate_index = len(self.now['history']) - 1 if self.now['history'] else None
        annealing_left = self.o['max_annealing_count']
        stop_cost = None
        improved = True
        criterion = self.o['stopping_criterion']
        passes = {}

        def stopped():
            """No further mini-batch."""
            nonlocal improved
            if criterion == 'epoch-count' or self.now['epoch'] <= self.o['min_epochs']:
                return False
            if criterion == 'annealing-count':
                return annealing_left < 0
            cost = self.now['history'][candidate_index] if candidate_index is not None else None
            if not improved and cost is not None and (stop_cost is None or cost < stop_cost):
                improved = True
            return not improved

        while True:
            if self.now['epoch'] > self.o['max_epochs'] or stopped():
                break
            while self.now['update'] < self.n:
                if event[0] == 'end' and killed:
                    return
                mon.check(event[0] == 'update', 'schedule', 'expected update %d of epoch %d, got %r'
                          % (self.now['update'] + 1, self.now['epoch'], event[:1]))
                _, key, lr, value, memory = event
                now = self.now
                now['update'] += 1
                now['value'] = digest(now['value'], now['memory'], key, float(now['lr']))
                now['memory'] = digest(now['memory'], key)
                mon.count('updates followed')
                mon.check(lr == now['lr'], 'learning-rate', 'update %d of epoch %d used learning rate %r, expected %r'
                          % (now['update'], now['epoch'], lr, now['lr']))
                known = self.orders[now['order']]
                if now['update'] in known:
                    mon.count('batches delivered again')
                    mon.check(known[now['update']] == key, 'batch-order',
                              'after returning to the saved state, update %d of epoch %d got the batch %r, expected %r'
                              % (now['update'], now['epoch'], key, known[now['update']]))
                known[now['update']] = key
                mon.check(value == now['value'] and memory == now['memory'], 'state', 'update %d of epoch %d did not continue from the expected state'
                          % (now['update'], now['epoch']))
                event = next(stream)
                if self.validate:
                    point = self.next_point(now['update'])
                    if point - now['update'] < self.samples:
                        if event[0] == 'end' and killed:
                            return
                        mon.check(event[0] == 'perplexity', 'validation-missing', 'no validation sample after update %d of epoch %d (%d updates per '
                                  'epoch, frequency %d)' % (now['update'], now['epoch'], self.n, self.o['validation_frequency']))
                        mon.check(event[2], 'validation-data', 'perplexity of other than the validation data')
                        local.append(event[1])
                        mon.count('validation samples')
                        event = next(stream)
                        if point - now['update'] <= self.samples // 2 and center is None:
                            center = self.snapshot()
                        if point == now['update']:
                            if len(local) == self.samples:
                                cost = self.statistic(local)
                                now['history'].append(cost)
                                mon.count('validations')
                                if candidate_index is None or cost < 0.999 * now['history'][candidate_index]:
                                    candidate_index = len(now['history']) - 1
                                    center['history'] = list(now['history'])
                                    self.candidate = center
                                    mon.count('candidates')
                                else:
                                    mon.count('validations without improvement')
                                if 0 <= self.o['patience'] < len(now['history']) - 1 - candidate_index:
                                    lr = now['lr'] / 2
                                    self.now = dict(self.candidate)
                                    self.now['history'] = list(self.candidate['history'])
                                    self.now['lr'] = lr
                                    candidate_index = len(self.now['history']) - 1
                                    mon.count('annealings')
                                    annealing_left -= 1
                                    cost = self.now['history'][candidate_index]
                                    improved = stop_cost is None or cost < stop_cost
                                    stop_cost = cost
                            else:
                                mon.count('incomplete validations')
                            local = []
                            center = None
                if stopped():
                    mon.count('stopped within an epoch')
                    break
            else:
                pass
            self.complete(passes)
            if not self.validate:
                done = self.snapshot()
                done['epoch'] += 1
                done['update'] = 0
                done['order'] = self.next_order
                self.candidate = done
            self.now['epoch'] += 1
            self.now['update'] = 0
            self.now['order'] = self.new_order()
            mon.count('epochs')
        if killed and event[0] == 'end':
            return
        mon.check(event[0] == 'end', 'continued', 'training continued after epoch %d although it had to stop (%s)'
                  % (self.now['epoch'] - 1, criterion))
        mon.count('completed runs')

    def complete(self, passes):
        """A whole pass of the data: every sequence once."""
        if self.unknown is None:
            return
        known = self.orders[self.now['order']]
        if sorted(known) != list(range(1, self.n + 1)):
            return
        delivered = sorted(column for key in known.values() for column in key)
        self.mon.count('complete passes')
        self.mon.check(delivered == self.unknown, 'pass', 'an epoch did not deliver every sequence exactly once')

    def compare_saved(self, state, mon):
        """The candidate state, as stored."""
        if self.candidate is None:
            mon.check('trainer' not in state, 'saved-early', 'a state was saved although none was accepted')
            return
        c = self.candidate
        mon.check('trainer' in state, 'not-saved', 'no state was saved')
        attrs = state['trainer'].attrs
        mon.count('saved states compared')
        saved = dict(epoch=int(attrs['epoch_number']), update=int(attrs['update_number']), value=int(state['layers/value'][()]),
                     lr=float(state['optimizer'].attrs['learning_rate']), memory=int(state['optimizer'].attrs['memory']))
        # End of an epoch may be stored as such or as the beginning of the next.
        where = (saved['epoch'], saved['update'])
        mon.check(where == (c['epoch'], c['update']), 'saved-position', 'saved epoch %d update %d, expected epoch %d update %d'
                  % (where + (c['epoch'], c['update'])))
        mon.check(saved['value'] == c['value'] and saved['memory'] == c['memory'], 'saved-state',
                  'the saved parameters are not those of the best validated state (epoch %d, update %d)' % (c['epoch'], c['update']))
        mon.check(saved['lr'] == c['lr'], 'saved-learning-rate', 'saved learning rate %r, expected %r' % (saved['lr'], c['lr']))
        history = state['trainer/cost_history'][:].tolist()
        mon.close(history, c['history'], 'saved-history', 'saved validation history', rtol=1e-12) \
            if len(history) == len(c['history']) else mon.fail('saved-history', 'saved history %r, expected %r' % (history, c['history']))


def options(rng, num_updates, samples, **fixed):
    limit = max(1, num_updates // samples)
    result = {
        'validation_frequency': 1 + rng.randint(min(4, limit)),
        'patience': gen.pick(rng, [-1, 0, 0, 1, 2, 4]),
        'stopping_criterion': gen.pick(rng, ['epoch-count', 'no-improvement', 'annealing-count']),
        'max_epochs': 1 + rng.randint(5),
        'min_epochs': gen.pick(rng, [0, 0, 1, 2]),
        'max_annealing_count': rng.randint(4),
    }
    result.update(fixed)
    return result


class Corpus(object):
    """Training files and the sequences they hold."""

    def __init__(self, rng, lines=None, split=True):
        from theanolm.vocabulary import Vocabulary
        names = gen.words(rng, 3 + rng.randint(5), simple=True)
        counts = {w: 1 + rng.randint(5) for w in names}
        self.vocab = Vocabulary.from_word_counts(counts)
        number = 1 + (rng.rand() < 0.4)
        total = lines or 8 + rng.randint(40)
        self.paths = []
        self.sequences = []
        self.length = gen.pick(rng, [None, 100, 3, 4]) if split else None
        self.lines = [0] * number
        for index in range(number):
            text = ''
            for _ in range(max(1, total // number)):
                words = [gen.pick(rng, names) for _ in range(1 + rng.randint(6 if rng.rand() < 0.97 else 60))]
                text += ' '.join(words) + '\n'
                self.lines[index] += 1
                ids = [self.vocab.word_to_id[w] for w in ['<s>'] + words + ['</s>']]
                step = self.length or len(ids)
                for start in range(0, len(ids), step):
                    part = ids[start:start + step]
                    if len(part) >= 2:
                        self.sequences.append((tuple(part), (index,) * len(part)))
            self.paths.append(gen.tmp_file(text))
        self.sequences.sort()

    def open(self):
        return [open(p, 'r', encoding='utf-8') for p in self.paths]


def run(corpus, opts, batch_size, learning_rate, state, validation=None, samples=7, statistic=None, sampling=(), kill_at=None):
    """One training process.  Returns (events, killed, trainer)."""
    from theanolm.training import Trainer
    events = []
    handles = corpus.open()
    all_options = dict(opts, batch_size=batch_size, sequence_length=corpus.length)
    try:
        with contextlib.redirect_stdout(io.StringIO()):
            trainer = Trainer(all_options, corpus.vocab, handles, list(sampling))
            network = StubNetwork()
            optimizer = StubOptimizer(network, learning_rate, events, kill_at)
            trainer.initialize(network, state, optimizer)
            if validation is not None:
                marker = object()
                kwargs = {}
                if samples != 7:
                    kwargs['samples_per_validation'] = samples
                if statistic is not None:
                    kwargs['statistics_function'] = statistic
                trainer.set_validation(marker, StubScorer(validation, events, marker), **kwargs)
            killed = False
            try:
                trainer.train()
            except Interrupted:
                killed = True
    finally:
        # The in-memory file would not outlive the process.
        for left in list(getattr(locals().get('trainer'), '__dict__', {}).values()):
            if isinstance(left, h5py.File) and left and left.filename != state.filename:
                left.close()
        for handle in handles:
            handle.close()
    return events, killed, trainer
