"""C30: the train command trains with exactly the settings it is given."""

import h5py
import numpy

from vf import gen, schedule, trainrun, training
from vf.checks.c20 import Rule
from vf.checks.c21 import prior, regularization, softplus

RULE = ('Random "theanolm train" command lines, in which every option is given or left to its default, are run on real networks. Every '
        'update is observed: the mini-batch, the parameters before and after, and the cost. An independent implementation of the cost '
        'and of the update rule, using the values of the command line or the documented defaults, has to give the same cost and '
        'parameters. In further runs the validation results are scripted and the whole log of updates, validations and saved states '
        'is compared with a model of the schedule that uses the same values. Distinct by command and inputs.')
QUICK_SCALE = 1
REQUIRED = ['updates compared', 'costs compared', 'parameters compared', 'epochs compared', 'sequences compared', 'weighted updates',
            'runs with excluded words', 'runs with nce', 'runs with blackout', 'regularised runs', 'sampled files', 'split sentences', 'updates with limited norm',
            'options left to default', 'options given', 'schedules compared', 'updates followed', 'validations', 'annealings',
            'default schedules', 'sharing None', 'sharing seq', 'sharing batch', 'noise uniform', 'noise log-uniform', 'noise unigram',
            'rejected command lines'] + ['method ' + m for m in training.METHODS]
ASSUMPTIONS = ['The gradient is taken from Theano\'s differentiation of the cost tensor.',
               'Weights and exclusion of unknown words are not combined.']

DEFAULTS = {'optimization-method': 'adagrad', 'learning-rate': 0.1, 'l1-regularization': None, 'l2-regularization': None,
            'momentum': 0.9, 'gradient-decay-rate': 0.9, 'sqr-gradient-decay-rate': 0.999, 'numerical-stability-term': 1e-6,
            'gradient-normalization': 5.0, 'cost': 'cross-entropy', 'num-noise-samples': 5, 'noise-distribution': 'uniform',
            'noise-dampening': 0.5, 'noise-sharing': None, 'batch-size': 16, 'sequence-length': 100, 'validation-frequency': 5,
            'patience': 4, 'stopping-criterion': 'annealing-count', 'min-epochs': 1, 'max-epochs': 100, 'max-annealing-count': 0}


class Files(object):
    """Training files and an architecture."""

    def __init__(self, rng, description, lines=None, number=None, words=None, validation=False):
        self.words = gen.words(rng, words or 5 + rng.randint(4), simple=True)
        self.description = description
        self.architecture = gen.tmp_file(description, '.arch')
        number = number or 1 + (rng.rand() < 0.6) + (rng.rand() < 0.3)
        self.lines = []
        total = lines or 8 + rng.randint(20)
        for _ in range(number):
            self.lines.append([[gen.pick(rng, self.words) for _ in range(gen.pick(rng, [1, 2, 3, 5, 8]))]
                               for _ in range(max(2, total // number + rng.randint(-1, 2)))])
        # a vocabulary without some of the words, so that there is <unk>
        self.known = self.words[:max(4, len(self.words) - 2)]
        self.vocabulary = gen.tmp_file(''.join(w + '\n' for w in self.known), '.vocab')
        self.paths = [gen.tmp_file(''.join(' '.join(words) + '\n' for words in lines)) for lines in self.lines]
        self.validation = gen.tmp_file(''.join(' '.join(words) + '\n' for words in self.lines[0][:3])) if validation else None

    def argv(self, model, options):
        result = ['train', model, '--training-set'] + self.paths
        if self.validation:
            result += ['--validation-file', self.validation]
        result += ['--architecture', self.architecture, '--vocabulary', self.vocabulary, '--log-file', gen.tmp_path('.log')]
        for name, value in options.items():
            if value is True:
                result.append('--' + name)
            else:
                result += ['--' + name] + (list(value) if isinstance(value, list) else [value])
        return result

    def pieces(self, vocab, limit):
        """For every file and line, the sequences it is divided into."""
        unk = vocab.word_to_id['<unk>']
        result = []
        for lines in self.lines:
            parts = []
            for words in lines:
                ids = [vocab.word_to_id.get(w, unk) for w in ['<s>'] + words + ['</s>']]
                ids = [i if i < vocab.num_shortlist_words() else unk for i in ids]
                parts.append([tuple(ids[k:k + limit]) for k in range(0, len(ids), limit) if len(ids[k:k + limit]) > 1])
            result.append(parts)
        return result


def random_settings(rng, mon, files):
    """(what is given on the command line, the value of every setting)"""
    given = {}

    def choose(name, values, probability=0.6):
        if rng.rand() < probability:
            given[name] = gen.pick(rng, values)
    choose('optimization-method', training.METHODS, 0.85)
    choose('learning-rate', [0.5, 0.05, 0.01, 1.0])
    choose('l1-regularization', [0.01, 0.002], 0.3)
    choose('l2-regularization', [0.02, 0.003], 0.3)
    choose('momentum', [0.5, 0.99, 0.0])
    choose('gradient-decay-rate', [0.5, 0.95, 0.8])
    choose('sqr-gradient-decay-rate', [0.9, 0.99, 0.95])
    choose('numerical-stability-term', [1e-3, 1e-8, 1e-2])
    choose('gradient-normalization', [0.1, 1.0, 1000.0, 20.0])
    choose('batch-size', [1, 2, 3, 5])
    choose('sequence-length', [3, 4, 6, 50])
    if 'hsoftmax' not in files.description and rng.rand() < 0.6:
        given['cost'] = gen.pick(rng, ['nce', 'blackout', 'nce'])
    choose('num-noise-samples', [1, 2, 3])
    choose('noise-distribution', ['uniform', 'log-uniform', 'unigram'], 0.75)
    choose('noise-dampening', [1.0, 0.25, 0.0, 0.75, 0.05])
    choose('noise-sharing', ['seq', 'batch'], 0.65)
    if given.get('noise-distribution') == 'unigram':
        # zero probabilities of sentence ends and unknown words, and draws
        # without replacement
        if given.get('cost') == 'blackout':
            given['cost'] = 'nce'
        if given.get('noise-sharing') == 'seq':
            del given['noise-sharing']
        given['num-noise-samples'] = 1
    number = len(files.paths)
    if rng.rand() < 0.45:
        given['weights'] = [gen.pick(rng, [0.0, 0.5, 2.0, 3.5]) for _ in range(1 + rng.randint(number))]
    elif rng.rand() < 0.5:
        given['exclude-unk'] = True
    if rng.rand() < 0.4:
        given['sampling'] = [gen.pick(rng, [0.25, 0.5, 1.0, 0.8]) for _ in range(1 + rng.randint(number))]
    value = dict(DEFAULTS)
    value.update(given)
    value['weights'] = given.get('weights', []) + [1.0] * (number - len(given.get('weights', [])))
    value['sampling'] = given.get('sampling', []) + [1.0] * (number - len(given.get('sampling', [])))
    mon.count('options given', len(given))
    mon.count('options left to default', sum(name not in given for name in DEFAULTS))
    return given, value


class Watch(object):
    """Stands between the trainer and the optimizer."""

    def __init__(self, update=None, tensor=None, perplexity=None):
        self.replace = {'update': update, 'tensor': tensor, 'perplexity': perplexity}

    def __enter__(self):
        from theanolm.training import BlackoutCost, CrossEntropyCost, NCECost
        from theanolm.training.basicoptimizer import BasicOptimizer
        from theanolm.scoring import TextScorer
        self.saved = []

        def patch(owner, name, make):
            original = owner.__dict__.get(name) or getattr(owner, name)
            self.saved.append((owner, name, owner.__dict__.get(name)))
            setattr(owner, name, make(original))
        if self.replace['update']:
            call = self.replace['update']
            patch(BasicOptimizer, 'update_minibatch', lambda original: lambda optimizer, word_ids, class_ids, file_ids, mask:
                  call(original, optimizer, word_ids, class_ids, file_ids, mask))
        if self.replace['tensor']:
            note = self.replace['tensor']

            def recording(original):
                def get_tensor(cost, *args, **kwargs):
                    result = original(cost, *args, **kwargs)
                    note(cost, result)
                    return result
                return get_tensor
            for cls in (CrossEntropyCost, NCECost, BlackoutCost):
                patch(cls, 'get_tensor', recording)
        if self.replace['perplexity']:
            score = self.replace['perplexity']
            patch(TextScorer, 'compute_perplexity', lambda original: lambda scorer, batch_iter: score(original, scorer, batch_iter))
        return self

    def __exit__(self, *_):
        for owner, name, original in reversed(self.saved):
            if original is None:
                delattr(owner, name)
            else:
                setattr(owner, name, original)


class Reference(object):
    """Cost, gradients and noise of one network, from its tensors."""

    def __init__(self, network, tensors, number, sampled):
        import theano
        from theano import tensor
        self.names = sorted(network.get_variables())
        gradients = [tensor.grad(tensors[0], network.get_variables()[n]) for n in self.names]
        extra = list(network.noise_sample()) + [network.unnormalized_logprobs()] if sampled else [network.output_probs()]
        word_ids, class_ids = tensor.lmatrix(), tensor.lmatrix()
        self.function = theano.function(
            [word_ids, class_ids, network.mask], list(tensors) + extra + gradients, no_default_updates=True, on_unused_input='ignore',
            givens=[(network.input_word_ids, word_ids[:-1]), (network.input_class_ids, class_ids[:-1]),
                    (network.target_word_ids, word_ids[1:]), (network.target_class_ids, class_ids[1:]),
                    (network.is_training, numpy.int8(1)), (network.num_noise_samples, numpy.int64(number))])
        self.extra = len(extra)

    def __call__(self, word_ids, class_ids, mask):
        values = [numpy.asarray(v) for v in self.function(word_ids, class_ids, mask[1:])]
        return float(values[0]), int(values[1]), values[2:2 + self.extra], dict(zip(self.names, values[2 + self.extra:]))


def expected_cost(vocab, value, class_ids, counted, extra, penalty):
    targets = class_ids[1:]
    grid = numpy.indices(targets.shape)
    epsilon = value['numerical-stability-term']
    if value['cost'] == 'cross-entropy':
        with numpy.errstate(divide='ignore'):
            logs = numpy.log(extra[0][grid[0], grid[1], targets])
    else:
        sample, sample_logits, logits = extra
        sample = sample.astype(int)
        q = prior(vocab, value['noise-distribution'], value['noise-dampening'])
        if value['cost'] == 'nce':
            logs = -softplus(-(logits - numpy.log(q[targets] + epsilon)))
            logs = logs + (-softplus(sample_logits - numpy.log(q[sample] + epsilon))).sum(2)
        else:
            target = numpy.exp(logits) / q[targets]
            noises = numpy.exp(sample_logits) / q[sample]
            total = target + noises.sum(2)
            logs = numpy.log(target / total + epsilon) + numpy.log(1.0 - noises / total[:, :, None] + epsilon).sum(2)
    number = int(counted.sum())
    return number, (-logs[counted].sum() / number if number else 0.0) + penalty


def updates(rng, mon):
    description = gen.architecture_text(rng, max_hidden=1, size=3, dropout=rng.rand() < 0.3, output=gen.pick(rng, ['softmax', None]),
                                        only=['tanh', 'fc', 'gru', 'lstm', 'dropout', 'highway', 'add'])
    files = Files(rng, description)
    given, value = random_settings(rng, mon, files)
    given['max-epochs'] = value['max-epochs'] = 1 + rng.randint(2)
    given['stopping-criterion'] = 'epoch-count'
    given['random-seed'] = rng.randint(1 << 30)
    seen = dict(tensors=[], reference=None, rule=None, steps=0, batches=[])
    model = gen.tmp_path('.h5')
    mon.case([description, files.lines, given])
    mon.count('method ' + value['optimization-method'])
    mon.count('runs with ' + value['cost'])
    mon.count('runs with excluded words', 'exclude-unk' in given)
    mon.count('regularised runs', value['l1-regularization'] is not None or value['l2-regularization'] is not None)
    sampled = value['cost'] != 'cross-entropy'
    if sampled:
        mon.count('sharing %s' % value['noise-sharing'])
        mon.count('noise ' + value['noise-distribution'])

    def note(_, tensors):
        seen['tensors'].append(tensors)

    def update(original, optimizer, word_ids, class_ids, file_ids, mask):
        network = optimizer.network
        vocab = network.vocabulary
        seen['vocab'] = vocab
        seen['batches'].append(schedule.batch_key(word_ids, file_ids, mask))
        seen['steps'] += 1
        if seen['steps'] > 6:
            return original(optimizer, word_ids, class_ids, file_ids, mask)
        before = training.parameters(network)
        if seen['reference'] is None:
            mon.check(len(seen['tensors']) == 1, 'cost', '%d costs were created' % len(seen['tensors']))
            seen['reference'] = Reference(network, seen['tensors'][0], value['num-noise-samples'], sampled)
            seen['rule'] = Rule({'method': value['optimization-method'], 'epsilon': value['numerical-stability-term'],
                                 'gradient_decay_rate': value['gradient-decay-rate'],
                                 'sqr_gradient_decay_rate': value['sqr-gradient-decay-rate'], 'momentum': value['momentum'],
                                 'max_gradient_norm': value['gradient-normalization']}, before)
        cost, number, extra, gradients = seen['reference'](word_ids, class_ids, mask)
        counted = mask[1:] == 1
        if 'exclude-unk' in given:
            counted = counted & (word_ids[1:] != vocab.word_to_id['<unk>'])
        penalty = regularization(network, value['l1-regularization'], value['l2-regularization'])
        if sampled:
            steps, sequences = word_ids.shape[0] - 1, word_ids.shape[1]
            shape = {None: (steps, sequences), 'seq': (steps, 1), 'batch': (1, 1)}[value['noise-sharing']] + (value['num-noise-samples'],)
            mon.check(extra[0].shape == shape, 'sharing', 'noise samples of shape %r, expected %r' % (extra[0].shape, shape))
        want_number, want = expected_cost(vocab, value, class_ids, counted, extra, penalty)
        mon.count('costs compared')
        mon.check(number == want_number, 'words', 'the cost has %d words, expected %d' % (number, want_number))
        mon.close(cost, want, 'cost', '%s of update %d' % (value['cost'], seen['steps']), rtol=1e-7, atol=1e-9)
        scale = 1.0
        if 'weights' in given:
            scale = numpy.array(value['weights'])[file_ids[1:][mask[1:] == 1]].mean()
            mon.count('weighted updates', scale != 1.0)
        result, limited = seen['rule'].step(before, gradients, value['learning-rate'] * scale)
        original(optimizer, word_ids, class_ids, file_ids, mask)
        after = training.parameters(network)
        mon.count('updates compared')
        mon.count('updates with limited norm', limited)
        for k in sorted(result):
            mon.count('parameters compared')
            size = numpy.abs(result[k] - before[k]).max() if result[k].size else 0.0
            mon.close(after[k] - before[k], result[k] - before[k], 'update', 'update %d by %s: change of %s'
                      % (seen['steps'], value['optimization-method'], k), rtol=1e-6, atol=1e-7 * size + 1e-13)

    with Watch(update, note):
        from vf import cli
        result = cli.theanolm(*files.argv(model, given))
    mon.check(result.code == 0, 'command', 'theanolm train failed: %r' % result)
    judge_epochs(mon, files, given, value, seen)


def judge_epochs(mon, files, given, value, seen):
    """The batches of whole epochs."""
    pieces = files.pieces(seen['vocab'], value['sequence-length'])
    mon.count('split sentences', sum(len(p) > 1 for parts in pieces for p in parts))
    whole = all(f == 1.0 for f in value['sampling'])
    size = value['batch-size']
    for batch in seen['batches']:
        mon.check(len(batch) <= size, 'batch-size', 'a mini-batch of %d sequences, the batch size is %d' % (len(batch), size))
        mon.check(all(len(c[0]) <= value['sequence-length'] for c in batch), 'sequence-length', 'a sequence longer than %d'
                  % value['sequence-length'])
    epochs = value['max-epochs']
    if whole:
        expected = sorted((p, (i,) * len(p)) for i, parts in enumerate(pieces) for line in parts for p in line)
        number = -(-len(expected) // size)
        mon.check(len(seen['batches']) == epochs * number, 'updates', '%d updates in %d epochs, expected %d in each'
                  % (len(seen['batches']), epochs, number))
        for epoch in range(epochs):
            got = sorted(c for batch in seen['batches'][epoch * number:(epoch + 1) * number] for c in batch)
            mon.count('epochs compared')
            mon.count('sequences compared', len(got))
            mon.check(got == expected, 'epoch', 'epoch %d did not consist of the sequences of the training files' % (epoch + 1))
    elif value['sequence-length'] >= 10:
        # one sequence from every sampled line
        counts = [int(round(f * len(parts))) for f, parts in zip(value['sampling'], pieces)]
        got = [0] * len(pieces)
        for batch in seen['batches']:
            for _, file_ids in batch:
                got[file_ids[0]] += 1
        mon.count('sampled files')
        mon.check(got == [epochs * n for n in counts], 'sampling', '%r sequences of the files in %d epochs, fractions %r of %r lines'
                  % (got, epochs, value['sampling'], [len(p) for p in pieces]))


def scheduled(rng, mon):
    """Scripted validation results; the parameters carry the history of the
    run."""
    description = 'input type=class name=in\nlayer type=projection name=p input=in size=2\nlayer type=softmax name=out input=p\n'
    files = Files(rng, description, lines=16 + rng.randint(40), words=6, validation=rng.rand() < 0.9)
    given = {'batch-size': 1 + rng.randint(2)}
    default = rng.rand() < 0.2

    def choose(name, values, probability=0.7):
        if rng.rand() < probability and not default:
            given[name] = gen.pick(rng, values)
    choose('learning-rate', [1.0, 0.3, 0.07])
    choose('patience', [-1, 0, 0, 1, 2, 5])
    choose('stopping-criterion', ['epoch-count', 'no-improvement', 'annealing-count'])
    choose('min-epochs', [0, 1, 2, 3])
    choose('max-epochs', [1, 2, 3, 5], 0.9)
    choose('max-annealing-count', [1, 2, 3])
    choose('validation-frequency', [1, 2, 3])
    value = dict(DEFAULTS)
    value.update(given)
    if default:
        mon.count('default schedules')
        files = Files(rng, description, lines=45 + rng.randint(20), words=6, number=1, validation=True)
        given['batch-size'] = value['batch-size'] = 1
    total = sum(len(lines) for lines in files.lines)
    number = -(-total // value['batch-size'])
    if value['validation-frequency'] * 7 > number:
        given['validation-frequency'] = value['validation-frequency'] = 1
    mon.case([files.lines, given])
    events = []
    script = schedule.script(rng, 10 + rng.randint(120 if not default else 200))
    if default:
        # keeps improving for some epochs and ends then, long before the
        # hundredth epoch
        drops, rate = 35 + rng.randint(200), gen.pick(rng, [0.999, 0.99, 0.98])
        script = lambda call: 1000.0 * rate ** min(call, drops) * (1 + 1e-5 * (call > drops))
    calls = [0]

    def carrier(network):
        name = sorted(network.get_variables())[0]
        return network.get_variables()[name]

    def update(original, optimizer, word_ids, class_ids, file_ids, mask):
        variable = carrier(optimizer.network)
        values = variable.get_value()
        state = (int(values.flat[0]), int(values.flat[1])) if values.flat[0] >= 2 else (1, 7)
        key = schedule.batch_key(word_ids, file_ids, mask)
        new = (schedule.digest(state[0], state[1], key, float(optimizer.learning_rate)) + 2, schedule.digest(state[1], key) + 2)
        events.append(('update', key, float(optimizer.learning_rate), new[0], new[1]))
        values.flat[0], values.flat[1] = new
        variable.set_value(values)

    def perplexity(original, scorer, *_):
        result = script(calls[0])
        calls[0] += 1
        events.append(('perplexity', result, True))
        return result

    model = gen.tmp_path('.h5')
    with Watch(update, None, perplexity):
        from vf import cli
        result = cli.theanolm(*files.argv(model, given))
    mon.check(result.code == 0, 'command', 'theanolm train failed: %r' % result)
    trained = 'has not been trained' not in result.out
    if files.validation and trained:
        mon.check(events and events[-1][0] == 'perplexity', 'final', 'no final perplexity')
        events.pop()
    options = {name.replace('-', '_'): value[name] for name in ('validation-frequency', 'patience', 'stopping-criterion', 'max-epochs',
                                                                'min-epochs', 'max-annealing-count')}
    expected = Following(mon, options, 7, lambda x: float(numpy.median(numpy.asarray(x))), number, value['learning-rate'],
                         files.validation is not None)
    expected.follow(events)
    mon.count('schedules compared')
    with h5py.File(model, 'r') as state:
        candidate = expected.candidate
        mon.check(trained == (candidate is not None) == ('trainer' in state), 'saved', 'saved state: %r' % result)
        if candidate is None:
            return
        attrs = state['trainer'].attrs
        mon.check((int(attrs['epoch_number']), int(attrs['update_number'])) == (candidate['epoch'], candidate['update']), 'saved-position',
                  'saved epoch %d update %d, expected epoch %d update %d' % (attrs['epoch_number'], attrs['update_number'],
                                                                            candidate['epoch'], candidate['update']))
        names = []
        state['layers'].visititems(lambda name, item: names.append('layers/' + name) if hasattr(item, 'shape') else None)
        values = state[sorted(names)[0]][()]
        mon.check((int(values.flat[0]), int(values.flat[1])) == (candidate['value'], candidate['memory']), 'saved-state',
                  'the saved parameters are not those of the best validated state')
        mon.check(float(state['optimizer'].attrs['learning_rate']) == candidate['lr'], 'saved-learning-rate', 'saved learning rate')


class Following(schedule.Expected):
    """Digests are two larger, so that they differ from initial values."""

    def follow(self, events, killed=False):
        original = schedule.digest
        schedule.digest = lambda *values: original(*values) + 2
        try:
            return schedule.Expected.follow(self, events, killed)
        finally:
            schedule.digest = original


def rejected(rng, mon):
    """Settings that cannot be followed are refused before training."""
    description = 'input type=class name=in\nlayer type=projection name=p input=in size=2\nlayer type=softmax name=out input=p\n'
    files = Files(rng, description)
    number = len(files.paths)
    wrong = rng.randint(3)
    given = {}
    if wrong == 0:
        given['weights'] = [1.0] * (number + 1 + rng.randint(2))
    elif wrong == 1:
        given['sampling'] = [0.5] * (number + 1 + rng.randint(2))
    else:
        given['num-noise-samples'] = len(files.known) + 4 + rng.randint(5)
    mon.case([files.lines, given])
    called = []
    with Watch(lambda original, *_: called.append(1)):
        from vf import cli
        result = cli.theanolm(*files.argv(gen.tmp_path('.h5'), dict(given, **{'max-epochs': 1})))
    mon.count('rejected command lines')
    mon.check(result.code not in (0, None) and not called, 'accepted', '%r with %d files: %r' % (given, number, result))


FAMILIES = [
    dict(name='updates', fn=updates, quick=240, thorough=1000),
    dict(name='scheduled', fn=scheduled, quick=240, thorough=1200),
    dict(name='rejected', fn=rejected, quick=24, thorough=100),
]
