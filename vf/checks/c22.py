"""C22: noise samples are valid classes with the probabilities reported for them."""

import numpy

from vf import gen, training

RULE = ('Distributions with random supports (from one class to thousands, very uneven ones included) and networks configured for '
        'all noise types and sharing modes draw samples; every sample is checked for range, draws per element and uniqueness where '
        'sampling is without replacement, frequencies are tested against the reported probabilities (G-test, threshold far below the '
        'false alarm level and fixed seeds), the generator is driven to its extreme outputs, and reported probabilities must sum to '
        'one. Non-trivial: more than one class. Distinct by distribution and sizes.')
REQUIRED = ['samples drawn', 'frequency tests', 'probability sums', 'extreme draws', 'unique draws', 'network samples',
            'sharing None', 'sharing seq', 'sharing batch', 'type uniform', 'type log-uniform', 'type unigram', 'dampened']
ASSUMPTIONS = ['Unigram sampling is without replacement: the reported probability is that of the first draw, and the number of samples '
               'drawn at a time may not exceed the number of classes (seq sharing draws for all time steps at a time).']


def stream(rng):
    from theano.sandbox.rng_mrg import MRG_RandomStreams
    return MRG_RandomStreams([int(x) + 1 for x in rng.randint(0, 2147462570, size=6)])


def g_statistic(counts, probs):
    """G statistic over cells merged to have enough expectation, and its degrees of freedom."""
    counts, probs = numpy.asarray(counts, dtype='float64'), numpy.asarray(probs, dtype='float64')
    total = counts.sum()
    order = numpy.argsort(probs)
    cells, o, e = [], 0.0, 0.0
    for k in order:
        o += counts[k]
        e += probs[k] * total
        if e >= 8:
            cells.append((o, e))
            o, e = 0.0, 0.0
    if cells and (o or e):
        cells[-1] = (cells[-1][0] + o, cells[-1][1] + e)
    g = 2 * sum(o * numpy.log(o / e) for o, e in cells if o > 0)
    return g, len(cells) - 1


def test_frequencies(mon, sample, probs, what):
    from scipy import stats
    counts = numpy.bincount(sample, minlength=len(probs))
    mon.check(not (counts[numpy.asarray(probs) == 0] > 0).any(), 'zero-probability', '%s: a class with zero probability was drawn' % what)
    g, df = g_statistic(counts, probs)
    if df < 1:
        return
    p = stats.chi2.sf(g, df)
    mon.count('frequency tests')
    mon.check(p > 1e-10, 'frequency', lambda: '%s: frequencies %s of %d draws do not follow probabilities %s (p = %g)' % (
        what, counts.tolist()[:30], counts.sum(), numpy.round(probs, 4).tolist()[:30], p))


def random_probs(rng, number):
    p = rng.rand(number) ** gen.pick(rng, [1, 3, 10]) + gen.pick(rng, [1e-9, 0.01])
    if number > 2 and rng.rand() < 0.3:
        p[rng.randint(number)] = 0.0
    return p / p.sum()


def distribution(rng, mon):
    import theano
    from theano import tensor
    from theanolm.backend import UniformDistribution, LogUniformDistribution, MultinomialDistribution
    kind = gen.pick(rng, ['uniform', 'log-uniform', 'unigram'])
    number = int(gen.pick(rng, [1, 2, 3, 10, 100, 1000])) + int(gen.pick(rng, [0, 0, 1, 7]))
    if kind == 'unigram':
        number = min(number, 60)
    mon.count('type ' + kind)
    random = stream(rng)
    if kind == 'uniform':
        dist, want = UniformDistribution(random, number), numpy.full(number, 1.0 / number)
    elif kind == 'log-uniform':
        dist = LogUniformDistribution(random, number)
        want = numpy.diff(numpy.log(numpy.arange(1, number + 2))) / numpy.log(number + 1.0)
    else:
        want = random_probs(rng, number)
        dist = MultinomialDistribution(random, theano.shared(want))
    usable = int((want > 0).sum())
    k = 1 + rng.randint(min(5, usable))
    rows = 600
    mon.case({'kind': kind, 'number': number, 'k': k, 'probs': want.tolist()[:50]}, nontrivial=number > 1)
    size, samples = tensor.lscalar(), tensor.lscalar()
    draw = theano.function([size, samples], dist.sample(size, samples))
    ids = tensor.lvector()
    reported = theano.function([ids], tensor.as_tensor_variable(dist.probs(ids)), on_unused_input='ignore')
    probs = numpy.broadcast_to(reported(numpy.arange(number)), (number,))
    mon.count('probability sums')
    mon.close(probs.sum(), 1.0, 'sum', 'sum of the probabilities of %d classes' % number, rtol=1e-9, atol=1e-9)
    mon.close(probs, want, 'probabilities', 'probabilities', rtol=1e-9, atol=1e-12)
    found = []
    for _ in range(1 if kind == 'unigram' and number > 50 else 3):
        sample = draw(rows, k)
        mon.check(sample.shape == (rows, k), 'shape', 'samples of shape %r, expected %r' % (sample.shape, (rows, k)))
        mon.check(sample.dtype.kind == 'i', 'dtype', 'samples of type %s' % sample.dtype)
        mon.check(((sample >= 0) & (sample < number)).all(), 'range', lambda: 'samples outside 0..%d: %r' % (
            number - 1, sample[(sample < 0) | (sample >= number)][:10]))
        if kind == 'unigram':
            mon.count('unique draws', rows)
            mon.check(all(len(set(r)) == k for r in sample.tolist()), 'duplicate', 'a class drawn twice without replacement')
            mon.check((want[sample] > 0).all(), 'zero-probability', 'a class with zero probability was drawn')
        found.append(sample)
        mon.count('samples drawn', sample.size)
    found = numpy.concatenate(found)
    if kind == 'unigram':
        test_frequencies(mon, found[:, 0], probs, 'first draw of unigram')
        if k > 1 and number <= 20:
            second = numpy.zeros(number)
            for i in range(number):
                if want[i] < 1:
                    second += want[i] * numpy.where(numpy.arange(number) == i, 0.0, want) / (1.0 - want[i])
            test_frequencies(mon, found[:, 1], second, 'second draw of unigram')
    else:
        for column in range(k):
            test_frequencies(mon, found[:, column], probs, '%s draw %d' % (kind, column))
    # rows are drawn independently
    if number > 3 and kind != 'unigram':
        mon.check(len({tuple(r) for r in found.tolist()}) > 1, 'constant', 'all rows are the same')


class Extreme(object):
    """A stream whose uniform numbers are the extreme values the generator can
    give."""

    def __init__(self, value):
        self.value = value

    def uniform(self, size, low=0.0, high=1.0, **kwargs):
        from theano import tensor
        import theano
        dtype = kwargs.get('dtype') or theano.config.floatX
        u = tensor.constant(numpy.asarray(self.value, dtype=dtype))
        low, high = numpy.asarray(low, dtype=dtype), numpy.asarray(high, dtype=dtype)
        return tensor.alloc(u * (high - low) + low, *size)


def extremes(rng, mon):
    """The smallest and the largest numbers MRG31k3p gives, in both precisions."""
    import theano
    from theanolm.backend import UniformDistribution, LogUniformDistribution
    number = int(2 ** rng.randint(1, 22)) + int(gen.pick(rng, [-1, 0, 1, rng.randint(1000)]))
    number = max(1, number)
    value = gen.pick(rng, [4.656612873077393e-10, 2147483647 * 4.656612873077392578125e-10, 1.0 - 2.0 ** -24, 2.0 ** -32])
    for cls in (UniformDistribution, LogUniformDistribution):
        sample = cls(Extreme(value), number).sample(2, 3)
        got = theano.function([], sample)()
        mon.count('extreme draws')
        mon.check(((got >= 0) & (got < number)).all(), 'range', '%s of %d classes draws %r at %r' % (cls.__name__, number, got.tolist(), value))
    mon.case({'number': number, 'value': value})


def network(rng, mon):
    import theano
    vocab, spec = gen.vocab(rng, size=6 + rng.randint(10), positive=True, kind=gen.pick(rng, ['words', 'classes', 'counts']))
    description = gen.architecture_text(rng, max_hidden=1, output='softmax', only=['tanh'])
    priors = numpy.asarray(vocab.get_class_probs(), dtype='float64')
    net = gen.network(rng, description, vocab, scale=0.7, priors=priors.copy())
    kind, dampening = gen.pick(rng, ['uniform', 'log-uniform', 'unigram']), gen.pick(rng, [1.0, 0.5, 0.75, 0.0, 0.05])
    sharing = gen.pick(rng, [None, 'seq', 'batch'])
    number = vocab.num_classes()
    k = 1 + rng.randint(min(4, number))
    steps, sequences = 1 + rng.randint(5), 1 + rng.randint(4)
    without = kind == 'unigram' and dampening > 0
    if without and sharing == 'seq':
        k = max(1, number // steps)
        steps = number // k
        steps = min(steps, 5)
    mon.case({'kind': kind, 'dampening': dampening, 'sharing': sharing, 'k': k, 'shape': [steps, sequences], 'classes': number})
    mon.count('sharing %s' % sharing)
    mon.count('type ' + kind)
    mon.count('dampened', without and dampening != 1.0)
    net.set_sampling(kind, dampening, sharing)
    sample, logits = net.noise_sample()
    function = theano.function([net.input_word_ids, net.input_class_ids, net.mask, net.num_noise_samples], [sample, logits],
                               givens=[(net.is_training, numpy.int8(0))], on_unused_input='ignore')
    probs_of = theano.function([net.target_class_ids], theano.tensor.as_tensor_variable(net.noise_distribution.probs(net.target_class_ids)),
                               on_unused_input='ignore')
    reported = numpy.broadcast_to(probs_of(numpy.arange(number)[None, :]), (1, number))[0]
    if kind == 'uniform' or (kind == 'unigram' and dampening == 0.0):
        want = numpy.full(number, 1.0 / number)
    elif kind == 'log-uniform':
        want = numpy.diff(numpy.log(numpy.arange(1, number + 2))) / numpy.log(number + 1.0)
    else:
        want = priors ** dampening / (priors ** dampening).sum()
    mon.count('probability sums')
    mon.close(reported, want, 'probabilities', 'reported noise probabilities', rtol=1e-6, atol=1e-9)
    first, rows = [], []
    varied = [0, 0]
    for _ in range(40):
        word_ids = rng.randint(vocab.num_shortlist_words(), size=(steps, sequences))
        class_ids = numpy.array(vocab.word_id_to_class_id)[word_ids]
        got, logs = function(word_ids, class_ids, numpy.ones(word_ids.shape, dtype='int8'), k)
        shape = {None: (steps, sequences, k), 'seq': (steps, 1, k), 'batch': (1, 1, k)}[sharing]
        mon.check(got.shape == shape, 'shape', 'noise sample of shape %r, expected %r' % (got.shape, shape))
        mon.check(logs.shape == (steps, sequences, k), 'shape', 'noise activations of shape %r' % (logs.shape,))
        mon.check(((got >= 0) & (got < number)).all(), 'range', 'noise class outside 0..%d' % (number - 1))
        mon.count('network samples', got.size)
        if without:
            mon.check(all(len(set(r)) == k for r in got.reshape(-1, k).tolist()), 'duplicate', 'a noise class drawn twice')
        first.extend(got.reshape(-1, k)[:1 if without and sharing == 'seq' else None, 0].tolist())
        rows.extend(tuple(r) for r in got.reshape(-1, k).tolist())
        varied[0] += bool((got != got[:1]).any())
        varied[1] += bool((got != got[:, :1]).any())
    if number > 3 and k < number:
        mon.check(varied[0] or got.shape[0] == 1, 'shared', 'all time steps share the noise sample')
        mon.check(varied[1] or got.shape[1] == 1, 'shared', 'all sequences share the noise sample')
    test_frequencies(mon, numpy.array(first), reported, '%s noise (%s)' % (kind, sharing))
    if number > 3 and k < number:
        mon.check(len(set(rows)) > 1, 'constant', 'the same noise sample is drawn every time')


FAMILIES = [
    dict(name='distribution', fn=distribution, quick=180, thorough=1500),
    dict(name='extremes', fn=extremes, quick=240, thorough=1500),
    dict(name='network', fn=network, quick=80, thorough=600),
]
