"""C31: dropout acts in training only and preserves expected activations."""

import numpy
from scipy import stats

from vf import gen, nets, training

RULE = ('Random networks with dropout layers in different places and with different rates are evaluated in training and test mode. '
        'The input and output of every dropout layer are recorded over many evaluations: in training every output is zero or the input '
        'divided by the pass rate, the dropped positions are compared with independent Bernoulli draws (binomial and pair statistics '
        'with a false alarm probability of 1e-9 each), masks differ between evaluations, layers, time steps, sequences and units; at '
        'test time, in step-by-step mode and in scoring the output equals the input bit by bit. Distinct by architecture and batch.')
REQUIRED = ['activations compared', 'dropped activations', 'rate tests', 'independence tests', 'test time activations', 'default rates',
            'extreme rates', 'several dropout layers', 'evaluations', 'scores compared', 'step mode activations', 'mean tests']
LIMIT = 1e-9


def architecture(rng):
    """Dropout after a projection and possibly after other layers."""
    lines = ['input type=%s name=in' % gen.pick(rng, ['word', 'class']), 'layer type=projection name=p input=in size=%d' % (2 + rng.randint(5))]
    rates = {}
    last = 'p'
    for k in range(1 + rng.randint(2)):
        name = 'd%d' % k
        rate = gen.pick(rng, [None, None, 0.0, 0.1, 0.25, 0.5, 0.8, 0.95, 1.0])
        lines.append('layer type=dropout name=%s input=%s%s' % (name, last, '' if rate is None else ' dropout_rate=%r' % rate))
        rates[name] = (last, 0.5 if rate is None else rate, rate is None)
        last = name
        if rng.rand() < 0.7:
            lines.append('layer type=%s name=h%d input=%s size=%d' % (gen.pick(rng, ['tanh', 'lstm', 'gru', 'fc']), k, last, 3 + rng.randint(4)))
            last = 'h%d' % k
    lines.append('layer type=softmax name=out input=' + last)
    return '\n'.join(lines) + '\n', rates


def function(network, names, minibatch=True):
    import theano
    inputs = [network.input_word_ids, network.input_class_ids, network.mask, network.is_training]
    if not minibatch:
        inputs += list(network.recurrent_state_input)
    return theano.function(inputs, [network.layers[n].output for n in names] + [network.output_probs()], on_unused_input='ignore')


def binomial(mon, dropped, number, rate, what):
    if rate <= 0.0:
        return mon.check(dropped == 0, 'rate', '%s: %d of %d dropped with rate 0' % (what, dropped, number))
    tail = min(stats.binom.cdf(dropped, number, rate), stats.binom.sf(dropped - 1, number, rate))
    mon.check(tail > LIMIT, 'rate', '%s: %d of %d dropped, the rate is %g' % (what, dropped, number, rate))


def observe(rng, mon):
    vocab, spec = gen.vocab(rng, size=4 + rng.randint(5), positive=True)
    description, rates = architecture(rng)
    network = gen.network(rng, description, vocab, scale=1.0)
    names = sorted(set(rates) | {r[0] for r in rates.values()})
    evaluate = function(network, names)
    word_ids, class_ids, _, mask = training.batch(rng, vocab, steps=4 + rng.randint(5), sequences=2 + rng.randint(4))
    inputs = (word_ids[:-1], class_ids[:-1], mask[1:])
    mon.case([description, word_ids.tolist()])
    mon.count('several dropout layers', len(rates) > 1)
    masks = {n: [] for n in rates}
    kept_inputs = {n: [] for n in rates}
    rounds = 60
    for _ in range(rounds):
        values = dict(zip(names, evaluate(*inputs, 1)))
        mon.count('evaluations')
        for name, (source, rate, default) in rates.items():
            rate = min(rate, 0.9999)
            given, got = values[source], values[name]
            mon.check(given.shape == got.shape, 'shape', 'dropout output has shape %r, input %r' % (got.shape, given.shape))
            zero = got == 0
            mon.count('activations compared', got.size)
            mon.count('dropped activations', int(zero.sum()))
            mon.close(got[~zero], given[~zero] / (1.0 - rate), 'scale', 'activations kept by dropout rate %g' % rate, rtol=1e-9, atol=1e-12)
            # An activation that was zero tells nothing.
            masks[name].append(numpy.where(given == 0, -1, zero))
    for name, (source, rate, default) in rates.items():
        rate = min(rate, 0.9999)
        observed = numpy.array(masks[name])
        known = observed >= 0
        total = int(known.sum())
        what = 'dropout layer with rate %g' % rate
        binomial(mon, int((observed == 1).sum()), total, rate, what)
        mon.count('rate tests')
        mon.count('default rates', default)
        mon.count('extreme rates', rate in (0.0, 0.9999))
        # every unit, every position
        for axis_keep, label in ((0, 'evaluation'), (1, 'time step'), (2, 'sequence'), (3, 'unit')):
            for index in range(observed.shape[axis_keep]):
                part = observed.take(index, axis=axis_keep)
                if (part >= 0).any():
                    binomial(mon, int((part == 1).sum()), int((part >= 0).sum()), rate, '%s: %s %d' % (what, label, index))
        # Two positions agree as often as independent draws.
        agree = rate ** 2 + (1 - rate) ** 2
        for axis, label in ((0, 'evaluations'), (1, 'time steps'), (2, 'sequences'), (3, 'units')):
            # disjoint pairs, so that the comparisons are independent draws
            size = observed.shape[axis] // 2 * 2
            if size < 2 or rate <= 0.0:
                continue
            a = observed.take(range(0, size, 2), axis=axis)
            b = observed.take(range(1, size, 2), axis=axis)
            both = (a >= 0) & (b >= 0)
            binomial_agree(mon, int(((a == b) & both).sum()), int(both.sum()), agree, '%s: neighbouring %s' % (what, label))
        if len(rates) > 1:
            other = [n for n in rates if n != name][0]
            compare = numpy.array(masks[other])
            if compare.shape == observed.shape and 0 < rate and 0 < min(rates[other][1], 0.9999) and rates[other][0] != name \
               and rates[name][0] != other:
                q = min(rates[other][1], 0.9999)
                both = (observed >= 0) & (compare >= 0)
                binomial_agree(mon, int(((observed == compare) & both).sum()), int(both.sum()), rate * q + (1 - rate) * (1 - q),
                               'two dropout layers')
    test_time(rng, mon, vocab, network, evaluate, names, rates, inputs, description)


def binomial_agree(mon, number, total, probability, what):
    if not total:
        return
    mon.count('independence tests')
    tail = min(stats.binom.cdf(number, total, probability), stats.binom.sf(number - 1, total, probability))
    mon.check(tail > LIMIT, 'dependent', '%s: the same choice in %d of %d pairs, expected %g' % (what, number, total, probability * total))


def test_time(rng, mon, vocab, network, evaluate, names, rates, inputs, description):
    first = None
    for _ in range(2):
        result = evaluate(*inputs, 0)
        values = dict(zip(names, result))
        for name, (source, _, _) in rates.items():
            mon.count('test time activations', values[name].size)
            mon.check(training.same_bits(values[name], values[source]), 'test-time', 'dropout changed activations at test time')
        if first is not None:
            mon.check(training.same_bits(first, result[-1]), 'test-time', 'output at test time differs between evaluations')
        first = result[-1]
    # scoring uses the same output
    from theanolm.scoring import TextScorer
    scorer = TextScorer(network, use_shortlist=False)
    word_ids = numpy.concatenate([inputs[0], inputs[0][:1]])
    class_ids = numpy.concatenate([inputs[1], inputs[1][:1]])
    mask = numpy.ones(word_ids.shape, 'int8')
    probs = evaluate(word_ids[:-1], class_ids[:-1], mask[1:], 0)[-1]
    scores = scorer.score_batch(word_ids, class_ids, numpy.ones(word_ids.shape), mask)
    for k, sequence in enumerate(scores):
        for t, value in enumerate(sequence):
            mon.count('scores compared')
            mon.close(value, numpy.log(probs[t, k, class_ids[t + 1, k]]), 'score', 'log probability from scoring with dropout layers',
                      rtol=1e-9, atol=1e-10)
    # step by step
    step = gen.network(rng, description, vocab, scale=None, minibatch=False)
    gen.copy_parameters(network, step)
    one = function(step, names, minibatch=False)
    states = [numpy.zeros((1, 1, size)) for size in step.recurrent_state_size]
    result = one(inputs[0][:1, :1], inputs[1][:1, :1], numpy.ones((1, 1), 'int8'), 0, *states)
    values = dict(zip(names, result))
    for name, (source, _, _) in rates.items():
        mon.count('step mode activations', values[name].size)
        mon.check(training.same_bits(values[name], values[source]), 'test-time', 'dropout changed activations in step-by-step mode')


def mean(rng, mon):
    """The expected activation in training is the one at test time."""
    vocab, spec = gen.vocab(rng, size=4 + rng.randint(5), positive=True)
    rate = gen.pick(rng, [0.1, 0.3, 0.5, 0.75])
    size = 4 + rng.randint(6)
    description = ('input type=word name=in\nlayer type=projection name=p input=in size=%d\nlayer type=dropout name=d input=p '
                   'dropout_rate=%r\nlayer type=softmax name=out input=d\n' % (size, rate))
    network = gen.network(rng, description, vocab, scale=1.0)
    evaluate = function(network, ['p', 'd'])
    word_ids, class_ids, _, mask = training.batch(rng, vocab, steps=10, sequences=20)
    mon.case([description, word_ids.tolist()])
    ratios = []
    for _ in range(20):
        given, got, _ = evaluate(word_ids[:-1], class_ids[:-1], mask[1:], 1)
        ratios.append((got / given).ravel())
    ratios = numpy.concatenate(ratios)
    # each is 0 or 1/(1-rate); the mean is one
    deviation = numpy.sqrt(rate / (1 - rate) / ratios.size)
    mon.count('mean tests')
    mon.check(abs(ratios.mean() - 1.0) < 7 * deviation, 'mean', 'activations are multiplied by %g on average with rate %g' % (ratios.mean(), rate))


FAMILIES = [
    dict(name='observe', fn=observe, quick=80, thorough=800),
    dict(name='mean', fn=mean, quick=24, thorough=200),
]
