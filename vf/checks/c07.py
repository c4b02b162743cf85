"""C07: network output is a probability distribution with matching target probabilities."""

import numpy

from vf import gen, nets

RULE = ('Random architectures, vocabularies and parameters (from all zero to so large that the activations saturate) are run on '
        'random padded batches and, for architectures that allow it, one time step at a time; every output distribution is '
        'inspected and every class is asked for as the target. Non-trivial: at least two different distributions were seen. '
        'Distinct by architecture, vocabulary and scale.')
REQUIRED = ['distributions', 'targets compared', 'output softmax', 'output hsoftmax', 'full hsoftmax trees', 'unk excluded',
            'unk excluded hsoftmax', 'step distributions', 'extreme parameters']
ASSUMPTIONS = ['When <unk> is excluded it is alone in its class; the output layer documents that as a restriction.']


def inspect(mon, probs, description, num_classes, excluded=None):
    flat = probs.reshape(-1, probs.shape[-1])
    mon.count('distributions', len(flat))
    mon.check(flat.shape[1] == num_classes, 'size', '%d outputs for %d classes' % (flat.shape[1], num_classes))
    mon.check(numpy.isfinite(flat).all(), 'not-finite', 'an output probability is not finite')
    mon.check((flat >= 0).all(), 'negative', 'a negative output probability')
    sums = flat.sum(axis=1)
    if 'hsoftmax' in description:
        mon.count('output hsoftmax')
        level1 = int(numpy.ceil(numpy.sqrt(num_classes)))
        level2 = int(numpy.ceil(num_classes / level1))
        mon.check((sums <= 1 + 1e-9).all(), 'sum', 'probabilities sum to %r' % sums.max())
        if level1 * level2 == num_classes:
            mon.count('full hsoftmax trees')
            mon.close(sums, numpy.ones(len(sums)), 'sum', 'sums of the distributions')
    else:
        mon.count('output softmax')
        mon.close(sums, numpy.ones(len(sums)), 'sum', 'sums of the distributions')
    if excluded is not None:
        mon.count('unk excluded')
        if 'hsoftmax' in description:
            mon.count('unk excluded hsoftmax')
        mon.check((flat[:, excluded] == 0).all(), 'unk-not-excluded', 'the excluded <unk> class has probability up to %r'
                  % flat[:, excluded].max())


def batches(rng, mon):
    vocab, spec = gen.vocab(rng, size=2 + gen.some(rng, 10, 300))
    description = gen.architecture_text(rng, max_hidden=2)
    exclude = bool(rng.rand() < 0.4) and len(spec.members('<unk>')) == 1 and vocab.num_classes() > 2
    scale = gen.pick(rng, [0.0, 0.3, 1.0, 1.0, 3.0, 30.0, 300.0])
    network = gen.network(rng, description, vocab, scale=None, exclude_unk=exclude)
    gen.randomize(rng, network, scale)
    sequences = [nets.random_ids(rng, spec, vocab, max_len=6)[:-1] for _ in range(1 + rng.randint(4))]
    word_ids, mask = nets.pad(sequences, vocab.word_to_id['<unk>'])
    class_ids, _ = vocab.get_class_memberships(word_ids)
    probs = nets.output_function(network)(word_ids, class_ids, mask, 0)
    unk_class = int(vocab.word_id_to_class_id[vocab.word_to_id['<unk>']])
    inspect(mon, probs, description, vocab.num_classes(), unk_class if exclude else None)
    function = nets.target_function(network)
    targets = rng.randint(vocab.num_classes(), size=(4,) + word_ids.shape)
    targets = [t for t in targets] + [numpy.full(word_ids.shape, c) for c in range(min(vocab.num_classes(), 4))]
    for target in targets:
        got = function(word_ids, class_ids, target.astype('int64'), mask, 0)
        expected = numpy.take_along_axis(probs, target[:, :, None], axis=2)[:, :, 0]
        mon.count('targets compared', target.size)
        mon.close(got, expected, 'target-prob', 'target probabilities', rtol=1e-9, atol=1e-300)
    if scale >= 30:
        mon.count('extreme parameters')
    mon.case({'architecture': description, 'vocabulary': spec.describe(), 'scale': scale, 'exclude': exclude},
             nontrivial=len(set(map(tuple, numpy.round(probs.reshape(-1, probs.shape[-1]), 8)))) > 1)


def steps(rng, mon):
    import theano
    vocab, spec = gen.vocab(rng, size=2 + rng.randint(6))
    description = gen.architecture_text(rng, stepwise=True, max_hidden=2)
    network = gen.network(rng, description, vocab, scale=gen.pick(rng, [0.5, 2.0]), minibatch=False)
    inputs = [network.input_word_ids, network.input_class_ids] + list(network.recurrent_state_input)
    function = theano.function(inputs, [network.output_probs()] + list(network.recurrent_state_output),
                               givens=[(network.is_training, numpy.int8(0))], on_unused_input='ignore')
    number = 1 + rng.randint(3)
    state = [numpy.zeros((1, number, size)) for size in network.recurrent_state_size]
    for _ in range(3):
        word_ids = rng.randint(vocab.num_shortlist_words(), size=(1, number)).astype('int64')
        class_ids, _ = vocab.get_class_memberships(word_ids)
        result = function(word_ids, class_ids, *state)
        inspect(mon, result[0], description, vocab.num_classes())
        mon.count('step distributions', number)
        state = result[1:]
    mon.case({'architecture': description, 'vocabulary': spec.describe()})


FAMILIES = [
    dict(name='batches', fn=batches, quick=350, thorough=2500),
    dict(name='steps', fn=steps, quick=105, thorough=500),
]
