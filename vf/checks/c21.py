"""C21: the training cost is computed from exactly the words it should be."""

import numpy

from vf import gen, nets, training

RULE = ('The cost tensors of the three criteria are evaluated on random networks and padded batches with and without unknown word '
        'exclusion, regularisation and noise sharing, and compared with a NumPy evaluation from the class distributions of the network '
        '(cross-entropy) or the observed noise samples and output activations (NCE, BlackOut). The same sequences are then evaluated '
        'alone, with other padding, and in another order, and the costs must combine to the same sum; cross-entropy is compared with '
        'what the text scorer reports. Non-trivial: the batch has padding or excluded words. Distinct by model, options and batch.')
REQUIRED = ['costs compared', 'cross-entropy', 'nce', 'blackout', 'excluded words', 'padding', 'batches decomposed', 'garbage in padding',
            'regularised', 'scorer compared', 'sharing None', 'sharing seq', 'sharing batch', 'noise uniform', 'noise log-uniform',
            'noise unigram', 'batches of empty targets']
EPSILON = 1e-6


def softplus(x):
    return numpy.logaddexp(0.0, x)


def prior(vocab, noise, dampening):
    n = vocab.num_classes()
    if noise == 'uniform':
        return numpy.full(n, 1.0 / n)
    if noise == 'log-uniform':
        return numpy.array([numpy.log((k + 2.0) / (k + 1.0)) / numpy.log(n + 1.0) for k in range(n)])
    p = numpy.asarray(vocab.get_class_probs(), dtype='float64') ** dampening
    return p / p.sum()


class Costs(object):
    """Compiled functions of one network and cost."""

    def __init__(self, network, cost, num_samples, sampled):
        import theano
        from theano import tensor
        self.network = network
        word_ids, class_ids = tensor.lmatrix(), tensor.lmatrix()
        self.num_samples = num_samples
        outputs = list(cost.get_tensor())
        if sampled:
            outputs += list(network.noise_sample()) + [network.unnormalized_logprobs()]
        else:
            outputs.append(network.output_probs())
        self.function = theano.function(
            [word_ids, class_ids, network.mask], outputs, on_unused_input='ignore',
            givens=[(network.input_word_ids, word_ids[:-1]), (network.input_class_ids, class_ids[:-1]),
                    (network.target_word_ids, word_ids[1:]), (network.target_class_ids, class_ids[1:]),
                    (network.is_training, numpy.int8(0)), (network.num_noise_samples, numpy.int64(num_samples))])

    def __call__(self, word_ids, class_ids, mask):
        return [numpy.asarray(x, dtype='float64') for x in self.function(word_ids, class_ids, mask[1:])]


def regularization(network, l1, l2):
    total = 0.0
    for value in training.parameters(network).values():
        if l1 is not None:
            total += l1 * numpy.abs(value).sum()
        if l2 is not None:
            total += l2 * (value ** 2).sum()
    return total


def cost(rng, mon, kind):
    from theanolm.training import CrossEntropyCost, NCECost, BlackoutCost
    from theanolm.scoring import TextScorer
    large = rng.rand() < 0.08
    mon.count('large batches', large)
    vocab, spec = gen.vocab(rng, size=60 + rng.randint(100) if large else 4 + rng.randint(6), positive=True)
    description = gen.architecture_text(rng, max_hidden=2, output='softmax' if kind != 'ce' else None,
                                        bidirectional=True if rng.rand() < 0.3 else False)
    net = gen.network(rng, description, vocab, scale=gen.pick(rng, [0.5, 1.0]), priors=vocab.get_class_probs())
    noise, dampening = gen.pick(rng, ['uniform', 'log-uniform', 'unigram']), gen.pick(rng, [1.0, 0.5, 0.75])
    sharing = gen.pick(rng, [None, 'seq', 'batch'])
    num_samples = 1 + rng.randint(min(40 if large else 4, vocab.num_classes()))
    steps = 2 + rng.randint(60 if large else 6)
    if noise == 'unigram' and sharing == 'seq' and steps * num_samples > vocab.num_classes():
        sharing = 'batch'
    unk = vocab.word_to_id['<unk>']
    exclude = rng.rand() < 0.5
    l1, l2 = gen.pick(rng, [None, None, 0.01]), gen.pick(rng, [None, None, 0.003])
    net.set_sampling(noise, dampening, sharing)
    make = {'ce': CrossEntropyCost, 'nce': NCECost, 'blackout': BlackoutCost}[kind]
    costs = Costs(net, make(net, unk if exclude else None, l1, l2, EPSILON), num_samples, kind != 'ce')
    word_ids, class_ids, _, mask = training.batch(rng, vocab, steps=steps)
    classes = numpy.array(vocab.word_id_to_class_id)
    if rng.rand() < 0.7:
        hit = (rng.rand(*word_ids.shape) < 0.3) & (mask == 1)
        hit[0] = False
        word_ids[hit] = unk
    if exclude and rng.rand() < 0.15:
        word_ids[1:] = unk
    class_ids = classes[word_ids]
    counted = mask[1:] == 1
    if exclude:
        counted = counted & (word_ids[1:] != unk)
    mon.case({'kind': kind, 'architecture': description, 'noise': [noise, dampening, sharing, num_samples], 'exclude': exclude,
              'reg': [l1, l2], 'batch': word_ids.tolist(), 'mask': mask.tolist()},
             nontrivial=bool((mask == 0).any() or (counted.sum() < mask[1:].sum())))
    mon.count({'ce': 'cross-entropy'}.get(kind, kind))
    mon.count('padding', bool((mask == 0).any()))
    mon.count('excluded words', int(mask[1:].sum() - counted.sum()))
    mon.count('regularised', l1 is not None or l2 is not None)
    penalty = regularization(net, l1, l2)

    def expect(word_ids, class_ids, mask, counted, outputs):
        targets = class_ids[1:]
        grid = numpy.indices(targets.shape)
        if kind == 'ce':
            logs = numpy.log(outputs[2][grid[0], grid[1], targets])
        else:
            sample, sample_logits, logits = outputs[2:]
            sample = sample.astype(int)
            q = prior(vocab, noise, dampening)
            if kind == 'nce':
                logs = -softplus(-(logits - numpy.log(q[targets] + EPSILON)))
                logs = logs + (-softplus(sample_logits - numpy.log(q[sample] + EPSILON))).sum(2)
            else:
                target = numpy.exp(logits) / q[targets]
                noises = numpy.exp(sample_logits) / q[sample]
                total = target + noises.sum(2)
                logs = numpy.log(target / total + EPSILON) + numpy.log(1.0 - noises / total[:, :, None] + EPSILON).sum(2)
        number = int(counted.sum())
        if number == 0:
            return 0, penalty
        return number, -logs[counted].sum() / number + penalty

    outputs = costs(word_ids, class_ids, mask)
    number, want = expect(word_ids, class_ids, mask, counted, outputs)
    mon.count('batches of empty targets', number == 0)
    mon.check(int(outputs[1]) == number, 'num-words', '%d words in the cost, expected %d' % (int(outputs[1]), number))
    mon.close(outputs[0], want, 'cost', 'cost of %d words' % number, rtol=1e-8, atol=1e-10)
    mon.count('costs compared')
    if kind != 'ce':
        mon.count('sharing %s' % sharing)
        mon.count('noise ' + noise)
        # Activations belong to the classes: differences to the log
        # probabilities of the network are the same for all classes.
        probs = nets.output_function(net)(word_ids[:-1], class_ids[:-1], mask[1:], 0)
        logs = numpy.log(numpy.asarray(probs, dtype='float64'))
        grid = numpy.indices(class_ids[1:].shape)
        offset = outputs[4] - logs[grid[0], grid[1], class_ids[1:]]
        sample = numpy.broadcast_to(outputs[2].astype(int), outputs[3].shape)
        grid = numpy.indices(sample.shape)
        mon.close(outputs[3] - logs[grid[0], grid[1], sample], numpy.broadcast_to(offset[:, :, None], sample.shape), 'activations',
                  'unnormalised log probabilities of noise classes', rtol=1e-6, atol=1e-7)
        return
    # other padding
    if (mask == 0).any():
        mon.count('garbage in padding')
        other = word_ids.copy()
        other[mask == 0] = rng.randint(vocab.num_shortlist_words(), size=int((mask == 0).sum()))
        again = costs(other, classes[other], mask)
        mon.close(again[0], outputs[0], 'padding', 'cost with other word IDs in the padding', rtol=1e-8, atol=1e-10)
    # one sequence at a time
    if number:
        mon.count('batches decomposed')
        total = 0.0
        for k in range(word_ids.shape[1]):
            length = int(mask[:, k].sum())
            part = costs(word_ids[:length, k:k + 1], class_ids[:length, k:k + 1], mask[:length, k:k + 1])
            total += (float(part[0]) - penalty) * int(part[1])
        mon.close(total / number + penalty, outputs[0], 'decomposition', 'cost combined from the costs of the sequences', rtol=1e-8, atol=1e-10)
        order = rng.permutation(word_ids.shape[1])
        again = costs(word_ids[:, order], class_ids[:, order], mask[:, order])
        mon.close(again[0], outputs[0], 'order', 'cost with sequences in another order', rtol=1e-8, atol=1e-10)
        # what scoring says about the same words, memberships aside
        scorer = TextScorer(net, use_shortlist=False, exclude_unk=exclude)
        scores = scorer.score_batch(word_ids, class_ids, numpy.ones(word_ids.shape), mask)
        found = [lp for seq in scores for lp in seq if lp is not None]
        mon.count('scorer compared')
        mon.check(len(found) == number, 'scorer', 'scorer scores %d words, cost has %d' % (len(found), number))
        mon.close(-sum(found) / number + penalty, outputs[0], 'scorer', 'mean log probability of scoring', rtol=1e-6, atol=1e-8)


def by_kind(kind):
    def family(rng, mon):
        cost(rng, mon, kind)
    return family


FAMILIES = [
    dict(name='cross-entropy', fn=by_kind('ce'), quick=100, thorough=900),
    dict(name='nce', fn=by_kind('nce'), quick=80, thorough=700),
    dict(name='blackout', fn=by_kind('blackout'), quick=80, thorough=700),
]
