"""C08: predictions never depend on the word predicted or on later words."""

import numpy

from vf import gen, nets

RULE = ('Metamorphic: a random network predicts a random batch, then words after position t are replaced, sequences are cut or '
        'extended there, other sequences of the batch are replaced, and the distributions up to t must not move; for '
        'bidirectional networks only the target word itself is replaced. The same is done through the scoring interface. '
        'Non-trivial: the replacement changes some later distribution (for networks that see it at all). Distinct by '
        'architecture and replaced words.')
ASSUMPTIONS = ['A network has at most one bidirectional layer, and then no other layer that remembers words: the output of a '
               'bidirectional layer for a neighbouring position legitimately contains the target.']
REQUIRED = ['later words replaced', 'target word replaced', 'other sequences replaced', 'bidirectional targets replaced',
            'lengths changed', 'unmoved distributions', 'moved distributions', 'scores compared', 'layer glu', 'layer lstm',
            'layer gru', 'layer blstm', 'layer bgru']
TOLERANCE = dict(rtol=1e-9, atol=1e-12)


def is_bidirectional(description):
    return 'blstm' in description or 'bgru' in description


def setup(rng, mon, kinds):
    vocab, spec = gen.vocab(rng, size=4 + rng.randint(8))
    kind = gen.pick(rng, kinds)
    both = kind in ('blstm', 'bgru')
    description = gen.architecture_text(rng, max_hidden=2, force=kind, bidirectional=both,
                                        only=['fc', 'tanh', 'add', 'highway', 'dropout'] if both else None)
    for name in ('glu', 'lstm', 'gru', 'blstm', 'bgru'):
        if 'type=%s ' % name in description:
            mon.count('layer ' + name)
    network = gen.network(rng, description, vocab, scale=1.0)
    return vocab, spec, description, network


def other_word(rng, vocab, word_id):
    number = vocab.num_shortlist_words()
    return (word_id + 1 + rng.randint(number - 1)) % number


def evaluate(function, vocab, sequences, rng):
    fill = rng.randint(vocab.num_shortlist_words())
    word_ids, mask = nets.pad(sequences, fill)
    class_ids, _ = vocab.get_class_memberships(word_ids)
    return function(word_ids, class_ids, mask, 0)


def causal(rng, mon):
    """Unidirectional networks: the future is never seen."""
    vocab, spec, description, network = setup(rng, mon, ['lstm', 'gru', 'glu', 'glu', 'fc', 'highway', 'add'])
    function = nets.output_function(network)
    for _ in range(4):
        sequences = [nets.random_ids(rng, spec, vocab, min_len=3, max_len=nets.length(rng, 7)) for _ in range(1 + rng.randint(3))]
        before = evaluate(function, vocab, sequences, rng)
        column = rng.randint(len(sequences))
        seq = sequences[column]
        t = rng.randint(len(seq))
        changed = list(seq)
        how = rng.randint(3)
        if how == 0 or t + 1 >= len(seq):
            changed = changed[:t + 1] + [rng.randint(vocab.num_shortlist_words()) for _ in range(rng.randint(1, 4))]
            mon.count('lengths changed')
        else:
            for k in range(t + 1, len(seq)):
                if how == 1 and k > t + 1:
                    break
                changed[k] = other_word(rng, vocab, changed[k])
            mon.count('later words replaced')
            mon.count('target word replaced')
        varied = list(sequences)
        varied[column] = changed
        after = evaluate(function, vocab, varied, rng)
        mon.count('unmoved distributions', t + 1)
        mon.close(after[:t + 1, column], before[:t + 1, column], 'future-seen',
                  'distributions up to position %d after replacing later words' % t, **TOLERANCE)
        for other, other_seq in enumerate(sequences):
            if other != column:
                length = len(other_seq)
                mon.count('other sequences replaced')
                mon.close(after[:length, other], before[:length, other], 'cross-talk',
                          'distributions of sequence %d when sequence %d was changed' % (other, column), **TOLERANCE)
        if len(changed) == len(seq) and t + 1 < len(seq):
            moved = not numpy.allclose(after[t + 1:len(seq), column], before[t + 1:len(seq), column])
            mon.count('moved distributions', int(moved))
        mon.case({'architecture': description, 'sequence': seq, 'changed': changed})


def bidirectional(rng, mon):
    """Bidirectional networks may see the words after the target, but never
    the target."""
    vocab, spec, description, network = setup(rng, mon, ['blstm', 'bgru'])
    function = nets.output_function(network)
    for _ in range(4):
        sequences = [nets.random_ids(rng, spec, vocab, min_len=3, max_len=nets.length(rng, 7)) for _ in range(1 + rng.randint(3))]
        before = evaluate(function, vocab, sequences, rng)
        column = rng.randint(len(sequences))
        seq = sequences[column]
        t = rng.randint(len(seq) - 1)
        changed = list(seq)
        changed[t + 1] = other_word(rng, vocab, changed[t + 1])
        varied = list(sequences)
        varied[column] = changed
        after = evaluate(function, vocab, varied, rng)
        mon.count('bidirectional targets replaced')
        mon.count('unmoved distributions')
        mon.close(after[t, column], before[t, column], 'target-seen',
                  'distribution at %d after replacing the word it predicts' % t, **TOLERANCE)
        for other, other_seq in enumerate(sequences):
            if other != column:
                mon.count('other sequences replaced')
                mon.close(after[:len(other_seq), other], before[:len(other_seq), other], 'cross-talk',
                          'distributions of sequence %d when sequence %d was changed' % (other, column), **TOLERANCE)
        mon.count('moved distributions', int(not numpy.allclose(after[:, column], before[:, column])))
        mon.case({'architecture': description, 'sequence': seq, 'changed': changed})


def scores(rng, mon):
    """The same through the text scorer: P(w_t | w_<t) does not move when words
    after t are replaced."""
    from theanolm.scoring import TextScorer
    vocab, spec = gen.vocab(rng, size=4 + rng.randint(8), positive=True)
    description = gen.architecture_text(rng, max_hidden=2, bidirectional=False)
    network = gen.network(rng, description, vocab, scale=1.0)
    scorer = TextScorer(network, use_shortlist=bool(rng.rand() < 0.5), exclude_unk=bool(rng.rand() < 0.5))

    def score(sequences):
        word_ids, mask = nets.pad(sequences, rng.randint(vocab.num_words()))
        class_ids, probs = vocab.get_class_memberships(word_ids)
        return scorer.score_batch(word_ids, class_ids, probs, mask)
    for _ in range(3):
        sequences = [nets.random_ids(rng, spec, vocab, min_len=3, max_len=nets.length(rng, 7), oos=True) for _ in range(1 + rng.randint(3))]
        before = score(sequences)
        column = rng.randint(len(sequences))
        seq = sequences[column]
        t = rng.randint(1, len(seq))
        changed = seq[:t + 1] + [rng.randint(vocab.num_words()) for _ in range(rng.randint(4))]
        varied = list(sequences)
        varied[column] = changed
        after = score(varied)
        mon.check(len(after[column]) == len(changed) - 1, 'length', 'wrong number of scores')
        for k in range(t):
            a, b = after[column][k], before[column][k]
            mon.count('scores compared')
            mon.check((a is None) == (b is None), 'future-seen-score', 'word %d is scored only with some later words' % k)
            if a is not None:
                mon.close(a, b, 'future-seen-score', 'score of word %d' % (k + 1), **TOLERANCE)
        mon.case({'architecture': description, 'sequence': seq, 'changed': changed})


FAMILIES = [
    dict(name='causal', fn=causal, quick=240, thorough=1500),
    dict(name='bidirectional', fn=bidirectional, quick=160, thorough=800),
    dict(name='scores', fn=scores, quick=96, thorough=500),
]
