"""C10: step-by-step decoding equals whole-sequence scoring."""

import numpy

from vf import gen, lattices, nets
from vf.scores import Reference

RULE = ('The same random model is built for whole sequences and for single time steps. Random word sequences are fed one word at '
        'a time with the recurrent state carried (alone, together, and with sequences joining, leaving and changing places) and '
        'through the lattice decoder, and compared with the whole-sequence distributions and scores. Non-trivial: at least three '
        'time steps. Distinct by architecture and word sequences.')
REQUIRED = ['steps compared', 'states combined', 'states split', 'many states combined', 'hypotheses compared', 'layer lstm', 'layer gru',
            'multiword classes', 'out-of-vocabulary words', 'text scorer totals']
TOLERANCE = dict(rtol=1e-8, atol=1e-10)


def model(rng, mon, **kwargs):
    vocab, spec = gen.vocab(rng, size=3 + rng.randint(8), positive=True, **kwargs)
    description = gen.architecture_text(rng, stepwise=True, max_hidden=3, force=gen.pick(rng, ['lstm', 'gru', 'fc', ['lstm', 'gru']]))
    for name in ('lstm', 'gru'):
        if 'type=%s ' % name in description:
            mon.count('layer ' + name)
    mon.count('multiword classes', int(vocab.num_classes() < vocab.num_shortlist_words()))
    return vocab, spec, description


def states(rng, mon):
    import theano
    from theanolm.network import RecurrentState
    vocab, spec, description = model(rng, mon)
    step = gen.network(rng, description, vocab, scale=1.0, minibatch=False)
    whole = gen.network(rng, description, vocab, scale=None)
    gen.copy_parameters(step, whole)
    inputs = [step.input_word_ids, step.input_class_ids] + list(step.recurrent_state_input)
    function = theano.function(inputs, [step.output_probs()] + list(step.recurrent_state_output),
                               givens=[(step.is_training, numpy.int8(0))], on_unused_input='ignore')
    reference = Reference(nets.output_function(whole), vocab, False, False)
    sequences = [nets.random_ids(rng, spec, vocab, min_len=2, max_len=nets.length(rng, 7))
                 for _ in range(1 + rng.randint(4) if rng.rand() < 0.93 else 60 + rng.randint(80))]
    expected = [reference.distributions(seq) for seq in sequences]
    position = [0] * len(sequences)
    state = [RecurrentState(step.recurrent_state_size) for _ in sequences]
    mon.case({'architecture': description, 'vocabulary': spec.describe(), 'sequences': sequences},
             nontrivial=max(map(len, sequences)) > 3)
    while True:
        ready = [i for i in range(len(sequences)) if position[i] < len(sequences[i]) - 1]
        if not ready:
            break
        chosen = [ready[i] for i in rng.permutation(len(ready))[:1 + max(rng.randint(len(ready)), rng.randint(len(ready)))]]
        combined = RecurrentState.combine_sequences([state[i] for i in chosen])
        mon.count('states combined', int(len(chosen) > 1))
        mon.count('many states combined', int(len(chosen) > 64))
        mon.check(combined.num_sequences == len(chosen), 'combine', 'combined %d states into %d sequences'
                  % (len(chosen), combined.num_sequences))
        word_ids = numpy.array([[sequences[i][position[i]] for i in chosen]], dtype='int64')
        class_ids, _ = vocab.get_class_memberships(word_ids)
        result = function(word_ids, class_ids, *combined.get())
        for column, i in enumerate(chosen):
            mon.count('steps compared')
            mon.close(result[0][0, column], expected[i][position[i]], 'step', 'distribution after word %d of sequence %d'
                      % (position[i], i), **TOLERANCE)
            state[i] = RecurrentState(step.recurrent_state_size)
            state[i].set([value[:, column:column + 1] for value in result[1:]])
            position[i] += 1
            mon.count('states split', int(len(chosen) > 1))


def hypotheses(rng, mon):
    """The network score of every hypothesis in a lattice."""
    from theanolm.scoring import TextScorer
    vocab, spec, description = model(rng, mon)
    opts = lattices.options(use_shortlist=bool(rng.rand() < 0.4), nnlm_weight=0.5)
    decoder, function, step = lattices.decoder(rng, description, vocab, opts)
    reference = lattices.DecodeReference(function, vocab, opts)
    pool = [w for w in spec.all_words if w not in ('<s>', '</s>')] + ['oov1', 'oov2']
    lat = lattices.random_lattice(rng, pool, unique=True, long=0.06)
    lattice = lattices.lattice_object(rng, lat)
    mon.case({'architecture': description, 'vocabulary': spec.describe(), 'lattice': lat.describe()},
             nontrivial=len(lat.paths()) > 1)
    expected = {words: nn for words, _, _, nn, _ in reference.all_paths(lat)}
    tokens, _ = decoder.decode(lattice)
    got = {}
    for token in tokens:
        words = tuple(token.history_words(vocab))
        got[words] = token.nn_lm_logprob
    mon.check(set(got) == set(expected), 'paths', lambda: 'hypotheses %r, expected %r' % (sorted(got), sorted(expected)))
    for words in expected:
        mon.count('hypotheses compared')
        mon.count('out-of-vocabulary words', sum(w not in vocab.word_to_id for w in words))
        mon.close(got[words], expected[words], 'hypothesis', 'network log probability of %r' % (words,), **TOLERANCE)
    whole = gen.network(rng, description, vocab, scale=None)
    gen.copy_parameters(step, whole)
    scorer = TextScorer(whole, use_shortlist=opts['use_shortlist'])
    for words in expected:
        if any(w not in vocab.word_to_id or (opts['use_shortlist'] and w == '<unk>') for w in words):
            continue
        mon.count('text scorer totals')
        mon.close(got[words], scorer.score_line(' '.join(words), vocab), 'scorer',
                  'network log probability of %r and its score as text' % (words,), **TOLERANCE)


FAMILIES = [
    dict(name='states', fn=states, quick=108, thorough=1200),
    dict(name='hypotheses', fn=hypotheses, quick=108, thorough=1200),
]
