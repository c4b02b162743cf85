"""C11: word probabilities normalise and unknown words are counted as configured."""

import io

import numpy

from vf import gen, nets

RULE = ('For random models and contexts, every word of the vocabulary is scored as the next word (through score_batch), with every '
        'combination of the shortlist and unknown word options; the probabilities are summed and the excluded words recorded. '
        'Corpora with known numbers of unknown and out-of-shortlist words are scored and the totals and word counts derived from '
        'their perplexities. Non-trivial: the vocabulary has a class of several words or out-of-shortlist words. Distinct by '
        'architecture, vocabulary and context.')
REQUIRED = ['contexts normalised', 'mode plain', 'mode shortlist', 'mode exclude', 'mode shortlist exclude',
            'mode network exclude', 'out-of-shortlist words scored', 'unknown words excluded', 'out-of-shortlist words excluded',
            'unknown words scored', 'corpora', 'line counters', 'out-of-vocabulary words in corpora']


def next_word_scores(scorer, vocab, context, candidates):
    sequences = [list(context) + [c] for c in candidates]
    word_ids = numpy.array(sequences, dtype='int64').T
    mask = numpy.ones(word_ids.shape, dtype='int8')
    class_ids, probs = vocab.get_class_memberships(word_ids)
    return [scores[-1] for scores in scorer.score_batch(word_ids, class_ids, probs, mask)]


def normalised(rng, mon):
    from theanolm.scoring import TextScorer
    oos = gen.pick(rng, [True, True, False])
    vocab, spec = gen.vocab(rng, size=2 + gen.some(rng, 9, 100), oos=oos, positive=rng.rand() < 0.5,
                            kind=gen.pick(rng, ['words', 'classes', 'srilm-classes']) if oos else None)
    use_shortlist = bool(rng.rand() < 0.6)
    exclude = bool(rng.rand() < 0.5)
    network_exclude = exclude and rng.rand() < 0.6 and len(spec.members('<unk>')) == 1 and vocab.num_classes() > 2
    description = gen.architecture_text(rng, max_hidden=1, output='softmax')
    network = gen.network(rng, description, vocab, scale=1.0, exclude_unk=bool(network_exclude))
    scorer = TextScorer(network, use_shortlist=use_shortlist, exclude_unk=exclude)
    shortlist_mode = use_shortlist and vocab.has_unigram_probs()
    name = ' '.join(['mode'] + ['shortlist'] * shortlist_mode + ['exclude'] * exclude + ['plain'] * (not shortlist_mode and not exclude))
    mon.count(name)
    mon.count('mode network exclude', int(network_exclude))
    unk = vocab.word_to_id['<unk>']
    size, number = vocab.num_shortlist_words(), vocab.num_words()
    mon.check(number == size + len(spec.oos), 'vocabulary', 'vocabulary of %d words' % number)
    for _ in range(3):
        context = nets.random_ids(rng, spec, vocab, min_len=3, max_len=5, oos=True)[:-1]
        candidates = list(range(number))
        scores = next_word_scores(scorer, vocab, context, candidates)
        mon.case({'architecture': description, 'vocabulary': spec.describe(), 'context': context, 'mode': name},
                 nontrivial=vocab.num_classes() < size or number > size)
        excluded = [c for c in candidates if scores[c] is None]
        if shortlist_mode:
            should = [unk] + (list(range(size, number)) if exclude else [])
        else:
            should = [unk] + list(range(size, number)) if exclude else []
        mon.count('unknown words excluded', int(unk in should))
        mon.count('out-of-shortlist words excluded', sum(c >= size for c in should))
        mon.check(sorted(excluded) == sorted(should), 'excluded', 'excluded words %r, expected %r' % (excluded, should))
        probs = {c: numpy.exp(scores[c]) for c in candidates if scores[c] is not None}
        mon.check(all(0.0 <= p <= 1.0 + 1e-12 for p in probs.values()), 'range', 'probabilities %r' % probs)
        mon.count('contexts normalised')
        # probability that remains for the words that are excluded
        other_unk_members = len(spec.members('<unk>')) > 1
        unk_prob = None
        if unk in probs:
            unk_prob = probs[unk]
            mon.count('unknown words scored')
        else:
            function = getattr(network, '_vf_output', None)
            if function is None:
                function = network._vf_output = nets.output_function(network)
            word_ids = numpy.array([[w if w < size else unk] for w in context], dtype='int64')
            class_ids, _ = vocab.get_class_memberships(word_ids)
            distribution = function(word_ids, class_ids, numpy.ones(word_ids.shape, 'int8'), 0)[-1, 0]
            unk_prob = distribution[vocab.word_id_to_class_id[unk]] * vocab.get_word_prob(unk)
        in_shortlist = sum(p for c, p in probs.items() if c < size)
        outside = {c: p for c, p in probs.items() if c >= size}
        if unk in probs:
            mon.close(in_shortlist, 1.0, 'normalisation', 'sum over the shortlist')
            for c, p in outside.items():
                # without a shortlist an OOS word is simply <unk>
                mon.count('out-of-shortlist words scored')
                mon.close(p, unk_prob, 'oos-prob', 'probability of out-of-shortlist word %d as <unk>' % c)
        else:
            mon.close(in_shortlist, 1.0 - unk_prob, 'normalisation', 'sum over the shortlist without <unk>')
            if outside:
                mon.count('out-of-shortlist words scored', len(outside))
                mon.close(sum(outside.values()) + in_shortlist, 1.0, 'normalisation', 'sum over the vocabulary')
                counts = numpy.array([spec.counts[vocab.id_to_word[c]] for c in sorted(outside)], dtype='float64')
                mon.close([outside[c] for c in sorted(outside)], unk_prob * counts / counts.sum(), 'oos-prob',
                          'probabilities of the out-of-shortlist words')
            if network_exclude:
                mon.close(in_shortlist, 1.0, 'normalisation', 'sum without the excluded <unk>')


def counting(rng, mon):
    """Unknown words are left out of both the sum and the word count."""
    from theanolm.parsing import LinearBatchIterator
    from theanolm.scoring import TextScorer
    vocab, spec = gen.vocab(rng, kind=gen.pick(rng, ['words', 'classes', 'srilm-classes']), size=2 + rng.randint(6),
                            oos=True, positive=True, simple=True)
    description = gen.architecture_text(rng, max_hidden=1)
    network = gen.network(rng, description, vocab, scale=1.0)
    unk, size = vocab.word_to_id['<unk>'], vocab.num_shortlist_words()
    normal = [w for w in spec.shortlist if w not in gen.SPECIALS]
    lines = []
    for _ in range(1 + rng.randint(6)):
        lines.append([gen.pick(rng, [gen.pick(rng, normal or ['<unk>']), gen.pick(rng, spec.oos or ['oov']), 'oov', '<unk>'])
                      for _ in range(1 + rng.randint(5))])
    tokens = [w for line in lines for w in line]
    num_oov = sum(w not in vocab.word_to_id or w == '<unk>' for w in tokens)
    num_oos = sum(vocab.word_to_id.get(w, 0) >= size for w in tokens)
    mon.count('out-of-vocabulary words in corpora', num_oov)
    mon.case({'architecture': description, 'vocabulary': spec.describe(), 'lines': lines}, nontrivial=num_oov + num_oos > 0)
    path = gen.tmp_file('\n'.join(map(' '.join, lines)) + '\n')
    total_tokens = len(tokens) + len(lines)
    results = {}
    for use_shortlist in (False, True):
        for exclude in (False, True):
            scorer = TextScorer(network, use_shortlist=use_shortlist, exclude_unk=exclude)
            logprob = sum(scorer.score_line(' '.join(line), vocab) for line in lines)
            mon.count('line counters')
            # <s> counts as a word here
            mon.check(scorer.num_words == len(tokens) + 2 * len(lines), 'num-words', 'scorer counted %d words, expected %d'
                      % (scorer.num_words, len(tokens) + 2 * len(lines)))
            mon.check(scorer.num_unks == num_oov, 'num-unks', 'scorer counted %d unknown words, expected %d' % (scorer.num_unks, num_oov))
            left_out = 0
            if use_shortlist or exclude:
                left_out += num_oov
            if exclude:
                left_out += num_oos
            expected = total_tokens - left_out
            with open(path, encoding='utf-8') as f:
                iterator = LinearBatchIterator([f], vocab, batch_size=1 + rng.randint(4), max_sequence_length=None,
                                               map_oos_to_unk=False)
                perplexity = scorer.compute_perplexity(iterator)
            mon.count('corpora')
            mon.close(-logprob / numpy.log(perplexity), expected, 'scored-words',
                      'number of words in the perplexity (shortlist %s, exclude %s)' % (use_shortlist, exclude))
            results[use_shortlist, exclude] = logprob
    if num_oov + num_oos == 0:
        mon.close([results[k] for k in sorted(results)], [results[False, False]] * 4, 'known-words',
                  'scores of a text of known words with different treatments of unknown words')
    mon.close(results[True, True], results[False, True], 'excluded-total', 'totals when all unknown words are excluded')


FAMILIES = [
    dict(name='normalised', fn=normalised, quick=252, thorough=1500),
    dict(name='counting', fn=counting, quick=70, thorough=400),
]
