"""C09: sentence scores do not depend on batching, padding or order."""

import io

import numpy

from vf import gen, nets
from vf.scores import Reference, scored

RULE = ('Random models score the same random sentences alone, in randomly composed batches in random order with arbitrary padding, '
        'as sequences, as lines of text and as a corpus read with random batch sizes; all have to agree with the scores computed '
        'word by word from the output distributions of the sentence alone. Non-trivial: sentences of different lengths were '
        'batched together. Distinct by architecture, vocabulary and sentences.')
REQUIRED = ['scores compared', 'batches', 'batches with padding', 'sequences', 'lines', 'corpora', 'excluded words',
            'zero probability words', 'pieces without scored words', 'out-of-shortlist words', 'layer glu', 'layer blstm', 'layer bgru', 'layer lstm', 'layer gru']
TOLERANCE = dict(rtol=1e-8, atol=1e-9)


def model(rng, mon, **kwargs):
    from theanolm.scoring import TextScorer
    vocab, spec = gen.vocab(rng, size=3 + rng.randint(8), positive=rng.rand() < 0.4, **kwargs)
    force = gen.pick(rng, [None, 'glu', 'blstm', 'bgru', 'lstm', 'gru'])
    description = gen.architecture_text(rng, max_hidden=2, force=force)
    for name in ('glu', 'lstm', 'gru', 'blstm', 'bgru'):
        if 'type=%s ' % name in description:
            mon.count('layer ' + name)
    use_shortlist, exclude_unk = bool(rng.rand() < 0.5), bool(rng.rand() < 0.5)
    network_exclude = exclude_unk and rng.rand() < 0.5 and len(spec.members('<unk>')) == 1 and vocab.num_classes() > 2
    network = gen.network(rng, description, vocab, scale=1.0, exclude_unk=bool(network_exclude))
    scorer = TextScorer(network, use_shortlist=use_shortlist, exclude_unk=exclude_unk)
    reference = Reference(nets.output_function(network), vocab, use_shortlist, exclude_unk)
    options = {'shortlist': use_shortlist, 'exclude_unk': exclude_unk, 'network_exclude': bool(network_exclude)}
    return vocab, spec, description, network, scorer, reference, options


def same(mon, got, expected, kind, where):
    mon.check(len(got) == len(expected), kind, '%s: %d scores, expected %d' % (where, len(got), len(expected)))
    for index, (a, b) in enumerate(zip(got, expected)):
        mon.count('scores compared')
        if b is None:
            mon.count('excluded words')
            mon.check(a is None, kind, '%s: word %d should be excluded but scored %r' % (where, index, a))
        else:
            mon.check(a is not None, kind, '%s: word %d was excluded' % (where, index))
            if numpy.isneginf(b):
                mon.count('zero probability words')
            mon.close(a, b, kind, '%s: score of word %d' % (where, index), **TOLERANCE)


def interfaces(rng, mon):
    from theanolm.backend import NumberError
    vocab, spec, description, network, scorer, reference, options = model(rng, mon)
    sequences = [nets.random_ids(rng, spec, vocab, min_len=2, max_len=nets.length(rng, 7), oos=True) for _ in range(2 + rng.randint(5))]
    expected = [reference.sequence(seq) for seq in sequences]
    mon.count('out-of-shortlist words', sum(w >= vocab.num_shortlist_words() for s in sequences for w in s))
    mon.case({'architecture': description, 'vocabulary': spec.describe(), 'sentences': sequences, 'options': options},
             nontrivial=len(set(map(len, sequences))) > 1)
    for _ in range(3):
        chosen = rng.permutation(len(sequences))[:1 + rng.randint(len(sequences))]
        word_ids, mask = nets.pad([sequences[i] for i in chosen], 0)
        extra = rng.randint(3) if rng.rand() < 0.3 else 0
        if extra:
            # a batch may also be longer than its longest sequence
            word_ids = numpy.concatenate([word_ids, numpy.zeros((extra, len(chosen)), 'int64')])
            mask = numpy.concatenate([mask, numpy.zeros((extra, len(chosen)), 'int8')])
        garbage = rng.randint(vocab.num_words(), size=word_ids.shape)
        word_ids = numpy.where(mask == 1, word_ids, garbage).astype('int64')
        class_ids, probs = vocab.get_class_memberships(word_ids)
        got = scorer.score_batch(word_ids, class_ids, probs, mask)
        mon.count('batches')
        mon.count('batches with padding', int((mask == 0).any()))
        mon.check(len(got) == len(chosen), 'batch', 'scores of %d sequences for %d' % (len(got), len(chosen)))
        for column, i in enumerate(chosen):
            same(mon, got[column], expected[i], 'batch-score', 'sentence %d in column %d' % (i, column))
    for seq, exp in zip(sequences, expected):
        class_ids, probs = vocab.get_class_memberships(numpy.array(seq))
        total = sum(scored(exp))
        try:
            got = scorer.score_sequence(numpy.array(seq), class_ids, probs)
        except NumberError as error:
            mon.fail('sequence-score', 'score_sequence failed on a sentence with log probability %r: %s' % (total, error))
        mon.count('sequences')
        mon.close(got, total, 'sequence-score', 'score_sequence', **TOLERANCE)
        words = [vocab.id_to_word[w] for w in seq]
        if words[1:-1]:
            line = ' '.join(words if rng.rand() < 0.5 else words[1:-1])
            got = scorer.score_line(line + gen.pick(rng, ['', '\n', ' \n']), vocab)
            mon.count('lines')
            mon.close(got, total, 'line-score', 'score_line(%r)' % line, **TOLERANCE)
    mon.check(scorer.score_line(gen.pick(rng, ['', '\n', '  \n']), vocab) is None, 'line-score', 'an empty line got a score')


def corpus(rng, mon):
    from theanolm.parsing import LinearBatchIterator, ScoringBatchIterator
    vocab, spec, description, network, scorer, reference, options = model(rng, mon, simple=True)
    content, lines = gen.text(rng, [w for w in spec.all_words if w not in gen.SPECIALS], 1 + rng.randint(12))
    path = gen.tmp_file(content)
    utterances = [gen.expected_utterance(tokens) for tokens in lines if tokens]
    unk = vocab.word_to_id['<unk>']
    sequences = [[vocab.word_to_id.get(w, unk) for w in u] for u in utterances]
    logprobs = [scored(reference.sequence(seq)) for seq in sequences]
    total, number = sum(map(sum, logprobs)), sum(map(len, logprobs))
    mon.case({'architecture': description, 'vocabulary': spec.describe(), 'text': content, 'options': options},
             nontrivial=number > 3)
    seen = []
    for batch_size in (1, 1 + rng.randint(4), 16):
        with open(path, encoding='utf-8') as f:
            iterator = LinearBatchIterator([f], vocab, batch_size=batch_size, max_sequence_length=None, map_oos_to_unk=False)
            try:
                perplexity = scorer.compute_perplexity(iterator)
            except ValueError:
                mon.check(number == 0, 'corpus', 'no perplexity although %d words can be scored' % number)
                continue
        mon.count('corpora')
        mon.check(number > 0, 'corpus', 'a perplexity from no words')
        mon.close(perplexity, numpy.exp(-total / number), 'corpus-score', 'perplexity with batch size %d' % batch_size,
                  rtol=1e-8, atol=0)
        seen.append(perplexity)
    with open(path, encoding='utf-8') as f:
        iterator = ScoringBatchIterator(f, vocab, batch_size=1 + rng.randint(5), max_sequence_length=None, map_oos_to_unk=False)
        results = []
        for word_ids, words, mask in iterator:
            class_ids, probs = vocab.get_class_memberships(word_ids)
            for column, got in enumerate(scorer.score_batch(word_ids, class_ids, probs, mask)):
                results.append(got)
        mon.check(len(results) == len(sequences), 'corpus', '%d sentences scored of %d' % (len(results), len(sequences)))
        for got, seq in zip(results, sequences):
            same(mon, got, reference.sequence(seq), 'corpus-batch-score', 'corpus')


def pieces(rng, mon):
    """Long sentences are cut; a piece or a batch may have nothing to score."""
    from theanolm.parsing import LinearBatchIterator
    vocab, spec, description, network, scorer, reference, options = model(rng, mon, simple=True)
    pool = [w for w in spec.all_words if w not in gen.SPECIALS]
    lines = []
    for _ in range(1 + rng.randint(4)):
        unknown = gen.pick(rng, [0.0, 0.5, 0.9, 1.0])
        lines.append(['never-seen' if rng.rand() < unknown else gen.pick(rng, pool) for _ in range(1 + rng.randint(9))])
    path = gen.tmp_file(''.join(' '.join(tokens) + '\n' for tokens in lines))
    length = 2 + rng.randint(3)
    unk = vocab.word_to_id['<unk>']
    logprobs = []
    for tokens in lines:
        ids = [vocab.word_to_id.get(w, unk) for w in gen.expected_utterance(tokens)]
        for start in range(0, len(ids), length):
            if len(ids[start:start + length]) > 1:
                logprobs.append(scored(reference.sequence(ids[start:start + length])))
    total, number = sum(map(sum, logprobs)), sum(map(len, logprobs))
    mon.count('pieces without scored words', sum(not x for x in logprobs))
    mon.case({'architecture': description, 'vocabulary': spec.describe(), 'lines': lines, 'length': length, 'options': options},
             nontrivial=number > 3)
    for batch_size in (1, 1 + rng.randint(4)):
        with open(path, encoding='utf-8') as f:
            iterator = LinearBatchIterator([f], vocab, batch_size=batch_size, max_sequence_length=length, map_oos_to_unk=False)
            try:
                perplexity = scorer.compute_perplexity(iterator)
            except ValueError:
                mon.check(number == 0, 'corpus', 'no perplexity although %d words can be scored' % number)
                continue
        mon.check(number > 0, 'corpus', 'a perplexity from no words')
        mon.close(perplexity, numpy.exp(-total / number), 'corpus-score', 'perplexity with batch size %d' % batch_size,
                  rtol=1e-8, atol=0)


FAMILIES = [
    dict(name='interfaces', fn=interfaces, quick=180, thorough=1500),
    dict(name='corpus', fn=corpus, quick=84, thorough=700),
    dict(name='pieces', fn=pieces, quick=72, thorough=500),
]
