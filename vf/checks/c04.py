"""C04: sequential readers deliver every sentence exactly once and intact."""

import io
import mmap

import numpy

from vf import gen

RULE = ('Random texts (empty lines, Unicode, sentence markers inside the text, no final newline, one to four files, text '
        'and memory-mapped input) x batch sizes 1..9 x sequence length limits None/1..9 x out-of-shortlist mapping; every '
        'batch of two to three complete passes is recorded and compared with the pieces derived from the generated tokens. '
        'Non-trivial: at least one piece is delivered; distinct by text and configuration.')
REQUIRED = ['sequences delivered', 'split sentences', 'padded batches', 'dropped pieces', 'passes', 'memory maps',
            'several files', 'oos words', 'empty inputs', 'large inputs', 'long lines']


def pieces_of(tokens, limit):
    seq = gen.expected_utterance(tokens)
    if limit is None:
        return [seq] if seq else []
    return [seq[i:i + limit] for i in range(0, len(seq), limit)]


def expected_id(vocab, spec, word, map_oos):
    if word in spec.label:
        return vocab.word_to_id[word]
    if word in spec.oos and not map_oos:
        return vocab.word_to_id[word]
    return vocab.word_to_id['<unk>']


def open_input(rng, contents, mon):
    handles, keep = [], []
    for content in contents:
        if content and rng.rand() < 0.5:
            f = open(gen.tmp_file(content), 'rb')
            handles.append(mmap.mmap(f.fileno(), 0, prot=mmap.PROT_READ))
            keep += [handles[-1], f]
            mon.count('memory maps')
        elif rng.rand() < 0.5:
            handles.append(io.StringIO(content, newline='\n'))
        else:
            f = open(gen.tmp_file(content), encoding='utf-8', newline='\n')
            handles.append(f)
            keep.append(f)
    return handles, keep


def columns(mon, batch, batch_size, scoring):
    """Splits a batch into sequences, checking its shape."""
    word_ids, middle, mask = batch
    mon.check(word_ids.ndim == 2 and word_ids.shape == mask.shape, 'batch-shape', 'word ID and mask shapes differ')
    mon.check(1 <= word_ids.shape[1] <= batch_size, 'batch-size', 'batch of %d sequences, limit %d' % (word_ids.shape[1], batch_size))
    if not scoring:
        mon.check(middle.shape == mask.shape, 'file-id-shape', 'file ID matrix has another shape')
    else:
        mon.check(len(middle) == word_ids.shape[1], 'words-shape', 'word lists for another number of sequences')
    lengths = []
    result = []
    for column in range(word_ids.shape[1]):
        m = mask[:, column]
        length = int((m != 0).sum())
        mon.check(set(numpy.unique(m)) <= {0, 1} and bool((m[:length] == 1).all()) and bool((m[length:] == 0).all()),
                  'mask-prefix', 'mask %r is not a prefix of ones' % m.tolist())
        lengths.append(length)
        extra = middle[column] if scoring else middle[:length, column].tolist()
        result.append((word_ids[:length, column].tolist(), extra))
    mon.check(max(lengths) == word_ids.shape[0], 'batch-length', 'batch is longer than its longest sequence')
    if min(lengths) < max(lengths):
        mon.count('padded batches')
    return result


def run(rng, mon, scoring, large=False):
    from theanolm.parsing import LinearBatchIterator, ScoringBatchIterator
    if large:
        # More words, longer lines, more lines and larger batches.
        vocab, spec = gen.vocab(rng, size=gen.pick(rng, [140, 300, 300, 700]))
        max_len, max_lines = gen.pick(rng, [(5000, 3), (300, 20), (6, 700)])
    else:
        vocab, spec = gen.vocab(rng, size=2 + rng.randint(8))
        max_len, max_lines = gen.pick(rng, [2, 6, 12]), 8
    pool = [w for w in spec.all_words if w not in gen.SPECIALS]
    num_files = 1 if rng.rand() < 0.5 else 1 + rng.randint(4)
    contents, expected_lines = [], []
    for file_id in range(num_files):
        content, lines = gen.text(rng, pool, rng.randint(max_lines + 1), max_len=max_len, oov=0.15)
        contents.append(content)
        expected_lines += [(tokens, file_id) for tokens in lines]
    batch_size = 1 + rng.randint(9)
    limit = None if rng.rand() < 0.35 else 1 + rng.randint(9)
    map_oos = bool(rng.rand() < 0.5)
    if large:
        batch_size = gen.pick(rng, [1, 16, 64, 150, 300])
        limit = None if rng.rand() < 0.4 else gen.pick(rng, [25, 100, 130, 300])
        mon.count('large inputs')
        mon.count('long lines', sum(len(tokens) > 1000 for tokens, _ in expected_lines))
    handles, keep = open_input(rng, contents, mon)
    if num_files > 1:
        mon.count('several files')
    expected = []
    for tokens, file_id in expected_lines:
        parts = pieces_of(tokens, limit)
        if len(parts) > 1:
            mon.count('split sentences')
        for part in parts:
            if len(part) < 2:
                mon.count('dropped pieces')
            else:
                expected.append((part, file_id))
    cls = ScoringBatchIterator if scoring else LinearBatchIterator
    source = handles if num_files > 1 or rng.rand() < 0.5 else handles[0]
    iterator = cls(source, vocab, batch_size=batch_size, max_sequence_length=limit, map_oos_to_unk=map_oos)
    mon.case({'texts': contents, 'batch_size': batch_size, 'limit': limit, 'map_oos': map_oos, 'scoring': scoring},
             nontrivial=bool(expected))
    if not expected:
        mon.count('empty inputs')
    if rng.rand() < 0.5:
        mon.check(len(iterator) == (len(expected) + batch_size - 1) // batch_size, 'length-before',
                  'the iterator promises %d batches, %d expected' % (len(iterator), (len(expected) + batch_size - 1) // batch_size))
    for number in range(2 + rng.randint(2)):
        got, num_batches, sizes = [], 0, []
        for batch in iterator:
            sequences = columns(mon, batch, batch_size, scoring)
            sizes.append(len(sequences))
            got += sequences
            num_batches += 1
            mon.check(num_batches <= len(expected) + 2, 'endless', 'the reader does not stop')
        mon.count('passes')
        mon.check(len(got) == len(expected), 'sequence-count',
                  'pass %d delivered %d sequences, the text has %d' % (number, len(got), len(expected)))
        for (ids, extra), (part, file_id) in zip(got, expected):
            mon.count('sequences delivered')
            want = [expected_id(vocab, spec, w, map_oos) for w in part]
            mon.check(ids == want, 'word-ids', 'delivered IDs %r, expected %r for %r' % (ids, want, part))
            mon.count('oos words', sum(1 for w in part if w in spec.oos))
            if scoring:
                mon.check(list(extra) == part, 'words', 'delivered words %r, expected %r' % (extra, part))
            else:
                mon.check(all(x == file_id for x in extra), 'file-ids', 'file IDs %r of a sequence of file %d' % (extra, file_id))
        mon.check(all(s == batch_size for s in sizes[:-1]), 'batch-fill', 'a batch in the middle is not full: %r' % sizes)
        mon.check(num_batches == (len(expected) + batch_size - 1) // batch_size, 'num-batches', '%d batches' % num_batches)
        if rng.rand() < 0.5:
            mon.check(len(iterator) == num_batches, 'length-after', 'the iterator promises %d batches, yielded %d' % (len(iterator), num_batches))
    for k in keep:
        k.close()


def linear(rng, mon):
    run(rng, mon, False)


def scoring(rng, mon):
    run(rng, mon, True)


def large(rng, mon):
    run(rng, mon, bool(rng.rand() < 0.5), large=True)


def utterance(rng, mon):
    """One line at a time, as text and as bytes."""
    from theanolm.parsing import utterance_from_line
    pool = gen.words(rng, 6)
    tokens = gen.sentence(rng, pool + gen.SPECIALS, max_len=9)
    line = gen.pick(rng, ['', ' ', '\t']) + gen.pick(rng, [' ', '  ', '\t']).join(tokens) + gen.pick(rng, ['', '\n', ' \n', '\r\n', '\t'])
    expected = gen.expected_utterance(tokens)
    mon.case(line, nontrivial=bool(tokens))
    for form in (line, line.encode('utf-8')):
        got = utterance_from_line(form)
        mon.count('sequences delivered')
        mon.check(list(got) == expected, 'utterance', '%r was read as %r, expected %r' % (form, got, expected))


FAMILIES = [
    dict(name='linear', fn=linear, quick=15000, thorough=30000),
    dict(name='scoring', fn=scoring, quick=15000, thorough=30000),
    dict(name='large', fn=large, quick=60, thorough=600),
    dict(name='utterance', fn=utterance, quick=12000, thorough=24000),
]
