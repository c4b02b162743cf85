"""C29: corpus statistics conserve every token of the input."""

import io
import mmap
from collections import Counter

import numpy

from vf import gen

RULE = ('Random texts (empty lines, Unicode, explicit sentence markers, white space variants, missing final newline, up to '
        'four files) read as text files, memory maps and strings, with random vocabularies; unigram and bigram counts '
        'are compared with counts taken from the generated token lists. Non-trivial: at least one non-empty line.')
REQUIRED = ['tokens counted', 'bigrams counted', 'memory maps', 'text files', 'several files', 'oov tokens', 'empty lines']


def make_files(rng, pool, mon, num_files=None, large=False):
    contents = []
    if large:
        for _ in range(1 + rng.randint(3)):
            if rng.rand() < 0.5:
                contents.append(gen.text(rng, pool, 500 + rng.randint(1500), max_len=8, oov=0.2))
            else:
                contents.append(gen.text(rng, pool, 1 + rng.randint(6), max_len=3000, oov=0.2))
        mon.count('large texts')
        return contents
    for _ in range(num_files or 1 + rng.randint(4)):
        contents.append(gen.text(rng, pool, rng.randint(8), max_len=8, oov=0.2))
    return contents


def expected_counts(contents):
    counts = Counter()
    pairs = Counter()
    for _, lines in contents:
        for tokens in lines:
            seq = gen.expected_utterance(tokens)
            counts.update(seq)
            pairs.update(zip(seq[:-1], seq[1:]))
    return counts, pairs


def position_restored(mon, handles):
    for handle in handles:
        mon.check(handle.tell() == 0, 'position', 'a file was left at position %d' % handle.tell())


def unigram(rng, mon, large=False):
    from theanolm.vocabulary import compute_word_counts
    pool = gen.words(rng, 2 + rng.randint(300 if large else 8))
    contents = make_files(rng, pool, mon, large=large)
    handles, keep = open_text(rng, contents, mon)
    mon.case([c for c, _ in contents], nontrivial=any(any(l) for _, l in contents))
    if len(contents) > 1:
        mon.count('several files')
    mon.count('empty lines', sum(1 for _, ls in contents for l in ls if not l))
    expected, _ = expected_counts(contents)
    for repeat in range(2):
        counts = compute_word_counts(handles)
        mon.count('tokens counted', sum(counts.values()))
        mon.check(dict(counts) == dict(expected), 'word-counts', 'word counts %r, expected %r' % (dict(counts), dict(expected)))
        position_restored(mon, handles)
    # divided differently
    joined = ''.join(c if c.endswith('\n') or not c else c + '\n' for c, _ in contents)
    again = compute_word_counts([io.StringIO(joined)])
    mon.check(dict(again) == dict(expected), 'division', 'counts depend on the division into files')
    for f in keep:
        f.close()


def open_text(rng, contents, mon):
    handles = []
    keep = []
    for content, _ in contents:
        if rng.rand() < 0.5:
            handles.append(io.StringIO(content, newline='\n'))
        else:
            f = open(gen.tmp_file(content), encoding='utf-8', newline='\n')
            handles.append(f)
            keep.append(f)
            mon.count('text files')
    return handles, keep


def bigram(rng, mon, large=False):
    from theanolm.vocabulary import BigramStatistics
    vocab, spec = gen.vocab(rng, size=2 + rng.randint(8))
    pool = [w for w in spec.all_words if w not in gen.SPECIALS]
    contents = make_files(rng, pool, mon, large=large)
    handles, keep = open_text(rng, contents, mon)
    mon.case({'texts': [c for c, _ in contents], 'vocabulary': spec.describe()}, nontrivial=any(any(l) for _, l in contents))
    if len(contents) > 1:
        mon.count('several files')
    counts, pairs = expected_counts(contents)
    known = set(spec.all_words)

    def name(word):
        if word in known:
            return word
        mon.count('oov tokens')
        return '<unk>'

    size = len(spec.all_words)
    unigrams = numpy.zeros(size, dtype='int64')
    bigrams = numpy.zeros((size, size), dtype='int64')
    for word, count in counts.items():
        unigrams[vocab.word_to_id[name(word)]] += count
    for (a, b), count in pairs.items():
        bigrams[vocab.word_to_id[name(a)], vocab.word_to_id[name(b)]] += count
    stats = BigramStatistics(handles, vocab)
    mon.count('tokens counted', int(unigrams.sum()))
    mon.count('bigrams counted', int(bigrams.sum()))
    mon.check(numpy.array_equal(numpy.asarray(stats.unigram_counts), unigrams), 'unigram-counts',
              'unigram counts %r, expected %r' % (stats.unigram_counts.tolist(), unigrams.tolist()))
    mon.check(numpy.array_equal(stats.bigram_counts.toarray(), bigrams), 'bigram-counts',
              'bigram counts differ from the adjacent pairs of the sentences')
    position_restored(mon, handles)
    for f in keep:
        f.close()


def mapped(rng, mon, large=False):
    """Reading through memory maps the way training does."""
    from theanolm.parsing.functions import find_sentence_starts, utterance_from_line
    pool = gen.words(rng, 2 + rng.randint(300 if large else 8))
    content, lines = make_files(rng, pool, mon, large=True)[0] if large else gen.text(rng, pool, 1 + rng.randint(10), max_len=6)
    if not content:
        content, lines = 'a b\n', [['a', 'b']]
    with open(gen.tmp_file(content), 'rb') as f:
        data = mmap.mmap(f.fileno(), 0, prot=mmap.PROT_READ)
        starts = find_sentence_starts(data)
        mon.count('memory maps')
        got = []
        for start in starts:
            data.seek(start)
            got.append(utterance_from_line(data.readline()))
        data.close()
    expected = [gen.expected_utterance(tokens) for tokens in lines]
    mon.case(content, nontrivial=any(lines))
    mon.count('tokens counted', sum(len(x) for x in got))
    mon.check([x for x in got if x] == [x for x in expected if x], 'sentence-starts',
              'sentences found in the memory map %r, expected %r' % (got, expected))


def large_texts(rng, mon):
    gen.pick(rng, [unigram, bigram, mapped])(rng, mon, large=True)


FAMILIES = [
    dict(name='large', fn=large_texts, quick=60, thorough=400),
    dict(name='unigram', fn=unigram, quick=12000, thorough=24000),
    dict(name='bigram', fn=bigram, quick=12000, thorough=24000),
    dict(name='mapped', fn=mapped, quick=12000, thorough=24000),
]
