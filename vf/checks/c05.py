"""C05: each pass of the shuffling reader delivers its sample exactly once."""

from collections import Counter

import numpy

from vf import gen
from vf.checks.c04 import columns, pieces_of, expected_id

RULE = ('Random training files (one to five) in which every sentence carries a unique word, sampling fractions (none, '
        '0..1, above 1, fewer fractions than files), batch sizes, sequence length limits and several passes; the multiset '
        'of delivered pieces is compared with the sentences of the files. Non-trivial: at least three sentences.')
REQUIRED = ['sequences delivered', 'passes', 'reshuffles compared', 'sampled files', 'oversampled files', 'split sentences',
            'sampling coverage passes', 'many files', 'large inputs', 'long lines']


def training_files(rng, num_files, empty=False, max_len=7, lines=None):
    """Files whose sentences are identified by a unique first word."""
    from theanolm.vocabulary import Vocabulary
    fillers = gen.words(rng, 4)
    short = [c for c in 'ABCDEFGHIJKLMNOPQRSTUVWXYZ' if c not in fillers]
    files = []
    names = list(fillers)
    for file_id in range(num_files):
        sentences, content = [], ''
        for line in range(lines or 1 + rng.randint(8)):
            if empty and rng.rand() < 0.2:
                content += gen.pick(rng, ['\n', ' \n'])
                continue
            unique = 'u%d_%d' % (file_id, line)
            shortest = short and rng.rand() < 0.15
            if shortest:
                # The shortest possible line.
                unique = short.pop()
            names.append(unique)
            tokens = [unique]
            # Unique words all along, so that the pieces of a split sentence
            # are identified as well.
            for k in range(0 if shortest else rng.randint(max_len)):
                if rng.rand() < 0.5:
                    word = '%s_%d' % (unique, k)
                    names.append(word)
                else:
                    word = gen.pick(rng, fillers)
                tokens.append(word)
            if rng.rand() < 0.1 and not shortest:
                tokens.insert(0, '<s>')
            if rng.rand() < 0.1:
                tokens.append('</s>')
            if rng.rand() < 0.1:
                tokens.append('oov%d' % line)
            sentences.append(tokens)
            content += ' '.join(tokens) + '\n'
        if not content:
            content, sentences = 'first\n', [['first']]
            names.append('first')
        if rng.rand() < 0.4 and len(content.strip()) and content[-2] not in ' \n':
            content = content[:-1]
        files.append((content, sentences))
    vocab = Vocabulary.from_word_counts({w: 1 + rng.randint(9) for w in names}, None)
    return files, vocab


def open_files(files):
    return [open(gen.tmp_file(content), encoding='utf-8') for content, _ in files]


class Spec(object):
    pass


def word_spec(vocab):
    spec = Spec()
    spec.label = {w: w for w in vocab.words()}
    spec.oos = []
    return spec


def piece_key(vocab, spec, part, file_id):
    return (file_id,) + tuple(expected_id(vocab, spec, w, True) for w in part)


def deliver(mon, iterator, batch_size, limit=None, max_batches=None):
    """One pass (or a part of it) as a list of keys."""
    got = []
    number = 0
    for batch in iterator:
        for ids, file_ids in columns(mon, batch, batch_size, False):
            mon.count('sequences delivered')
            mon.check(len(set(file_ids)) == 1, 'mixed-file-ids', 'one sequence has file IDs %r' % file_ids)
            mon.check(len(ids) >= 2, 'too-short', 'a sequence of one word was delivered')
            got.append((file_ids[0],) + tuple(ids))
        number += 1
        if max_batches is not None and number >= max_batches:
            return got
        if number > 100000:
            mon.fail('endless', 'the reader does not stop')
    return got


def expected_pieces(vocab, spec, files, limit):
    result = {}
    for file_id, (_, sentences) in enumerate(files):
        for index, tokens in enumerate(sentences):
            parts = [p for p in pieces_of(tokens, limit) if len(p) >= 2]
            result[(file_id, index)] = [piece_key(vocab, spec, p, file_id) for p in parts]
    return result


def full(rng, mon, large=False):
    from theanolm.parsing import ShufflingBatchIterator
    num_files = 1 + rng.randint(5)
    if large:
        # Longer lines, more lines and larger batches.
        num_files = 1 + rng.randint(2)
        max_len, lines = gen.pick(rng, [(4000, 4), (200, 30), (7, 600)])
        files, vocab = training_files(rng, num_files, empty=rng.rand() < 0.5, max_len=max_len, lines=lines)
        limit = None if rng.rand() < 0.4 else gen.pick(rng, [25, 100, 130, 300])
        batch_size = gen.pick(rng, [1, 16, 64, 150, 300])
        mon.count('large inputs')
        mon.count('long lines', sum(len(tokens) > 1000 for _, sentences in files for tokens in sentences))
    else:
        files, vocab = training_files(rng, num_files, empty=rng.rand() < 0.5)
        limit = None if rng.rand() < 0.4 else 2 + rng.randint(7)
        batch_size = 1 + rng.randint(9)
    spec = word_spec(vocab)
    handles = open_files(files)
    sampling = [] if rng.rand() < 0.5 else [1.0] * (1 + rng.randint(num_files))
    iterator = ShufflingBatchIterator(handles, numpy.array(sampling) if rng.rand() < 0.5 else sampling, vocab,
                                      batch_size=batch_size, max_sequence_length=limit, map_oos_to_unk=True)
    table = expected_pieces(vocab, spec, files, limit)
    mon.count('split sentences', sum(1 for v in table.values() if len(v) > 1))
    expected = Counter(k for keys in table.values() for k in keys)
    mon.case({'files': [c for c, _ in files], 'limit': limit, 'batch_size': batch_size}, nontrivial=sum(expected.values()) >= 3)
    promised = len(iterator)
    total = sum(expected.values())
    mon.check(promised == (total + batch_size - 1) // batch_size, 'promised-batches',
              'the reader promises %d batches for %d sequences' % (promised, total))
    orders = []
    for _ in range(3):
        got = deliver(mon, iterator, batch_size)
        mon.count('passes')
        counts = Counter(got)
        if counts != expected:
            lost, extra = expected - counts, counts - expected
            mon.fail('not-exactly-once', 'lost %r, repeated or foreign %r' % (dict(lost), dict(extra)))
        mon.check(True, '', '')
        orders.append(tuple(got))
    distinct = len([k for k, v in table.items() if v])
    if distinct >= 7:
        mon.count('reshuffles compared')
        mon.check(len(set(orders)) > 1, 'same-order', 'three passes delivered %d sentences in the same order' % distinct)
    for f in handles:
        f.close()


def sampled(rng, mon):
    from theanolm.parsing import ShufflingBatchIterator
    num_files = 1 + rng.randint(4)
    files, vocab = training_files(rng, num_files)
    spec = word_spec(vocab)
    limit = None if rng.rand() < 0.6 else 3 + rng.randint(7)
    batch_size = 1 + rng.randint(6)
    fractions = [gen.pick(rng, [0.1, 0.25, 0.5, 0.75, 0.9, 1.0, float(rng.rand()), 1.5, 2.0])
                 for _ in range(1 + rng.randint(num_files))]
    handles = open_files(files)
    full_fractions = fractions + [1.0] * (num_files - len(fractions))
    if sum(round(f * len(s)) for f, (_, s) in zip(full_fractions, files)) == 0:
        fractions[0] = full_fractions[0] = 1.0
    iterator = ShufflingBatchIterator(handles, numpy.array(fractions), vocab, batch_size=batch_size,
                                      max_sequence_length=limit, map_oos_to_unk=True)
    table = expected_pieces(vocab, spec, files, limit)
    mon.case({'files': [c for c, _ in files], 'fractions': fractions, 'limit': limit}, nontrivial=len(table) >= 3)
    for _ in range(3):
        got = Counter(deliver(mon, iterator, batch_size))
        mon.count('passes')
        per_file = [0] * num_files
        expected = Counter()
        for (file_id, index), keys in table.items():
            # The first piece carries the unique word of the sentence.
            times = got[keys[0]]
            per_file[file_id] += times
            for key in keys:
                expected[key] += times
            if full_fractions[file_id] <= 1.0:
                mon.check(times <= 1, 'repeated', 'a sentence was delivered %d times in one pass' % times)
        expected = Counter({k: v for k, v in expected.items() if v})
        mon.check(got == expected, 'partial-sentence', 'foreign sequences %r, missing pieces %r'
                  % (dict(got - expected), dict(expected - got)))
        for file_id, fraction in enumerate(full_fractions):
            number = len(files[file_id][1])
            mon.count('sampled files' if fraction < 1 else 'oversampled files' if fraction > 1 else 'complete files')
            mon.check(abs(per_file[file_id] - fraction * number) <= 0.5 + 1e-9, 'sample-size',
                      'file %d with %d sentences and fraction %g contributed %d' % (file_id, number, fraction, per_file[file_id]))
    for f in handles:
        f.close()


def coverage(rng, mon):
    """Over many passes the sample reaches every sentence."""
    from theanolm.parsing import ShufflingBatchIterator
    files, vocab = training_files(rng, 2, max_len=2, lines=4)
    spec = word_spec(vocab)
    handles = open_files(files)
    iterator = ShufflingBatchIterator(handles, [0.5, 0.5], vocab, batch_size=4, map_oos_to_unk=True)
    table = expected_pieces(vocab, spec, files, None)
    seen = Counter()
    firsts = Counter()
    passes = 120
    for _ in range(passes):
        got = deliver(mon, iterator, 4)
        seen.update(got)
        firsts[got[0]] += 1
        mon.count('sampling coverage passes')
    mon.case([c for c, _ in files])
    for keys in table.values():
        times = sum(seen[k] for k in keys)
        # binomial(120, 0.5); 7 standard deviations
        mon.check(abs(times - passes / 2) <= 7 * (passes * 0.25) ** 0.5, 'biased-sample',
                  'a sentence was sampled %d times in %d passes of half of the file' % (times, passes))
    for keys in table.values():
        mon.check(firsts[keys[0]] <= 60, 'biased-order', 'a pass starts with the same sentence %d times of %d' % (firsts[keys[0]], passes))
    for f in handles:
        f.close()


def many_files(rng, mon):
    """Every sequence carries the ID of its file, also with many files."""
    from theanolm.parsing import ShufflingBatchIterator
    num_files = gen.pick(rng, [100, 127, 128, 129, 200, 260])
    files, vocab = training_files(rng, num_files, max_len=2, lines=1)
    spec = word_spec(vocab)
    handles = open_files(files)
    iterator = ShufflingBatchIterator(handles, [], vocab, batch_size=7, map_oos_to_unk=True)
    expected = Counter(k for keys in expected_pieces(vocab, spec, files, None).values() for k in keys)
    got = Counter(deliver(mon, iterator, 7))
    mon.case({'num_files': num_files})
    mon.count('many files')
    mon.check(got == expected, 'file-ids', 'with %d files, %d sequences do not carry the ID of their file'
              % (num_files, sum((got - expected).values())))
    for f in handles:
        f.close()


FAMILIES = [
    dict(name='full', fn=full, quick=6000, thorough=12000),
    dict(name='large', fn=lambda rng, mon: full(rng, mon, True), quick=60, thorough=600),
    dict(name='sampled', fn=sampled, quick=6000, thorough=12000),
    dict(name='coverage', fn=coverage, quick=120, thorough=240),
    dict(name='many-files', fn=many_files, quick=90, thorough=180),
]
