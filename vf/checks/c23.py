"""C23: word class optimisation keeps exact statistics and never loses likelihood."""

import io
import re
from collections import Counter

import numpy

from vf import cli, gen

RULE = ('Random corpora (repeated words, unseen vocabulary words, unknown words, ties) with initial classes from counts, word lists and '
        'class files; the optimizers run whole optimisations and random move histories, and after every operation all statistics, '
        'the log likelihood and predicted changes are compared with values computed from the corpus tokens. The wctool program is run '
        'with both methods and formats, and its output is read back. Non-trivial: at least one word was moved. Distinct by corpus and classes.')
REQUIRED = ['moves accepted', 'moves refused', 'forced moves', 'changes compared', 'statistics compared', 'numpy runs', 'theano runs',
            'unseen words', 'empty class counts', 'large counts', 'wctool runs', 'classes read back', 'implementations compared', 'converged runs']


def xlogx(x):
    x = numpy.asarray(x, dtype='float64')
    return numpy.where(x > 0, x * numpy.log(numpy.maximum(x, 1)), 0.0).sum()


class Reference(object):
    """The corpus as a token list, and statistics of any class assignment."""

    def __init__(self, lines, vocab, factor=1):
        self.vocab = vocab
        # The corpus is repeated this many times.
        self.factor = factor
        size = len(vocab.word_to_id)
        self.size = size
        self.words = numpy.zeros(size, dtype='int64')
        self.bigrams = numpy.zeros((size, size), dtype='int64')
        unk = vocab.word_to_id['<unk>']
        for tokens in lines:
            ids = [vocab.word_to_id.get(w, unk) for w in gen.expected_utterance(tokens)]
            for i in ids:
                self.words[i] += 1
            for a, b in zip(ids[:-1], ids[1:]):
                self.bigrams[a, b] += 1
        self.words *= factor
        self.bigrams *= factor

    def statistics(self, assignment, num_classes):
        indicator = numpy.zeros((self.size, num_classes), dtype='int64')
        indicator[numpy.arange(self.size), assignment] = 1
        wc = self.bigrams.dot(indicator)
        cw = indicator.T.dot(self.bigrams)
        return dict(class_counts=self.words.dot(indicator), cc_counts=indicator.T.dot(wc), cw_counts=cw, wc_counts=wc)

    def likelihood(self, assignment, num_classes):
        s = self.statistics(assignment, num_classes)
        return xlogx(s['cc_counts']) + xlogx(self.words) - 2 * xlogx(s['class_counts'])

    def gains(self, word_id, assignment, num_classes, targets):
        base = self.likelihood(assignment, num_classes)
        result = {}
        for target in targets:
            changed = numpy.array(assignment)
            changed[word_id] = target
            result[target] = self.likelihood(changed, num_classes) - base
        return result


def value(x):
    return numpy.asarray(x.get_value() if hasattr(x, 'get_value') else x)


def assignment_of(optimizer, size):
    return [int(optimizer.get_word_class(i)) for i in range(size)]


def watch(mon, optimizer, ref, where):
    """Compares everything the optimizer maintains with the corpus."""
    size = ref.size
    assignment = assignment_of(optimizer, size)
    n = optimizer.num_classes
    mon.check(all(0 <= c < n for c in assignment), 'class-range', '%s: classes %r of %d' % (where, assignment, n))
    expected = ref.statistics(assignment, n)
    for name, table in expected.items():
        actual = getattr(optimizer, '_' + name, None)
        if actual is None:
            continue
        mon.count('statistics compared')
        mon.check(numpy.array_equal(value(actual), table), 'statistics',
                  '%s: %s differ from the corpus: %r, expected %r' % (where, name, value(actual).tolist(), table.tolist()))
    mon.close(float(optimizer.log_likelihood()), ref.likelihood(assignment, n), 'log-likelihood', where + ': log likelihood',
              rtol=1e-9, atol=1e-7 * ref.factor)
    listed = {}
    for word, class_id, prob in optimizer.words():
        mon.check(word not in listed, 'word-twice', '%r is listed twice' % word)
        listed[word] = (int(class_id), float(prob))
    mon.check(set(listed) == set(ref.vocab.word_to_id), 'word-list', 'the words listed are not the words of the vocabulary')
    for word, (class_id, prob) in listed.items():
        word_id = ref.vocab.word_to_id[word]
        mon.check(class_id == assignment[word_id], 'word-class', '%r listed in class %d, is in %d' % (word, class_id, assignment[word_id]))
        total = expected['class_counts'][class_id]
        if total:
            mon.close(prob, ref.words[word_id] / total, 'membership', '%s: probability of %r' % (where, word), rtol=1e-6)
        else:
            mon.check(0.0 <= prob <= 1.0, 'membership-empty', '%s: probability of %r is %r' % (where, word, prob))
    return assignment


def corpus(rng, mon):
    from theanolm.vocabulary import Vocabulary, compute_word_counts
    names = gen.words(rng, 2 + gen.some(rng, 9, 60, 0.04), odd=rng.rand() < 0.3)
    pool = names if rng.rand() < 0.5 else [gen.pick(rng, names[:max(2, len(names) // 2)]) for _ in range(3)] + names
    content, lines = gen.text(rng, pool, 1 + rng.randint(14), max_len=8, oov=0.1 if rng.rand() < 0.5 else 0.0, min_len=0)
    if not any(lines):
        content, lines = 'x y x\n', [['x', 'y', 'x']]
    kind = gen.pick(rng, ['counts', 'counts', 'classes', 'classes', 'srilm-classes', 'words'])
    if kind == 'counts':
        number = 1 + rng.randint(5)
        counts = compute_word_counts([io.StringIO(content)])
        if not set(counts) - set(gen.SPECIALS):
            content, lines = 'x y x\n', [['x', 'y', 'x']]
            counts = compute_word_counts([io.StringIO(content)])
        vocab = Vocabulary.from_word_counts(counts, number)
        return content, lines, vocab, ('counts', number, None)
    text = ''
    number = 1 + rng.randint(4)
    order = [names[i] for i in rng.permutation(len(names))]
    if rng.rand() < 0.3:
        order.append('unseenword')
    if rng.rand() < 0.2:
        order.append('unseen2')
    if kind != 'words' and rng.rand() < 0.5:
        order += ['<s>', '</s>', '<unk>'][:1 + rng.randint(3)]
    for word in order:
        label = rng.randint(number)
        if word in gen.SPECIALS:
            label = 90 + gen.SPECIALS.index(word)
        if kind == 'words':
            text += word + '\n'
        elif kind == 'classes':
            text += '%s %d\n' % (word, label)
        else:
            text += 'C%d %.3f %s\n' % (label, 0.01 + rng.rand(), word)
    vocab = Vocabulary.from_file(io.StringIO(text), kind)
    return content, lines, vocab, (kind, None, text)


def create(rng, mon, method, content, vocab, factor=1):
    from theanolm.vocabulary import BigramStatistics
    from wordclasses import NumpyBigramOptimizer, TheanoBigramOptimizer
    statistics = BigramStatistics([io.StringIO(content)], vocab)
    if factor > 1:
        statistics.unigram_counts = statistics.unigram_counts * factor
        statistics.bigram_counts = statistics.bigram_counts * factor
        mon.count('large counts')
    mon.count(method + ' runs')
    return (TheanoBigramOptimizer if method == 'theano' else NumpyBigramOptimizer)(statistics, vocab)


def compare_change(mon, optimizer, ref, word_id, target, assignment):
    old = assignment[word_id]
    counts = ref.statistics(assignment, optimizer.num_classes)['class_counts']
    gain = ref.gains(word_id, assignment, optimizer.num_classes, [target])[target]
    if counts[target] == 0 or counts[old] == ref.words[word_id]:
        mon.count('empty class counts')
    predicted = float(optimizer._evaluate(word_id, target))
    mon.count('changes compared')
    mon.close(predicted, gain, 'predicted-change', 'change predicted when moving word %d (count %d) from class %d (%d) to class %d (%d)'
              % (word_id, ref.words[word_id], old, counts[old], target, counts[target]), rtol=1e-8, atol=1e-6 * ref.factor)


def best_move(mon, optimizer, ref, word, normal):
    """One step of optimisation, judged by trying all the moves."""
    word_id = ref.vocab.word_to_id[word]
    before = assignment_of(optimizer, ref.size)
    n = optimizer.num_classes
    movable = not (word.startswith('<') and word.endswith('>')) and before.count(before[word_id]) > 1
    gains = ref.gains(word_id, before, n, [c for c in range(normal) if c != before[word_id]]) if movable else {}
    moved = optimizer.move_to_best_class(word)
    after = assignment_of(optimizer, ref.size)
    others = [i for i in range(ref.size) if i != word_id]
    mon.check(all(before[i] == after[i] for i in others), 'other-word', 'moving %r changed the class of another word' % word)
    mon.check(bool(moved) == (before[word_id] != after[word_id]), 'return-value', 'returned %r but class %d became %d'
              % (moved, before[word_id], after[word_id]))
    best = max(gains.values()) if gains else 0.0
    gain = gains.get(after[word_id]) if moved else 0.0
    if moved:
        mon.count('moves accepted')
        mon.check(gain is not None, 'forbidden-move', '%r was moved from class %d to class %d' % (word, before[word_id], after[word_id]))
        mon.check(gain > -1e-6 * ref.factor, 'likelihood-lost', 'moving %r changed the log likelihood by %g' % (word, gain))
    else:
        mon.count('moves refused')
    mon.check(gain >= best - 1e-5 * ref.factor, 'not-best', '%r: the move taken changes log likelihood by %g, the best move by %g' % (word, gain, best))
    return moved


def history(rng, mon, method):
    content, lines, vocab, origin = corpus(rng, mon)
    factor = gen.pick(rng, [200, 40000, 1000000]) if rng.rand() < 0.1 else 1
    ref = Reference(lines, vocab, factor)
    mon.count('unseen words', sum(1 for w, i in vocab.word_to_id.items() if ref.words[i] == 0 and w not in gen.SPECIALS))
    optimizer = create(rng, mon, method, content, vocab, factor)
    normal = vocab.num_normal_classes
    mon.case([lines, origin, vocab.word_id_to_class_id.tolist(), factor], nontrivial=normal > 1)
    watch(mon, optimizer, ref, 'initially')
    names = [str(w) for w in vocab.words()]
    regular = [w for w in names if not (w.startswith('<') and w.endswith('>'))]
    for step in range(4 + rng.randint(10)):
        if rng.rand() < 0.6:
            best_move(mon, optimizer, ref, gen.pick(rng, names), normal)
        elif regular and normal > 1:
            word_id = vocab.word_to_id[gen.pick(rng, regular)]
            assignment = assignment_of(optimizer, ref.size)
            targets = [c for c in range(normal) if c != assignment[word_id]]
            if not targets or ref.words[word_id] == 0:
                continue
            target = gen.pick(rng, targets)
            compare_change(mon, optimizer, ref, word_id, target, assignment)
            if rng.rand() < 0.7:
                optimizer._move(word_id, target)
                mon.count('forced moves')
                mon.check(int(optimizer.get_word_class(word_id)) == target, 'move', 'the word is not in the class it was moved to')
        watch(mon, optimizer, ref, 'after step %d' % step)
        assignment = assignment_of(optimizer, ref.size)
        if regular and normal > 1:
            word_id = vocab.word_to_id[gen.pick(rng, regular)]
            targets = [c for c in range(normal) if c != assignment[word_id]]
            if targets:
                compare_change(mon, optimizer, ref, word_id, gen.pick(rng, targets), assignment)


def numpy_history(rng, mon):
    history(rng, mon, 'numpy')


def theano_history(rng, mon):
    history(rng, mon, 'theano')


def agree(rng, mon):
    """The same moves in both implementations."""
    content, lines, vocab, origin = corpus(rng, mon)
    ref = Reference(lines, vocab)
    a = create(rng, mon, 'numpy', content, vocab)
    b = create(rng, mon, 'theano', content, vocab)
    mon.case([lines, origin], nontrivial=vocab.num_normal_classes > 1)
    names = [str(w) for w in vocab.words()]
    for _ in range(15):
        before = assignment_of(a, ref.size)
        if before != assignment_of(b, ref.size):
            # Only moves that are equally good may differ.
            mon.close(ref.likelihood(before, a.num_classes), ref.likelihood(assignment_of(b, ref.size), a.num_classes),
                      'implementations', 'log likelihoods of the implementations', atol=1e-6)
            break
        mon.count('implementations compared')
        mon.close(float(a.log_likelihood()), float(b.log_likelihood()), 'implementations', 'log likelihoods', atol=1e-6)
        for i in range(ref.size):
            mon.close(float(a.get_word_prob(i)), float(b.get_word_prob(i)), 'implementations', 'probability of word %d' % i, atol=1e-6)
        word = gen.pick(rng, names)
        a.move_to_best_class(word)
        b.move_to_best_class(word)


def converge(rng, mon):
    """Whole optimisation."""
    content, lines, vocab, origin = corpus(rng, mon)
    ref = Reference(lines, vocab)
    optimizer = create(rng, mon, 'numpy', content, vocab)
    mon.case([lines, origin], nontrivial=vocab.num_normal_classes > 1)
    names = [str(w) for w in vocab.words()]
    for iteration in range(60):
        moves = sum(best_move(mon, optimizer, ref, word, vocab.num_normal_classes) for word in names)
        if not moves:
            mon.count('converged runs')
            break
    else:
        mon.fail('no-convergence', 'words are still being moved after %d iterations' % iteration)
    watch(mon, optimizer, ref, 'finally')


def program(rng, mon):
    """wctool, judged from its output file."""
    from theanolm.vocabulary import Vocabulary
    content, lines, vocab, (kind, number, text) = corpus(rng, mon)
    ref = Reference(lines, vocab)
    method = 'bigram-numpy' if rng.rand() < 0.8 else 'bigram-theano'
    out_format = gen.pick(rng, ['classes', 'srilm-classes'])
    path = gen.tmp_path('.classes')
    parts = [content]
    if len(lines) > 1 and rng.rand() < 0.4:
        pieces = content.split('\n')
        at = rng.randint(1, len(pieces))
        first, second = '\n'.join(pieces[:at]) + '\n', '\n'.join(pieces[at:])
        if first.strip() and second.strip():
            parts = [first, second]
    argv = ['--training-set'] + [gen.tmp_file(p) for p in parts]
    argv += ['--output-file', path, '--output-format', out_format, '--method', method,
             '--output-frequency', 1 + rng.randint(3), '--log-file', gen.tmp_path('.log'), '--log-interval', 1 + rng.randint(5)]
    if kind == 'counts':
        argv += ['--num-classes', number]
    else:
        argv += ['--vocabulary', gen.tmp_file(text), '--vocabulary-format', kind]
    mon.case([lines, kind, number, text, method, out_format], nontrivial=vocab.num_normal_classes > 1)
    result = cli.run('wctool', *argv)
    mon.count('wctool runs')
    mon.check(result.code == 0, 'wctool', 'wctool failed: %r' % result)
    with open(path, encoding='utf-8', newline='\n') as f:
        written = f.read()
    back = Vocabulary.from_file(io.StringIO(written, newline='\n'), out_format)
    mon.check(set(back.word_to_id) == set(vocab.word_to_id), 'words-written', 'words written %r, expected %r'
              % (sorted(map(str, back.word_to_id)), sorted(map(str, vocab.word_to_id))))
    assignment = [int(back.word_id_to_class_id[back.word_to_id[w]]) for w in vocab.id_to_word]
    size = max(assignment) + 1
    mon.count('classes read back', size)
    mon.check(size == back.num_classes(), 'classes-written', 'classes have gaps')
    start = [int(c) for c in vocab.word_id_to_class_id]
    mon.check(size == len(set(start)), 'number-of-classes', '%d classes written, started with %d' % (size, len(set(start))))
    gain = ref.likelihood(assignment, size) - ref.likelihood(start, len(set(start)))
    mon.check(gain > -1e-6, 'likelihood-lost', 'log likelihood changed by %g' % gain)
    # Special tokens are where they were.
    for i, word in enumerate(vocab.id_to_word):
        if word in gen.SPECIALS and start.count(start[i]) == 1 and start[i] >= vocab.num_normal_classes:
            mon.check(assignment.count(assignment[i]) == 1, 'special-class', '%s is not alone in its class any more' % word)
    allowed = set(assignment[i] for i, word in enumerate(vocab.id_to_word) if start[i] < vocab.num_normal_classes)
    # No single move improves any more.
    for i, word in enumerate(vocab.id_to_word):
        if (word.startswith('<') and word.endswith('>')) or assignment.count(assignment[i]) < 2:
            continue
        gains = ref.gains(i, assignment, size, [c for c in allowed if c != assignment[i]])
        mon.check(not gains or max(gains.values()) < 1e-5, 'stopped-early', 'moving %r would still gain %r' % (word, gains))
    if out_format == 'srilm-classes':
        counts = ref.statistics(assignment, size)['class_counts']
        for line in written.splitlines():
            label, prob, word = line.split()
            i = vocab.word_to_id[word]
            if counts[assignment[i]]:
                mon.close(float(prob), ref.words[i] / counts[assignment[i]], 'probability-written', 'probability of %r' % word, rtol=1e-6)
    sums = Counter()
    for i in range(ref.size):
        sums[assignment[i]] += back.get_word_prob(back.word_to_id[vocab.id_to_word[i]])
    for total in sums.values():
        mon.close(total, 1.0, 'normalised', 'membership probabilities read back', rtol=1e-6)


FAMILIES = [
    dict(name='numpy_history', fn=numpy_history, quick=1800, thorough=6000),
    dict(name='theano_history', fn=theano_history, quick=48, thorough=200),
    dict(name='agree', fn=agree, quick=24, thorough=100),
    dict(name='converge', fn=converge, quick=1200, thorough=3000),
    dict(name='program', fn=program, quick=480, thorough=1500),
]
