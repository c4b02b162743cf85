"""C02: membership, out-of-shortlist, unigram and class probabilities."""

import io
import numpy

from vf import gen

RULE = ('Random vocabularies of every form with random count tables (zero counts, unseen words, words outside the '
        'vocabulary, single-word classes) and repeated recomputation of the probabilities; every probability of the live '
        'vocabulary is compared with the exact rational computed from the input. The train command is run '
        'with every vocabulary format, and continued with other texts, and the stored vocabulary is compared in the same way. Non-trivial: more than one word or class.')
QUICK_SCALE = 1
REQUIRED = ['memberships compared', 'oos vocabularies', 'unobserved classes', 'unigrams compared', 'models of the train command', 'trainings continued',
            'models without unigram probabilities'] + ['train command with ' + k for k in gen.KINDS]


def check_probs(mon, vocab, spec):
    from fractions import Fraction
    by_class = {}
    ids = vocab.words_to_ids(spec.shortlist)
    class_ids, probs = vocab.get_class_memberships(numpy.array([ids]))
    for word, word_id, class_id, prob in zip(spec.shortlist, ids, class_ids[0], probs[0]):
        mon.count('memberships compared')
        expected = spec.membership(word)
        mon.check(numpy.isfinite(prob) and prob >= 0.0, 'membership-range', 'P(%r|class) = %r' % (word, prob))
        mon.close(prob, expected, 'membership', 'P(%r|class)' % word, rtol=1e-6, atol=1e-12)
        mon.close(vocab.get_word_prob(int(word_id)), expected, 'word-prob', 'get_word_prob(%r)' % word, rtol=1e-6, atol=1e-12)
        if word in gen.SPECIALS and (spec.kind != 'srilm-classes' or spec.weight[word] > 0):
            mon.check(prob > 0, 'special-zero', '%s has zero membership probability' % word)
        by_class.setdefault(int(class_id), []).append((word, float(prob)))
    for class_id, members in by_class.items():
        mon.close(sum(p for _, p in members), 1.0, 'membership-sum', 'membership probabilities of %r' % members, rtol=1e-6)
        if len(members) > 1 and not any(spec.weight[w] > 0 for w, _ in members):
            mon.count('unobserved classes')
    if spec.counts is None:
        return
    mon.check(vocab.has_unigram_probs(), 'no-unigrams', 'unigram probabilities are missing')
    total = sum(spec.counts.get(w, 0) for w in spec.all_words)
    factors = vocab.get_oos_probs()
    mon.check(len(factors) == vocab.num_words(), 'oos-size', 'wrong number of out-of-shortlist factors')
    for word in spec.shortlist:
        mon.check(factors[vocab.word_to_id[word]] == 1.0, 'shortlist-factor', 'factor of the shortlist word %r is not one' % word)
    oos_total = sum(spec.counts.get(w, 0) for w in spec.oos)
    if spec.oos and oos_total:
        mon.count('oos vocabularies')
        for word in spec.oos:
            mon.close(factors[vocab.word_to_id[word]], spec.counts.get(word, 0) / oos_total, 'oos-factor',
                      'factor of the out-of-shortlist word %r' % word, rtol=1e-6)
        mon.close(factors[vocab.num_shortlist_words():].sum(), 1.0, 'oos-sum', 'sum of out-of-shortlist factors', rtol=1e-6)
    class_probs = vocab.get_class_probs()
    mon.check(len(class_probs) == vocab.num_classes(), 'class-probs-size', 'wrong number of class probabilities')
    short_total = sum(spec.counts.get(w, 0) for w in spec.shortlist)
    if short_total:
        for word in spec.shortlist:
            mon.count('unigrams compared')
            expected = sum(spec.counts.get(w, 0) for w in spec.members(word)) / short_total
            mon.close(class_probs[vocab.word_id_to_class_id[vocab.word_to_id[word]]], expected, 'class-prob',
                      'probability of the class of %r' % word, rtol=1e-6)
        mon.close(class_probs.sum(), 1.0, 'class-sum', 'sum of class probabilities', rtol=1e-6)


def unigrams(mon, vocab, spec):
    """The stored unigram probabilities, as written to a model."""
    import h5py
    if spec.counts is None:
        return
    with h5py.File('u.h5', 'w', driver='core', backing_store=False) as state:
        vocab.get_state(state)
        stored = state['vocabulary/unigram_probs'][:]
    total = sum(spec.counts.get(w, 0) for w in spec.all_words)
    for word in spec.all_words:
        mon.count('unigrams compared')
        expected = spec.counts.get(word, 0) / total if total else 0.0
        mon.close(stored[vocab.word_to_id[word]], expected, 'unigram', 'unigram probability of %r' % word, rtol=1e-6)


def random_vocabulary(rng, mon):
    spec = gen.vocab_input(rng, size=1 + gen.some(rng, 25, 800, 0.02), unit=gen.pick(rng, [1.0, 1.0, 1e-12, 1e5]))
    vocab = gen.build_vocab(rng, spec, counts='random' if rng.rand() < 0.8 else None)
    mon.case(dict(spec.describe(), counts=spec.counts), nontrivial=len(spec.shortlist) > 1)
    check_probs(mon, vocab, spec)
    unigrams(mon, vocab, spec)


def recomputed(rng, mon):
    """Probabilities computed again from another table: no trace of the old."""
    spec = gen.vocab_input(rng, size=2 + rng.randint(15))
    vocab = gen.build_vocab(rng, spec)
    history = []
    for _ in range(1 + rng.randint(3)):
        table = gen.random_counts(rng, spec.all_words, zero=gen.pick(rng, [0.0, 0.3, 0.8, 1.0]))
        if spec.oos and not any(table[w] for w in spec.oos):
            table[spec.oos[-1]] = 3
        for token in gen.SPECIALS:
            table[token] = int(rng.randint(3)) if rng.rand() < 0.5 else 0
        table = {w: c for w, c in table.items() if c or rng.rand() < 0.5}
        update = bool(rng.rand() < 0.7)
        history.append((table, update))
        vocab.compute_probs(table, update_class_probs=update)
        spec.counts = {w: table.get(w, 0) for w in spec.all_words}
        if update:
            for word in spec.shortlist:
                spec.weight[word] = float(spec.counts[word])
                if word in gen.SPECIALS:
                    spec.weight[word] = max(1.0, spec.weight[word])
        check_probs(mon, vocab, spec)
        unigrams(mon, vocab, spec)
    mon.case({'vocabulary': spec.describe(), 'tables': history})


def sampled(rng, mon):
    """Words drawn from a class follow the membership probabilities."""
    spec = gen.vocab_input(rng, size=4 + rng.randint(8))
    vocab = gen.build_vocab(rng, spec)
    class_id = rng.randint(vocab.num_classes())
    number = 3000
    drawn = vocab.class_ids_to_word_ids([class_id] * number)
    mon.case(dict(spec.describe(), class_id=int(class_id)))
    mon.check(len(drawn) == number, 'sample-size', 'wrong number of words drawn')
    for word in spec.shortlist:
        word_id = vocab.word_to_id[word]
        if vocab.word_id_to_class_id[word_id] != class_id:
            continue
        p = spec.membership(word)
        seen = sum(1 for x in drawn if x == word_id)
        sigma = (number * p * (1 - p)) ** 0.5
        mon.count('draws compared', seen)
        mon.check(abs(seen - number * p) <= 6.5 * sigma + 1, 'sample-frequency',
                  '%r drawn %d times of %d, membership probability %g' % (word, seen, number, p))


ARCHITECTURE = 'input type=class name=in\nlayer type=projection name=proj input=in size=2\nlayer type=softmax name=out input=proj\n'


def train(path, texts, options):
    from vf import cli
    argv = ['train', path, '--training-set'] + [gen.tmp_file(t) for t in texts] + options + [
        '--architecture', gen.tmp_file(ARCHITECTURE, '.arch'), '--batch-size', 4, '--sequence-length', 20, '--max-epochs', 1,
        '--learning-rate', 0.001, '--num-noise-samples', 1, '--log-file', gen.tmp_path('.log')]
    return cli.theanolm(*argv)


def counted(texts):
    result = {}
    for line in ''.join(t if t.endswith('\n') else t + '\n' for t in texts).split('\n'):
        if line.split():
            for token in gen.expected_utterance(line.split()):
                result[token] = result.get(token, 0) + 1
    return result


def command(rng, mon):
    """The vocabulary of a model that the train command has made."""
    import h5py
    from theanolm.vocabulary import Vocabulary
    spec = gen.vocab_input(rng, size=2 + rng.randint(8), oos=False, simple=True)
    pool = [w for w in spec.shortlist if w not in ('<s>', '</s>')]
    given = spec.kind not in ('counts', 'counts-classes')
    extra = [w for w in gen.words(rng, 1 + rng.randint(6), simple=True) if w not in spec.shortlist]

    def text():
        chosen = [w for w in pool if rng.rand() < 0.7] + [w for w in extra if rng.rand() < 0.6]
        chosen = chosen or [pool[0]]
        lines = []
        for _ in range(3 + rng.randint(12)):
            tokens = [gen.pick(rng, chosen) for _ in range(1 + rng.randint(6))]
            if rng.rand() < 0.15:
                tokens.insert(0, '<s>')
            if rng.rand() < 0.15:
                tokens.append('</s>')
            lines.append(' '.join(tokens))
        return '\n'.join(lines) + '\n'
    texts = [text() for _ in range(1 + (rng.rand() < 0.4))]
    table = counted(texts)
    options = []
    if given:
        options = ['--vocabulary', gen.tmp_file(spec.file_text, '.vocab'), '--vocabulary-format', spec.kind]
        spec.oos = [w for w in table if w not in spec.shortlist]
    else:
        # The special tokens are not counted when the vocabulary is made of the training text.
        spec.shortlist = [w for w in table if w not in gen.SPECIALS] + gen.SPECIALS
        if len(spec.shortlist) == len(gen.SPECIALS):
            return
        spec.label = {w: w for w in spec.shortlist}
        if spec.kind == 'counts-classes':
            options = ['--num-classes', 1 + rng.randint(4)]
    path = gen.tmp_path('.h5')
    mon.case({'vocabulary': spec.describe(), 'texts': texts, 'options': options[2:] if given else options})
    result = train(path, texts, options)
    mon.check(result.code == 0, 'command', 'theanolm train failed: %r' % result)
    with h5py.File(path, 'r') as state:
        vocab = Vocabulary.from_state(state)
    mon.check(sorted(str(w) for w in vocab.id_to_word) == sorted(spec.all_words), 'command-words',
              'the words of the model are %r, expected %r' % ([str(w) for w in vocab.id_to_word], spec.all_words))
    spec.counts = {w: table.get(w, 0) for w in spec.all_words}
    if not given:
        spec.counts.update({w: 0 for w in gen.SPECIALS})
        for word in spec.shortlist:
            spec.label[word] = int(vocab.word_id_to_class_id[vocab.word_to_id[word]])
    if spec.kind in ('counts', 'counts-classes', 'classes'):
        for word in spec.shortlist:
            spec.weight[word] = float(max(spec.counts[word], 1 if word in gen.SPECIALS else 0))
    mon.count('models of the train command')
    mon.count('train command with ' + spec.kind)
    check_probs(mon, vocab, spec)
    unigrams(mon, vocab, spec)
    # Training is continued with another text. A model of an earlier version has neither unigram probabilities nor
    # out-of-shortlist words; they are then computed, and nothing else changes. Otherwise the vocabulary stays as it is.
    others = texts
    old = rng.rand() < 0.6
    if rng.rand() < 0.5:
        # Only the vocabulary is kept; the text may be another.
        others = [text()]
        with h5py.File(path, 'a') as state:
            for name in [n for n in state.keys() if n != 'vocabulary']:
                del state[name]
    if old:
        with h5py.File(path, 'a') as state:
            words = state['vocabulary/words'][:][:len(spec.shortlist)]
            del state['vocabulary/unigram_probs'], state['vocabulary/words']
            state['vocabulary'].create_dataset('words', data=words, dtype=h5py.special_dtype(vlen=str))
        table = counted(others)
        spec.oos = [w for w in table if w not in spec.shortlist]
        spec.counts = {w: table.get(w, 0) for w in spec.all_words}
        mon.count('models without unigram probabilities')
    result = train(path, others, options if rng.rand() < 0.5 else [])
    mon.check(result.code == 0, 'command', 'theanolm train failed to continue: %r' % result)
    with h5py.File(path, 'r') as state:
        vocab = Vocabulary.from_state(state)
    mon.check(sorted(str(w) for w in vocab.id_to_word) == sorted(spec.all_words), 'continued-words',
              'the words of the model are %r, expected %r' % ([str(w) for w in vocab.id_to_word], spec.all_words))
    mon.count('trainings continued')
    check_probs(mon, vocab, spec)
    unigrams(mon, vocab, spec)


FAMILIES = [
    dict(name='random', fn=random_vocabulary, quick=7500, thorough=12500),
    dict(name='recomputed', fn=recomputed, quick=4500, thorough=7500),
    dict(name='sampled', fn=sampled, quick=600, thorough=1000),
    dict(name='command', fn=command, quick=80, thorough=500),
]
