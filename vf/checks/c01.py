"""C01: one consistent word-ID-class mapping, however the vocabulary is made."""

import io
import numpy

from vf import gen, cli

RULE = ('Random vocabulary inputs in all five forms (word list, class file, SRILM class file, word counts with and '
        'without a number of classes) with Unicode and odd words, listed or missing special tokens, repeated '
        'out-of-shortlist candidates; plus malformed files and vocabularies made by the train command. Non-trivial: '
        'the vocabulary has at least one ordinary word; distinct by the whole input.')
REQUIRED = ['words mapped', 'classes compared', 'malformed files', 'models trained']


def check_vocab(mon, vocab, spec):
    """The monitor: walks the whole live vocabulary."""
    short, oos = spec.shortlist, spec.oos
    mon.check(vocab.num_words() == len(short) + len(oos), 'num-words',
              'vocabulary has %d words, input has %d' % (vocab.num_words(), len(short) + len(oos)))
    mon.check(vocab.num_shortlist_words() == len(short), 'num-shortlist',
              'shortlist has %d words, input has %d' % (vocab.num_shortlist_words(), len(short)))
    id_to_word = list(vocab.id_to_word)
    mon.check(len(set(id_to_word)) == len(id_to_word), 'duplicate-word', 'a word has several IDs: %r' % id_to_word)
    mon.check(set(id_to_word[:len(short)]) == set(short), 'shortlist-ids',
              'IDs below the shortlist size are %r, expected the words %r' % (id_to_word[:len(short)], short))
    mon.check(set(id_to_word[len(short):]) == set(oos), 'oos-ids',
              'IDs above the shortlist are %r, expected %r' % (id_to_word[len(short):], oos))
    mon.check(sorted(vocab.words()) == sorted(short + oos), 'words-generator', 'words() differs from the input')
    ids = vocab.words_to_ids(short + oos)
    mon.check(sorted(int(x) for x in ids) == list(range(len(short) + len(oos))), 'ids-not-consecutive',
              'IDs are %r' % list(ids))
    for word, word_id in zip(short + oos, ids):
        mon.count('words mapped')
        mon.check(vocab.id_to_word[word_id] == word, 'id-to-word', 'ID %d of %r is the word %r' % (word_id, word, vocab.id_to_word[word_id]))
        mon.check(word in vocab, 'contains', '%r is not in the vocabulary' % word)
        mon.check(vocab.word_to_id[word] == word_id, 'word-to-id', 'two IDs for %r' % word)
        mon.check(bool(vocab.in_shortlist(int(word_id))) == (word in spec.label), 'in-shortlist',
                  'shortlist membership of %r is wrong' % word)
    for token in gen.SPECIALS:
        mon.check(token in vocab and vocab.in_shortlist(vocab.word_to_id[token]), 'special-missing',
                  '%s is not in the shortlist' % token)
    # classes
    short_ids = vocab.words_to_ids(short)
    class_ids, _ = vocab.get_class_memberships(numpy.array(short_ids))
    mon.check(set(int(x) for x in class_ids) == set(range(vocab.num_classes())), 'class-ids',
              'class IDs %r are not 0..%d' % (sorted(set(class_ids.tolist())), vocab.num_classes() - 1))
    by_label, by_class = {}, {}
    for word, class_id in zip(short, class_ids):
        mon.count('classes compared')
        mon.check(int(vocab.word_id_to_class_id[vocab.word_to_id[word]]) == int(class_id), 'class-lookup',
                  'two classes reported for %r' % word)
        first = by_label.setdefault(spec.label[word], class_id)
        mon.check(first == class_id, 'class-split', '%r is not in the class of the words it shares a label with' % word)
        label = by_class.setdefault(int(class_id), spec.label[word])
        mon.check(label == spec.label[word], 'class-merge', '%r shares a class with words of another label' % word)
    mon.check(vocab.num_classes() == len(set(spec.label[w] for w in short)), 'num-classes',
              '%d classes, expected %d' % (vocab.num_classes(), len(set(spec.label[w] for w in short))))
    # unknown words
    unk_id = vocab.word_to_id['<unk>']
    unknown = ['zzz-not-there', 'ööö-not-there', '<S>>']
    mon.check(all(int(x) == unk_id for x in vocab.words_to_ids(unknown)), 'oov-id', 'unknown words are not mapped to <unk>')
    mon.check(not any(w in vocab for w in unknown), 'oov-contains', 'unknown word reported as known')
    matrix = numpy.array([vocab.words_to_ids(oos[:1] * 2 + ['<unk>']).tolist() if oos else [unk_id] * 3,
                          [unk_id] * 3], dtype='int64')
    before = matrix.copy()
    cls, probs = vocab.get_class_memberships(matrix)
    mon.check(numpy.array_equal(matrix, before), 'memberships-mutates', 'looking up classes changed its argument')
    mon.check(cls.shape == matrix.shape and probs.shape == matrix.shape, 'membership-shape', 'wrong shape')
    unk_class = vocab.word_id_to_class_id[unk_id]
    mon.check(bool((cls == unk_class).all()), 'oos-class', 'out-of-shortlist words are not mapped to the class of <unk>')
    mon.check(bool(numpy.allclose(probs, vocab.get_word_prob(unk_id))), 'oos-membership',
              'out-of-shortlist words do not get the membership probability of <unk>')
    # mapping classes back to words stays inside the class
    for class_id in range(vocab.num_classes()):
        for word_id in vocab.class_ids_to_word_ids([class_id] * 3):
            mon.check(int(vocab.word_id_to_class_id[word_id]) == class_id, 'class-to-word',
                      'class %d was mapped to a word of another class' % class_id)


def large(rng, mon):
    from_input(rng, mon, 100 + rng.randint(900))
    mon.count('large vocabularies')


def from_input(rng, mon, size=None):
    spec = gen.vocab_input(rng, size=size or 1 + rng.randint(25))
    counts = 'random' if rng.rand() < 0.7 else None
    vocab = gen.build_vocab(rng, spec, counts=counts)
    mon.case(spec.describe())
    check_vocab(mon, vocab, spec)
    if spec.kind == 'counts-classes':
        # The special tokens are separate classes, the rest is divided evenly
        # between the requested number of classes.
        names = [w for w in spec.shortlist if w not in gen.SPECIALS]
        sizes = {}
        for word in names:
            sizes[spec.label[word]] = sizes.get(spec.label[word], 0) + 1
        mon.check(len(sizes) == min(spec.num_classes, len(names)), 'requested-classes',
                  '%d classes of ordinary words, %d requested for %d words' % (len(sizes), spec.num_classes, len(names)))
        for token in gen.SPECIALS:
            mon.check(len(spec.members(token)) == 1, 'special-class', '%s shares a class' % token)


def file_ids_are_labels(rng, mon):
    """Class labels are only names: renaming them and reordering the file keeps
    the partition."""
    spec = gen.vocab_input(rng, kind='classes', size=3 + rng.randint(10), oos=False)
    from theanolm.vocabulary import Vocabulary
    vocab = Vocabulary.from_file(io.StringIO(spec.file_text), 'classes')
    lines = [line.split() for line in spec.file_text.splitlines() if line.split()]
    renamed = {}
    for _, label in lines:
        renamed.setdefault(label, str(1000 + 7 * len(renamed)) if rng.rand() < 0.5 else str(len(renamed) * 3))
    if len(set(renamed.values())) != len(renamed):
        renamed = {label: str(5 + 2 * i) for i, label in enumerate(renamed)}
    order = rng.permutation(len(lines))
    other = Vocabulary.from_file(io.StringIO('\n'.join('%s %s' % (lines[i][0], renamed[lines[i][1]]) for i in order)), 'classes')
    mon.case(spec.file_text)
    for a in spec.shortlist:
        for b in spec.shortlist:
            same = [v.word_id_to_class_id[v.word_to_id[a]] == v.word_id_to_class_id[v.word_to_id[b]] for v in (vocab, other)]
            mon.check(same[0] == same[1], 'partition-changed', 'renaming class labels changed the partition')
            mon.count('classes compared')


def malformed(rng, mon):
    from theanolm.vocabulary import Vocabulary
    from theanolm.backend import InputError
    spec = gen.vocab_input(rng, kind=gen.pick(rng, ['words', 'classes', 'srilm-classes']), size=2 + rng.randint(6))
    lines = [line.strip() for line in spec.file_text.splitlines() if line.strip()]
    place = rng.randint(len(lines) + 1)
    sample = gen.pick(rng, lines).split()
    choice = rng.randint(3)
    if choice == 0:
        # repeated word, possibly with another label
        sample = list(sample)
        if spec.kind == 'classes' and rng.rand() < 0.5:
            sample[1] = '77'
        if spec.kind == 'srilm-classes' and rng.rand() < 0.5:
            sample[0] = 'CLASS-x'
        bad = ' '.join(sample)
        place = len(lines) if rng.rand() < 0.5 else place
    elif choice == 1:
        bad = ' '.join(sample + ['extra' if spec.kind != 'classes' else '4'])
        bad = bad.replace(sample[0], sample[0] + 'q', 1) if spec.kind != 'srilm-classes' else bad + 'q'
    else:
        if spec.kind == 'words':
            bad = 'two words'
        elif spec.kind == 'classes':
            bad = 'onlyword'
        else:
            bad = 'CLASS-x otherword'
    lines.insert(place, bad)
    mon.case({'format': spec.kind, 'lines': lines})
    mon.count('malformed files')
    try:
        Vocabulary.from_file(io.StringIO('\n'.join(lines) + '\n'), spec.kind)
    except InputError:
        mon.check(True, '', '')
        return
    mon.fail('malformed-accepted', 'a malformed %s vocabulary was accepted: %r' % (spec.kind, lines))


ARCH = 'input type=class name=i\nlayer type=projection name=p input=i size=2\nlayer type=softmax name=o input=p\n'


def trained(rng, mon):
    """The vocabulary that the train command stores in the model."""
    import h5py
    from theanolm.vocabulary import Vocabulary
    kind = gen.pick(rng, ['counts', 'counts-classes', 'words', 'classes', 'srilm-classes'])
    spec = gen.vocab_input(rng, kind=kind, size=3 + rng.randint(6), oos=False)
    pool = [w for w in spec.shortlist if w not in gen.SPECIALS]
    extra = [w for w in gen.words(rng, 3) if w not in spec.shortlist]
    files = []
    seen = []
    for _ in range(1 + rng.randint(2)):
        content, lines = gen.text(rng, pool + extra, 4 + rng.randint(6), oov=0.0, max_len=6, min_len=1)
        files.append(gen.tmp_file(content))
        for tokens in lines:
            for token in tokens:
                if token not in seen:
                    seen.append(token)
    model = gen.tmp_path('.h5')
    arch = gen.tmp_file(ARCH, '.arch')
    argv = ['train', model, '--training-set'] + files + \
           ['--architecture', arch, '--max-epochs', '1', '--batch-size', '4', '--num-noise-samples', '1', '--log-level', 'warn']
    if kind in ('words', 'classes', 'srilm-classes'):
        argv += ['--vocabulary', gen.tmp_file(spec.file_text), '--vocabulary-format', kind]
        spec.oos = [w for w in seen if w not in spec.shortlist]
    else:
        spec.shortlist = [w for w in seen if w not in gen.SPECIALS] + gen.SPECIALS
        spec.oos = []
        if kind == 'counts-classes':
            argv += ['--num-classes', str(1 + rng.randint(4))]
    result = cli.theanolm(*argv)
    if result.code != 0:
        mon.fail('train-failed', 'training failed on valid input: %r' % result)
    mon.case({'argv': argv[2:], 'vocabulary': spec.describe() if spec.file_text else spec.shortlist})
    mon.count('models trained')
    with h5py.File(model, 'r') as state:
        vocab = Vocabulary.from_state(state)
        if kind in ('counts', 'counts-classes'):
            for word in spec.shortlist:
                spec.label[word] = word if kind == 'counts' else int(vocab.word_id_to_class_id[vocab.word_to_id[word]])
            spec.label = {w: spec.label[w] for w in spec.shortlist}
        check_vocab(mon, vocab, spec)


FAMILIES = [
    dict(name='input', fn=from_input, quick=3750, thorough=8000),
    dict(name='large', fn=large, quick=40, thorough=200),
    dict(name='labels', fn=file_ids_are_labels, quick=600, thorough=1200),
    dict(name='malformed', fn=malformed, quick=1800, thorough=3600),
    dict(name='trained', fn=trained, quick=180, thorough=360),
]
