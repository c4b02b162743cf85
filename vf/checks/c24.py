"""C24: generated text follows the model."""

import numpy

from vf import cli, gen, nets

RULE = ('Many sequences are generated from random recurrent networks with small vocabularies (classes, zero probability members, '
        'out-of-shortlist words), with and without seed texts. For every prefix that occurs, the next words are compared with the '
        'distribution that a mini-batch network with the same parameters gives to that prefix (pooled chi-square per model, position '
        'and prefix), and every word must have positive probability. The sample command is compared with the same distributions. '
        'Non-trivial: more than one sequence was generated. Distinct by model and seed text.')
REQUIRED = ['words generated', 'prefixes compared', 'goodness of fit tests', 'impossible words avoided', 'seeded sequences', 'class vocabularies',
            'recurrent models', 'sequences continued after the end', 'commands', 'sentences printed', 'sentences ended', 'unlisted seed words',
            'out-of-shortlist seed words']
ASSUMPTIONS = ['A sampling defect that changes no next-word distribution by more than a few per cent is below the resolution of the tests; '
               'the thresholds are set for a false alarm probability of 1e-9 per test.']
LIMIT = 1e-9


def setup(rng, mon, size=None):
    if rng.rand() < 0.5:
        # large classes
        spec = gen.vocab_input(rng, 'counts-classes', size=(size or 2 + rng.randint(5)) + 2)
        vocab = gen.build_vocab(rng, spec, classes=1 + rng.randint(3))
    else:
        vocab, spec = gen.vocab(rng, size=size or 2 + rng.randint(5), positive=rng.rand() < 0.4)
    description = gen.architecture_text(rng, stepwise=True, max_hidden=2, size=3)
    if 'lstm' in description or 'gru' in description:
        mon.count('recurrent models')
    network = gen.network(rng, description, vocab, scale=1.5, minibatch=False)
    batch = gen.network(rng, description, vocab, minibatch=True)
    gen.copy_parameters(network, batch)
    if vocab.num_classes() < vocab.num_shortlist_words():
        mon.count('class vocabularies')
    return vocab, spec, description, network, Model(batch, vocab)


class Model(object):
    def __init__(self, network, vocab):
        self.vocab = vocab
        self.function = nets.output_function(network)
        self.memberships = numpy.array([vocab.get_word_prob(i) for i in range(vocab.num_shortlist_words())], dtype='float64')
        self.classes = numpy.asarray(vocab.word_id_to_class_id)[:vocab.num_shortlist_words()]

    def next_word(self, prefixes):
        """Word distributions after equally long prefixes of word IDs."""
        ids = numpy.array(prefixes, dtype='int64').T
        classes = self.classes[ids]
        mask = numpy.ones(ids.shape, dtype='int8')
        output = self.function(ids, classes, mask, 0)[-1]
        # The unused leaves of a hierarchical softmax are never drawn.
        output = output / output.sum(axis=1, keepdims=True)
        return output[:, self.classes] * self.memberships


def chi_square(expected, observed):
    """p value, cells of small expectation pooled with others of similar
    expectation."""
    from scipy import stats
    order = numpy.argsort(-expected)
    cells = []
    rest_e = rest_o = 0.0
    for i in order:
        if expected[i] >= 8:
            cells.append((expected[i], observed[i]))
        else:
            rest_e += expected[i]
            rest_o += observed[i]
            if rest_e >= 25:
                cells.append((rest_e, rest_o))
                rest_e = rest_o = 0.0
    if rest_e >= 8:
        cells.append((rest_e, rest_o))
    elif cells:
        e, o = cells.pop()
        cells.append((e + rest_e, o + rest_o))
    if len(cells) < 2:
        return None
    e, o = numpy.array(cells).T
    statistic = ((o - e) ** 2 / e).sum()
    return stats.chi2.sf(statistic, len(cells) - 1)


def judge(mon, model, vocab, sequences, first, what):
    """sequences: equally long lists of (input) word IDs; the words from position
    first on were drawn."""
    length = len(sequences[0])
    table = numpy.array(sequences)
    for position in range(first, length):
        prefixes, inverse = numpy.unique(table[:, :position], axis=0, return_inverse=True)
        inverse = inverse.ravel()
        distributions = numpy.concatenate([model.next_word(prefixes[i:i + 200]) for i in range(0, len(prefixes), 200)])
        all_expected = numpy.zeros(distributions.shape[1])
        variance = 0.0
        total = 0.0
        for index in range(len(prefixes)):
            drawn = table[inverse == index, position]
            p = distributions[index]
            mon.count('words generated', len(drawn))
            mon.check((drawn < len(p)).all() and (p[drawn] > 0).all(), 'impossible-word',
                      '%s: a word of zero probability was generated after %r' % (what, prefixes[index].tolist()))
            mon.count('impossible words avoided', int((p == 0).sum()))
            mon.count('prefixes compared')
            all_expected += p * len(drawn)
            counts = numpy.bincount(drawn, minlength=len(p)).astype(float)
            value = chi_square(p * len(drawn), counts)
            if value is not None:
                mon.count('goodness of fit tests')
                mon.check(value > LIMIT, 'distribution', '%s: after %r the words %r were drawn, expected %r (p=%g)'
                          % (what, prefixes[index].tolist(), counts.tolist(), (p * len(drawn)).round(1).tolist(), value))
            # Brier-like score of all the draws, also of rare prefixes
            square = (p ** 2).sum()
            total += (p[drawn] - square).sum()
            variance += len(drawn) * max(0.0, (p ** 3).sum() - square ** 2)
        if variance > 0 and len(table) > 100:
            z = total / numpy.sqrt(variance + 1e-12)
            mon.maximum('largest deviation', abs(z))
            mon.check(abs(z) < 7.0, 'calibration', '%s: position %d: the words drawn do not follow the model given their own sequence (z=%.2f)'
                      % (what, position, z))


def seed_words(rng, mon, vocab, spec, number):
    """Returns the seed words, as given, as expected in the output, and input IDs."""
    listed = [w for w in spec.shortlist if w not in ('<s>', '</s>')]
    given, shown, ids = [], [], []
    unk = vocab.word_to_id['<unk>']
    for _ in range(number):
        u = rng.rand()
        if u < 0.15:
            given.append('not-listed-anywhere')
            shown.append(None)
            ids.append(unk)
            mon.count('unlisted seed words')
        elif u < 0.45 and spec.oos:
            word = gen.pick(rng, spec.oos)
            given.append(word)
            shown.append(None)
            ids.append(unk)
            mon.count('out-of-shortlist seed words')
        else:
            word = gen.pick(rng, listed)
            given.append(word)
            shown.append(word)
            ids.append(vocab.word_to_id[word])
    return given, shown, ids


def check_sequences(mon, vocab, spec, sequences, number, length, given, shown, ids, what):
    """Form of the generated sequences; returns input word IDs."""
    mon.check(len(sequences) == number, 'number', '%s: %d sequences, requested %d' % (what, len(sequences), number))
    result = []
    for sequence in sequences:
        mon.check(len(sequence) == length + len(given), 'length', '%s: %d tokens, requested %d after %d seed words'
                  % (what, len(sequence), length, len(given)))
        mon.check(sequence[0] == '<s>', 'start', '%s: the sequence begins with %r' % (what, sequence[0]))
        for index, (word, expected) in enumerate(zip(sequence[1:], shown)):
            if expected is not None:
                mon.check(word == expected, 'seed', '%s: %r instead of the seed %r' % (what, word, expected))
            else:
                mon.check(word in (given[index], '<unk>'), 'seed', '%s: %r instead of the seed %r' % (what, word, given[index]))
        drawn = sequence[1 + len(given):]
        mon.check(all(w in spec.shortlist for w in drawn), 'vocabulary', '%s: generated words %r' % (what, drawn))
        result.append([vocab.word_to_id['<s>']] + list(ids) + [vocab.word_to_id[w] for w in drawn])
        if '</s>' in drawn[:-1]:
            mon.count('sequences continued after the end')
    return result


def distribution(rng, mon):
    from theanolm import TextSampler
    large = rng.rand() < 0.15
    mon.count('distributions of large vocabularies', large)
    vocab, spec, description, network, model = setup(rng, mon, size=60 + rng.randint(200) if large else None)
    sampler = TextSampler(network)
    for _ in range(2):
        number = gen.pick(rng, [300, 600, 900])
        length = 2 + rng.randint(4)
        given, shown, ids = seed_words(rng, mon, vocab, spec, gen.pick(rng, [0, 0, 1, 2, 3]))
        mon.case([description, spec.describe(), given, number, length])
        what = 'generate(%d, %d, %r)' % (length, number, ' '.join(given))
        if given:
            mon.count('seeded sequences', number)
            sequences = sampler.generate(length, number, ' '.join(given))
        else:
            sequences = sampler.generate(length, number)
        ids_list = check_sequences(mon, vocab, spec, sequences, number, length, given, shown, ids, what)
        judge(mon, model, vocab, ids_list, 1 + len(given), what)


def forms(rng, mon):
    """Small numbers of sequences and lengths."""
    from theanolm import TextSampler
    vocab, spec, description, network, model = setup(rng, mon, size=2 + rng.randint(12))
    sampler = TextSampler(network)
    for _ in range(6):
        number = 1 + rng.randint(4)
        length = 1 + rng.randint(8)
        if rng.rand() < 0.08:
            number, length = 1 + rng.randint(40), 30 + rng.randint(60)
            mon.count('long sequences')
        given, shown, ids = seed_words(rng, mon, vocab, spec, rng.randint(5))
        mon.case([description, spec.describe(), given, number, length], nontrivial=number > 1)
        what = 'generate(%d, %d, %r)' % (length, number, ' '.join(given))
        space = gen.pick(rng, [' ', '  ', '\t'])
        sequences = sampler.generate(length, number, gen.pick(rng, ['', ' ']) + space.join(given) + gen.pick(rng, ['', '\n']))
        mon.count('seeded sequences', number if given else 0)
        ids_list = check_sequences(mon, vocab, spec, sequences, number, length, given, shown, ids, what)
        judge(mon, model, vocab, ids_list, 1 + len(given), what)


def command(rng, mon):
    vocab, spec, description, network, model = setup(rng, mon, size=2 + rng.randint(4))
    path = gen.tmp_path('.h5')
    gen.save_model(network, path)
    number = gen.pick(rng, [1, 3, 400])
    length = gen.pick(rng, [2, 4, 8])
    given, shown, ids = seed_words(rng, mon, vocab, spec, gen.pick(rng, [0, 0, 1, 2]))
    argv = ['sample', path, '--num-sentences', number, '--sentence-length', length]
    if given:
        argv += ['--seed-sequence= ' + ' '.join(given)]
    if rng.rand() < 0.5:
        argv += ['--random-seed', rng.randint(1000)]
    output = None
    if rng.rand() < 0.5:
        output = gen.tmp_path('.txt')
        argv += ['--output-file', output]
    mon.case([description, spec.describe(), given, number, length], nontrivial=number > 1)
    result = cli.theanolm(*argv)
    mon.count('commands')
    mon.check(result.code == 0, 'command', 'theanolm sample failed: %r' % result)
    text = result.out
    if output:
        with open(output, encoding='utf-8', newline='\n') as f:
            text = f.read()
    mon.check(text.endswith('\n'), 'output', 'the output does not end with a newline')
    lines = text[:-1].split('\n')
    mon.check(len(lines) == number, 'number', '%d lines printed, requested %d' % (len(lines), number))
    groups = {}
    for line in lines:
        words = line.split(' ')
        mon.count('sentences printed')
        drawn = words[1 + len(given):]
        mon.check(words[0] == '<s>', 'start', 'the line %r does not begin with <s>' % line)
        mon.check('</s>' not in words[:-1], 'end', 'the line %r continues after the sentence end' % line)
        full = length + len(given)
        if words[-1] == '</s>':
            mon.count('sentences ended')
            mon.check(len(words) <= full, 'length', 'the line %r has more than %d tokens' % (line, full))
        else:
            mon.check(len(words) == full, 'length', 'the line %r has not %d tokens' % (line, full))
        mon.check(all(w in spec.shortlist for w in drawn), 'vocabulary', 'words printed: %r' % drawn)
        for index, expected in enumerate(shown):
            if expected is not None:
                mon.check(words[1 + index] == expected, 'seed', 'the line %r does not contain the seed %r' % (line, given))
        sequence = [vocab.word_to_id['<s>']] + list(ids) + [vocab.word_to_id[w] for w in drawn]
        for position in range(1 + len(given), len(sequence)):
            groups.setdefault(position, []).append(sequence[:position + 1])
    for position, sequences in groups.items():
        judge(mon, model, vocab, sequences, position, 'theanolm sample')


FAMILIES = [
    dict(name='distribution', fn=distribution, quick=40, thorough=400),
    dict(name='forms', fn=forms, quick=40, thorough=400),
    dict(name='command', fn=command, quick=50, thorough=500),
]
