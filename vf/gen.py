"""Random inputs: words, vocabularies with an independent specification, texts,
architectures and networks."""

import io
import itertools
import os

import numpy

from vf.core import SCRATCH

SPECIALS = ['<s>', '</s>', '<unk>']
_counter = itertools.count()

_ALPHABETS = [
    'abcdefghijklmnopqrstuvwxyz',
    'abcABC019',
    'åäöéñçøßžĀŁ',
    '日本語中文字',
    'абвгд',
    "ab'-_.,:;=\"\\#%&*()[]{}|~^/?!@$",
    '😀🎉𝄞',
]
# Tokens that look special but are ordinary words.
ODD_WORDS = ['<w>', '<unk', 'unk>', '<S>', '</S>', '<UNK>', '<S', '+', '++', '#', '-', '0',
             '1', 'nan', 'inf', 'None', '!NULL', '<eps>', '<', '>', '<s', 's>', '\ufeffa', '\u200bx',
             'cafe\u0301', 'caf\u00e9']


def tmp_path(suffix=''):
    return os.path.join(SCRATCH, 'f%d-%d%s' % (os.getpid(), next(_counter), suffix))


def tmp_file(text, suffix='.txt'):
    path = tmp_path(suffix)
    with open(path, 'w', encoding='utf-8', newline='') as f:
        f.write(text)
    return path


def pick(rng, seq):
    return seq[rng.randint(len(seq))]


def words(rng, number, odd=True, simple=False):
    """Distinct tokens without white space, none of them a special token."""
    result = []
    seen = set(SPECIALS)
    while len(result) < number:
        if odd and not simple and rng.rand() < 0.08:
            word = pick(rng, ODD_WORDS)
        else:
            alphabet = _ALPHABETS[0] if simple or rng.rand() < 0.6 else pick(rng, _ALPHABETS)
            length = 1 + rng.randint(6)
            word = ''.join(pick(rng, alphabet) for _ in range(length))
        if word in seen or len(word.split()) != 1 or word.split()[0] != word:
            continue
        seen.add(word)
        result.append(word)
    return result


class VocabSpec(object):
    """What the vocabulary must be, derived from the input only."""

    def __init__(self):
        self.kind = None
        self.shortlist = []      # words, specials included
        self.oos = []
        self.label = {}          # shortlist word -> class label
        self.weight = {}         # shortlist word -> unnormalised membership
        self.counts = None       # word -> count used for unigram probabilities
        self.file_text = None

    @property
    def all_words(self):
        return self.shortlist + self.oos

    def members(self, word):
        label = self.label[word]
        return [w for w in self.shortlist if self.label[w] == label]

    def membership(self, word):
        total = sum(self.weight[w] for w in self.members(word))
        if total > 0:
            return self.weight[word] / total
        return 1.0 / len(self.members(word))

    def describe(self):
        return {'kind': self.kind, 'shortlist': self.shortlist, 'oos': self.oos,
                'labels': [str(self.label[w]) for w in self.shortlist]}


KINDS = ['counts', 'counts-classes', 'words', 'classes', 'srilm-classes']


def random_counts(rng, vocab_words, zero=0.15):
    counts = {}
    for word in vocab_words:
        u = rng.rand()
        if u < zero:
            counts[word] = 0
        elif u < 0.5:
            counts[word] = 1 + rng.randint(5)
        else:
            counts[word] = 1 + rng.randint(1000)
    return counts


def some(rng, usual, large=None, often=0.05):
    """A number up to the usual one, or sometimes a large one."""
    if rng.rand() < often:
        return (large or 15 * usual) // 3 + rng.randint((large or 15 * usual) * 2 // 3)
    return rng.randint(usual)


def vocab_input(rng, kind=None, size=None, oos=None, simple=False, specials=None, include=(), unit=1.0):
    """Returns a VocabSpec for a random vocabulary input."""
    spec = VocabSpec()
    spec.kind = kind or pick(rng, KINDS)
    size = size or 1 + rng.randint(12)
    names = words(rng, size, simple=simple)
    names += [w for w in include if w not in names]
    if spec.kind in ('counts', 'counts-classes'):
        oos = False
    elif oos is None:
        oos = rng.rand() < 0.5
    given_specials = [s for s in SPECIALS if (rng.rand() < 0.3 if specials is None else specials)]

    if spec.kind in ('counts', 'counts-classes'):
        spec.shortlist = names + SPECIALS
        for index, word in enumerate(spec.shortlist):
            spec.label[word] = word
    else:
        listed = names + given_specials
        listed = [listed[i] for i in rng.permutation(len(listed))]
        spec.shortlist = listed + [s for s in SPECIALS if s not in listed]
        lines = []
        if spec.kind == 'words':
            for word in listed:
                spec.label[word] = word
                spec.weight[word] = 1.0
                lines.append(word)
        elif spec.kind == 'classes':
            pool = [int(x) for x in rng.randint(-3, 50, size=1 + rng.randint(max(1, size)))]
            for word in listed:
                label = pick(rng, pool)
                if word in SPECIALS and rng.rand() < 0.7:
                    label = 1000 + SPECIALS.index(word)
                spec.label[word] = label
                spec.weight[word] = 1.0
                lines.append('%s%s%d' % (word, pick(rng, [' ', '\t', '   ']), label))
        else:
            pool = words(rng, 1 + rng.randint(max(1, size)), simple=simple)
            pool = ['C' + p for p in pool]
            for word in listed:
                label = pick(rng, pool)
                if word in SPECIALS and rng.rand() < 0.7:
                    label = 'CLASS-' + word
                spec.label[word] = label
                spec.weight[word] = pick(rng, [0.5, 0.25, 1.0, 0.1, 1e-6, 0.0, float(rng.rand()) + 1e-3]) * unit
                lines.append(' '.join([label, repr(spec.weight[word]), word]))
        for word in spec.shortlist[len(listed):]:
            spec.label[word] = ('special', word)
            spec.weight[word] = 1.0
        text = ''
        for line in lines:
            if rng.rand() < 0.1:
                text += pick(rng, ['\n', '  \n', '\t\n'])
            if rng.rand() < 0.1:
                line = pick(rng, [' ', '\t']) + line + pick(rng, ['', '  '])
            text += line + '\n'
        if rng.rand() < 0.2 and text.endswith('\n'):
            text = text[:-1]
        spec.file_text = text
        if oos:
            extra = [w for w in words(rng, 1 + rng.randint(8), simple=simple) if w not in spec.shortlist]
            spec.oos = extra
    return spec


def build_vocab(rng, spec, counts='random', with_class_probs=True, classes=None, zero_oos=True):
    """Builds the real vocabulary for the specification."""
    from theanolm.vocabulary import Vocabulary
    if spec.kind in ('counts', 'counts-classes'):
        names = [w for w in spec.shortlist if w not in SPECIALS]
        given = random_counts(rng, names, zero=0.1)
        passed = dict(given)
        for token in SPECIALS:
            if rng.rand() < 0.5:
                passed[token] = rng.randint(100)
        items = list(passed.items())
        passed = dict(items[i] for i in rng.permutation(len(items)))
        num_classes = None
        if spec.kind == 'counts-classes':
            num_classes = classes or 1 + rng.randint(len(names) + 1)
        vocab = Vocabulary.from_word_counts(passed, num_classes)
        spec.num_classes = num_classes
        spec.counts = given
        if num_classes is not None:
            # The grouping is up to the implementation; it is read back and
            # checked separately.
            for word in spec.shortlist:
                spec.label[word] = int(vocab.word_id_to_class_id[vocab.word_to_id[word]])
        for word in spec.shortlist:
            spec.weight[word] = float(given.get(word, 0))
            if word in SPECIALS:
                spec.weight[word] = 1.0
        return vocab
    passed_oos = None
    if spec.oos or rng.rand() < 0.3:
        passed_oos = list(spec.oos)
        # Words of the shortlist may be repeated among the candidates.
        passed_oos += [w for w in spec.shortlist if rng.rand() < 0.3]
        passed_oos = [passed_oos[i] for i in rng.permutation(len(passed_oos))]
        spec.oos = [w for w in passed_oos if w not in spec.shortlist]
    vocab = Vocabulary.from_file(io.StringIO(spec.file_text), spec.kind, passed_oos)
    if counts == 'random':
        table = random_counts(rng, spec.all_words)
        if spec.oos:
            table[spec.oos[0]] = max(1, table[spec.oos[0]])
            if not zero_oos:
                # In training, OOS words are words that were seen.
                for word in spec.oos:
                    table[word] = max(1, table[word])
        table = {w: c for w, c in table.items() if c > 0 or rng.rand() < 0.5}
        if rng.rand() < 0.5:
            table['not-in-vocabulary'] = 17
        update = with_class_probs and spec.kind != 'srilm-classes'
        vocab.compute_probs(table, update_class_probs=update)
        spec.counts = {w: table.get(w, 0) for w in spec.all_words}
        if update:
            for word in spec.shortlist:
                spec.weight[word] = float(spec.counts[word])
                if word in SPECIALS:
                    spec.weight[word] = max(1.0, spec.weight[word])
    return vocab


def vocab(rng, kind=None, size=None, oos=None, simple=False, positive=False, include=()):
    spec = vocab_input(rng, kind, size, oos, simple, include=include)
    result = build_vocab(rng, spec, zero_oos=False)
    if positive:
        # every word observed at least once
        table = {w: 1 + rng.randint(50) for w in spec.all_words}
        result.compute_probs(table, update_class_probs=True)
        spec.counts = table
        for word in spec.shortlist:
            spec.weight[word] = float(table[word])
    return result, spec


# ----------------------------------------------------------------- texts

def sentence(rng, vocab_words, max_len=8, oov=0.15, markers=0.1, min_len=0):
    length = min_len + rng.randint(max_len - min_len + 1)
    result = []
    for _ in range(length):
        if rng.rand() < oov or not vocab_words:
            result.append(pick(rng, ['oov1', 'oovö2', '<unk>', '???']))
        else:
            result.append(pick(rng, vocab_words))
    if rng.rand() < markers:
        result.insert(0, '<s>')
    if rng.rand() < markers:
        result.append('</s>')
    return result


def expected_utterance(tokens):
    """The word sequence a line of the given tokens stands for."""
    if not tokens:
        return []
    tokens = list(tokens)
    if tokens[0] != '<s>':
        tokens = ['<s>'] + tokens
    if tokens[-1] != '</s>':
        tokens = tokens + ['</s>']
    return tokens


def text(rng, vocab_words, num_lines, **kwargs):
    """Returns (text, list of token lists, one for each line)."""
    lines = []
    result = ''
    for index in range(num_lines):
        tokens = sentence(rng, vocab_words, **kwargs)
        lines.append(tokens)
        sep = ' ' if rng.rand() < 0.8 else pick(rng, ['  ', '\t', ' \t '])
        line = sep.join(tokens)
        if rng.rand() < 0.1:
            line = ' ' + line
        if rng.rand() < 0.1:
            line = line + pick(rng, [' ', '\t', '  ', '\r'])
        result += line + '\n'
    if rng.rand() < 0.3 and result.endswith('\n'):
        result = result[:-1]
        if not result or result.endswith('\n'):
            # the last line was empty: it does not exist any more
            lines = lines[:-1]
    return result, lines


# -------------------------------------------------------- architectures

def architecture_text(rng, stepwise=False, bidirectional=None, output=None, glu=None,
                      dropout=True, max_hidden=3, size=4, inputs=None, force=None, only=None):
    """A random valid architecture description."""
    lines = []
    layers = []                 # (name, size)
    num_inputs = inputs or (1 + (rng.rand() < 0.3))
    types = [pick(rng, ['word', 'class']) for _ in range(num_inputs)]
    if num_inputs == 2:
        types = ['word', 'class']
    projections = []
    for index, kind in enumerate(types):
        name = 'in%d' % index
        lines.append('input type=%s name=%s' % (kind, name))
    for index in range(num_inputs):
        psize = 2 + rng.randint(size)
        name = 'proj%d' % index
        lines.append('layer type=projection name=%s input=in%d size=%d' % (name, index, psize))
        projections.append((name, psize))
    layers.extend(projections)
    options = ['tanh', 'fc', 'lstm', 'gru', 'add', 'highway', 'highwaytanh']
    if dropout:
        options.append('dropout')
    if not stepwise and glu is not False:
        options.append('glu')
    if not stepwise and bidirectional is not False:
        options.extend(['blstm', 'bgru'])
    if only:
        options = list(only)
    hidden = 1 + rng.randint(max_hidden)
    plan = [pick(rng, options) for _ in range(hidden)]
    if force:
        for item in ([force] if isinstance(force, str) else force):
            plan[rng.randint(len(plan))] = item
            if item not in plan:
                plan.append(item)
    used = set()
    current = list(projections)
    for index, kind in enumerate(plan):
        name = 'h%d' % index
        sources = list(current)
        if kind == 'glu' and len(sources) > 1:
            join = 'j%d' % index
            jsize = sum(s for _, s in sources)
            lines.append('layer type=fc name=%s %s size=%d' % (join, ' '.join('input=' + n for n, _ in sources), jsize))
            sources = [(join, jsize)]
        in_size = sum(s for _, s in sources)
        fields = ['type=' + kind, 'name=' + name] + ['input=' + n for n, _ in sources]
        new_size = in_size
        if kind in ('highway', 'highwaytanh', 'dropout'):
            if rng.rand() < 0.5:
                fields.append('size=%d' % in_size)
            if kind == 'dropout':
                fields.append('dropout_rate=%s' % pick(rng, ['0.1', '0.5', '0.9']))
        elif kind == 'add':
            new_size = sources[0][1]
            if rng.rand() < 0.5:
                new_size = 2 + rng.randint(size)
                fields.append('size=%d' % new_size)
        elif rng.rand() < 0.8 or (kind in ('blstm', 'bgru') and in_size < 4):
            new_size = 2 + rng.randint(size)
            if kind in ('blstm', 'bgru'):
                new_size += 2       # at least two units in both directions
            fields.append('size=%d' % new_size)
        if kind == 'glu' and rng.rand() < 0.8:
            fields.append('filter_size=%d' % (1 + rng.randint(4)))
        if kind in ('fc', 'tanh', 'highway') and rng.rand() < 0.5:
            fields.append('activation=%s' % pick(rng, ['tanh', 'relu', 'leakyrelu']))
        lines.append('layer ' + ' '.join(fields))
        current = [(name, new_size)]
        layers.append((name, new_size))
        # skip connections
        if rng.rand() < 0.25 and len(layers) > 1:
            other = layers[rng.randint(len(layers) - 1)]
            current.append(other)
    output = output or pick(rng, ['softmax', 'softmax', 'hsoftmax'])
    lines.append('layer type=%s name=out %s' % (output, ' '.join('input=' + n for n, _ in current)))
    if rng.rand() < 0.2:
        lines.insert(rng.randint(len(lines)), '# a comment')
    if rng.rand() < 0.2:
        lines.insert(rng.randint(len(lines)), '')
    return '\n'.join(lines) + '\n'


def architecture(description):
    from theanolm.network import Architecture
    f = io.StringIO(description)
    f.name = 'description'
    return Architecture.from_description(f)


def randomize(rng, network, scale=1.0):
    """Replaces the (tiny) initial parameters by values that make the network
    sensitive to its input."""
    variables = network.get_variables()
    for path in sorted(variables):
        variable = variables[path]
        value = variable.get_value()
        variable.set_value((scale * rng.randn(*value.shape)).astype(value.dtype))


def network(rng, description, vocabulary, scale=1.0, minibatch=True, exclude_unk=False, priors=None):
    from theanolm.network import Network
    result = Network(architecture(description), vocabulary, class_prior_probs=priors,
                     mode=Network.Mode(minibatch=minibatch), exclude_unk=exclude_unk)
    if scale:
        randomize(rng, result, scale)
    return result


def copy_parameters(source, target):
    a = source.get_variables()
    b = target.get_variables()
    assert set(a) == set(b)
    for path in a:
        b[path].set_value(a[path].get_value())


def save_model(network, path):
    """Writes the model file the way training does."""
    import h5py
    with h5py.File(path, 'w') as state:
        network.vocabulary.get_state(state)
        network.get_state(state)
    return path
