"""Random "theanolm train" command lines."""

import h5py
import numpy

from vf import cli, gen, nets, scores, training


class Setup(object):
    """Files and options of a training command."""

    def __init__(self, rng, dropout=True, files=None, lines=None, validation=None, vocabulary=None, costs=True, deterministic=False,
                 simple=True, outside=0):
        self.words = gen.words(rng, 3 + rng.randint(5), simple=simple)
        inside = self.words
        # Words of the text that are not in the vocabulary file.
        self.words = self.words + ['outside%d' % i for i in range(outside)]
        self.options = {}
        self.texts = []
        number = files or 1 + (rng.rand() < 0.4)
        total = lines or 10 + rng.randint(20)
        for _ in range(number):
            self.texts.append(self.text(rng, max(2, total // number)))
        self.training = [gen.tmp_file(t) for t in self.texts]
        self.validation_text = None
        self.validation = None
        if validation or (validation is None and rng.rand() < 0.6):
            self.validation_text = self.text(rng, 3 + rng.randint(5), unknown=0.2)
            self.validation = gen.tmp_file(self.validation_text)
        self.description = gen.architecture_text(rng, max_hidden=1, size=3, dropout=dropout and not deterministic)
        self.architecture = gen.tmp_file(self.description, '.arch')
        self.vocabulary = None
        kind = vocabulary if vocabulary is not None else gen.pick(rng, [None, None, 'num-classes', 'words', 'classes', 'srilm-classes'])
        self.vocabulary_kind = kind
        o = self.options
        if kind == 'num-classes':
            o['num-classes'] = 2 + rng.randint(3)
        elif kind:
            listed = inside[:max(2, len(inside) - rng.randint(3))]
            content = ''
            for index, word in enumerate(listed):
                label = index % 3
                content += {'words': '%s\n' % word, 'classes': '%s %d\n' % (word, label),
                            'srilm-classes': 'C%d %.2f %s\n' % (label, 0.1 + 0.9 * rng.rand(), word)}[kind]
            self.vocabulary = gen.tmp_file(content, '.vocab')
            o['vocabulary'] = self.vocabulary
            o['vocabulary-format'] = kind
        o['batch-size'] = 1 + rng.randint(3)
        o['sequence-length'] = gen.pick(rng, [100, 100, 4, 6])
        o['optimization-method'] = gen.pick(rng, training.METHODS)
        o['learning-rate'] = gen.pick(rng, [0.1, 0.01, 0.001])
        if costs and not deterministic and 'hsoftmax' not in self.description and rng.rand() < 0.4:
            o['cost'] = gen.pick(rng, ['nce', 'blackout'])
            o['num-noise-samples'] = 1 + rng.randint(2)
            # The unigram probability of </s> is zero when the vocabulary is
            # created from the training text, and BlackOut divides by it.
            o['noise-distribution'] = gen.pick(rng, ['uniform', 'log-uniform'] +
                                               (['unigram'] if o['cost'] == 'nce' else []))
            sharing = gen.pick(rng, [None, 'batch'])
            if sharing:
                o['noise-sharing'] = sharing
        else:
            o['num-noise-samples'] = 1
        if rng.rand() < 0.3:
            o['l2-regularization'] = 0.001
        if number > 1 and rng.rand() < 0.5:
            o['weights'] = [round(0.2 + rng.rand(), 2) for _ in range(number)]
        o['max-epochs'] = 1 + rng.randint(2)
        o['stopping-criterion'] = gen.pick(rng, ['epoch-count', 'no-improvement', 'annealing-count'])
        o['patience'] = gen.pick(rng, [-1, 0, 2])
        if o['stopping-criterion'] == 'epoch-count':
            o['patience'] = -1
        # Returning to a state of the first epoch may repeat it forever, as
        # documented, unless training may stop there.
        o['min-epochs'] = 0 if o['patience'] >= 0 else 1
        o['validation-frequency'] = 1
        o['log-file'] = gen.tmp_path('.log')
        o['log-level'] = 'debug'
        o['random-seed'] = rng.randint(1000000)

    def text(self, rng, lines, unknown=0.0):
        result = ''
        for _ in range(lines):
            words = [gen.pick(rng, self.words) if rng.rand() >= unknown else 'unseen' for _ in range(1 + rng.randint(6))]
            result += ' '.join(words) + '\n'
        return result

    def argv(self, model, **changes):
        options = dict(self.options)
        options.update({k.replace('_', '-'): v for k, v in changes.items()})
        result = ['train', model, '--training-set'] + list(options.pop('training', None) or self.training)
        validation = options.pop('validation', self.validation)
        if validation:
            result += ['--validation-file', validation]
        result += ['--architecture', options.pop('architecture', self.architecture)]
        for name, value in options.items():
            if value is None:
                continue
            result += ['--' + name] + (list(value) if isinstance(value, list) else [value])
        return result

    def run(self, model, **changes):
        return cli.theanolm(*self.argv(model, **changes))

    def describe(self):
        return [self.description, self.texts, self.validation_text,
                {k: v for k, v in self.options.items() if not str(v).startswith('/')}]


def contents(path):
    """Everything that a model file stores."""
    result = {}

    def visit(name, item):
        for key, value in item.attrs.items():
            result[name + '@' + key] = value
        if hasattr(item, 'shape'):
            result[name] = item[()]
    with h5py.File(path, 'r') as state:
        for key, value in state.attrs.items():
            result['@' + key] = value
        state.visititems(visit)
    return result


def same(a, b):
    a, b = numpy.asarray(a), numpy.asarray(b)
    if a.shape != b.shape or a.dtype != b.dtype:
        return False
    if a.dtype == object or a.dtype.kind in 'SU':
        return a.tolist() == b.tolist()
    return a.tobytes() == b.tobytes()


def differences(first, second):
    names = sorted(set(first) | set(second))
    return [n for n in names if n not in first or n not in second or not same(first[n], second[n])]


def load(path):
    from theanolm import Architecture, Network, Vocabulary
    with h5py.File(path, 'r') as state:
        vocab = Vocabulary.from_state(state)
        network = Network(Architecture.from_state(state), vocab)
        network.set_state(state)
    return vocab, network


def perplexity(path, text, exclude_unk=False, length=100):
    """Reference for the validation perplexity of a stored model."""
    vocab, network = load(path)
    reference = scores.Reference(nets.output_function(network), vocab, True, exclude_unk)
    total, number = 0.0, 0
    unk = vocab.word_to_id['<unk>']
    for line in text.split('\n'):
        tokens = line.split()
        if not tokens:
            continue
        ids = [vocab.word_to_id.get(w, unk) for w in gen.expected_utterance(tokens)]
        for start in range(0, len(ids), length):
            part = ids[start:start + length]
            if len(part) < 2:
                continue
            values = scores.scored(reference.sequence(part))
            total += sum(values)
            number += len(values)
    return numpy.exp(-total / number) if number else None
