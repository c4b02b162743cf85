"""C03: a saved model reloads to the same model."""

import io

import h5py
import numpy

from vf import gen, nets, training

RULE = ('Random vocabularies of all forms, architectures (including layers with more than ten inputs and networks with more than '
        'ten inputs), networks with extreme parameter values and optimizers with accumulated state are written to HDF5 files, one '
        'to four times into the same file with changes in between, and read back; the live objects before and after are compared '
        'bit by bit, as are scores computed with both. Non-trivial: at least one ordinary word or more than one save. Distinct by '
        'contents.')
REQUIRED = ['vocabularies reloaded', 'architectures reloaded', 'networks reloaded', 'optimizers reloaded', 'repeated saves',
            'parameters compared', 'scores compared', 'many inputs', 'unigram probabilities', 'special values', 'small changes', 'replaced vocabularies']


def same_vocabulary(mon, got, want):
    mon.count('vocabularies reloaded')
    mon.check(list(got.id_to_word) == list(want.id_to_word), 'words', lambda: 'words %r, expected %r' % (got.id_to_word, want.id_to_word))
    mon.check(dict(got.word_to_id) == dict(want.word_to_id), 'word-ids', 'word IDs differ')
    mon.check(got.num_words() == want.num_words() and got.num_shortlist_words() == want.num_shortlist_words() and
              got.num_classes() == want.num_classes(), 'sizes', 'sizes differ')
    mon.check([int(x) for x in got.word_id_to_class_id] == [int(x) for x in want.word_id_to_class_id], 'classes', 'classes differ')
    for k in range(want.num_shortlist_words()):
        # classes are normalised again, so the last bit may change
        mon.close(got.get_word_prob(k), want.get_word_prob(k), 'membership', 'membership probability of %r' % want.id_to_word[k],
                  rtol=1e-13, atol=0.0)
    ids = numpy.arange(want.num_shortlist_words())
    for a, b in zip(got.get_class_memberships(ids), want.get_class_memberships(ids)):
        mon.close(a, b, 'membership', 'class memberships', rtol=1e-13, atol=0.0)
    mon.check(got.has_unigram_probs() == want.has_unigram_probs(), 'unigram', 'unigram probabilities are lost or appear')
    if want.has_unigram_probs():
        mon.count('unigram probabilities')
        if hasattr(got, '_unigram_probs') and hasattr(want, '_unigram_probs'):
            mon.check(training.same_bits(got._unigram_probs, want._unigram_probs), 'unigram', 'unigram probabilities differ')
        mon.check(training.same_bits(got.get_class_probs(), want.get_class_probs()), 'unigram', 'class prior probabilities differ')
        a, b = got.get_oos_probs(), want.get_oos_probs()
        mon.check(training.same_bits(a, b), 'oos', 'out-of-shortlist probabilities differ')
    for word in ['zz-unknown', '<s>', '</s>', '<unk>']:
        mon.check((word in got) == (word in want), 'contains', 'membership of %s differs' % word)


def counts_for(rng, vocab):
    # Large tables differ little from each other.
    base = gen.pick(rng, [1, 1, 10 ** 9])
    table = {w: base + rng.randint(50) for w in vocab.id_to_word}
    return table


def vocabulary(rng, mon):
    from theanolm import Vocabulary
    vocab, spec = gen.vocab(rng, size=1 + rng.randint(30) if rng.rand() < 0.97 else 250 + rng.randint(500))
    saves = 1 + rng.randint(4)
    path = gen.tmp_path('.h5')
    mon.case({'vocabulary': spec.describe(), 'saves': saves, 'counts': str(spec.counts)}, nontrivial=saves > 1 or len(spec.all_words) > 3)
    for k in range(saves):
        if k:
            mon.count('repeated saves')
            if rng.rand() < 0.3:
                # Another vocabulary of the same size replaces the one in the file.
                words = [w for w in spec.shortlist if w not in gen.SPECIALS]
                words = [words[i] for i in rng.permutation(len(words))]
                text = ''.join('%s %d\n' % (w, rng.randint(1 + len(words))) for w in words)
                vocab = Vocabulary.from_file(io.StringIO(text), 'classes', list(spec.oos))
                mon.count('replaced vocabularies')
                vocab.compute_probs(counts_for(rng, vocab))
            else:
                vocab.compute_probs(counts_for(rng, vocab), update_class_probs=rng.rand() < 0.7)
        with h5py.File(path, 'a', driver='core') as state:
            vocab.get_state(state)
        with h5py.File(path, 'r') as state:
            same_vocabulary(mon, Vocabulary.from_state(state), vocab)
        if rng.rand() < 0.3:
            # a generation later
            with h5py.File(path, 'r') as state:
                vocab = Vocabulary.from_state(state)


def plain(value):
    if isinstance(value, dict):
        return {k: plain(v) for k, v in value.items()}
    if isinstance(value, list):
        return [plain(v) for v in value]
    return int(value) if isinstance(value, (int, numpy.integer)) else value


def many_inputs(rng):
    """A description with more than ten inputs of the network or a layer."""
    number = 11 + rng.randint(12)
    lines = ['input type=word name=in']
    if rng.rand() < 0.5:
        lines = ['input type=%s name=in%d' % (gen.pick(rng, ['word', 'class']), k) for k in range(number)]
    sources = [l.split('name=')[1] for l in lines]
    names = []
    for k in range(number):
        names.append('p%d' % k)
        lines.append('layer type=projection name=p%d input=%s size=%d' % (k, sources[k % len(sources)], 1 + rng.randint(3)))
    order = [names[i] for i in rng.permutation(number)]
    lines.append('layer type=tanh name=h %s size=%d' % (' '.join('input=' + n for n in order), 3))
    lines.append('layer type=softmax name=out input=h')
    return '\n'.join(lines) + '\n'


def same_architecture(mon, got, want):
    mon.count('architectures reloaded')
    mon.check(plain(got.inputs) == plain(want.inputs), 'inputs', lambda: 'inputs %r, expected %r' % (got.inputs, want.inputs))
    mon.check(plain(got.layers) == plain(want.layers), 'layers', lambda: 'layers %r, expected %r' % (got.layers, want.layers))
    mon.check(got.output_layer == want.output_layer, 'output-layer', 'output layer %r' % got.output_layer)


def describe(rng, mon):
    if rng.rand() < 0.3:
        mon.count('many inputs')
        return many_inputs(rng)
    return gen.architecture_text(rng, max_hidden=gen.pick(rng, [2, 4, 14]))


def architecture(rng, mon):
    from theanolm.network import Architecture
    description = describe(rng, mon)
    if rng.rand() < 0.2:
        description = description.replace(' name=out', ' device=cuda0 device=cuda1 name=out')
    arch = gen.architecture(description)
    path = gen.tmp_path('.h5')
    saves = 1 + rng.randint(3)
    mon.case({'architecture': description, 'saves': saves})
    for k in range(saves):
        mon.count('repeated saves', k > 0)
        with h5py.File(path, 'a', driver='core') as state:
            arch.get_state(state)
    for _ in range(2):
        with h5py.File(path, 'r') as state:
            again = Architecture.from_state(state)
            arch.check_state(state)
            again.check_state(state)
        same_architecture(mon, again, arch)
        path = gen.tmp_path('.h5')
        with h5py.File(path, 'w') as state:
            again.get_state(state)


def perturb(rng, mon, variables):
    for path, variable in variables.items():
        value = variable.get_value()
        if numpy.issubdtype(value.dtype, numpy.floating):
            if rng.rand() < 0.5:
                # A change that is small compared with the value.
                mon.count('small changes')
                change = 1.0 + rng.randn(*value.shape) * gen.pick(rng, [1e-5, 1e-8, 1e-12, 4e-16])
                variable.set_value(numpy.asarray(value * change, dtype=value.dtype))
                continue
            value = numpy.asarray(rng.randn(*value.shape), dtype=value.dtype)
            if value.size and rng.rand() < 0.3:
                mon.count('special values')
                flat = value.reshape(-1)
                flat[rng.randint(flat.size)] = gen.pick(rng, [1e-320, -0.0, 1e300, -1e-30, numpy.pi])
                value = flat.reshape(value.shape)
            variable.set_value(value)


def same_parameters(mon, got, want, what):
    mon.check(set(got) == set(want), 'parameter-names', lambda: '%s: parameters %r' % (what, sorted(set(got) ^ set(want))))
    for path in want:
        mon.count('parameters compared')
        mon.check(training.same_bits(got[path], want[path]), 'parameters', lambda: '%s: %s is %s, expected %s' % (
            what, path, str(got[path])[:200], str(want[path])[:200]))


def network(rng, mon):
    from theanolm.network import Network
    from theanolm.scoring import TextScorer
    vocab, spec = gen.vocab(rng, size=2 + rng.randint(8), positive=True)
    description = describe(rng, mon)
    net = gen.network(rng, description, vocab, scale=0.7)
    path = gen.tmp_path('.h5')
    saves = 1 + rng.randint(3)
    mon.case({'architecture': description, 'vocabulary': spec.describe(), 'saves': saves})
    for k in range(saves):
        if k:
            mon.count('repeated saves')
            perturb(rng, mon, net.get_variables())
        with h5py.File(path, 'a', driver='core') as state:
            vocab.get_state(state)
            net.get_state(state)
    again = Network.from_file(path, mode=Network.Mode(minibatch=True))
    mon.count('networks reloaded')
    same_vocabulary(mon, again.vocabulary, vocab)
    same_architecture(mon, again.architecture, net.architecture)
    same_parameters(mon, training.parameters(again), training.parameters(net), 'network')
    word_ids, class_ids, _, mask = training.batch(rng, vocab)
    results = []
    _, memberships = vocab.get_class_memberships(word_ids)
    for n in (net, again):
        scorer = TextScorer(n, use_shortlist=False)
        results.append(scorer.score_batch(word_ids, class_ids, memberships, mask))
    for a, b in zip(*results):
        mon.count('scores compared', len(a))
        mon.check(numpy.array_equal(a, b, equal_nan=True), 'scores', lambda: 'scores %r with the reloaded model, %r before' % (b, a))


def optimizer(rng, mon):
    from theanolm.training import create_optimizer, CrossEntropyCost
    vocab, spec = gen.vocab(rng, size=3 + rng.randint(5), positive=True)
    description = gen.architecture_text(rng, max_hidden=1, only=['tanh', 'gru', 'fc'])
    method = gen.pick(rng, training.METHODS)
    opts = training.options(rng, method)
    path = gen.tmp_path('.h5')
    saves = 1 + rng.randint(3)
    mon.case({'architecture': description, 'method': method, 'saves': saves, 'learning rate': opts['learning_rate']})

    def make():
        net = gen.network(rng, description, vocab, scale=0.5)
        cost = CrossEntropyCost(net, None, 0.0, 0.0, 1e-6)
        return net, create_optimizer(opts, net, cost)
    net, opt = make()
    for k in range(saves):
        for _ in range(1 + rng.randint(2)):
            opt.update_minibatch(*training.batch(rng, vocab))
        opt.learning_rate = opt.float_type(rng.rand())
        mon.count('repeated saves', k > 0)
        with h5py.File(path, 'a', driver='core') as state:
            net.get_state(state)
            opt.get_state(state)
    other_net, other = make()
    with h5py.File(path, 'r') as state:
        other_net.set_state(state)
        other.set_state(state)
    mon.count('optimizers reloaded')
    same_parameters(mon, training.parameters(other_net), training.parameters(net), 'network')
    same_parameters(mon, training.parameters(other), training.parameters(opt), 'optimizer')
    mon.check(float(other.learning_rate) == float(opt.learning_rate), 'learning-rate', 'learning rate %r, expected %r' % (other.learning_rate, opt.learning_rate))
    # and it continues in the same way
    batch = training.batch(rng, vocab)
    for o in (opt, other):
        o.network.random.seed(int(7))
        o.update_minibatch(*batch)
    if 'dropout' not in description:
        same_parameters(mon, training.parameters(other_net), training.parameters(net), 'network after another update')
        same_parameters(mon, training.parameters(other), training.parameters(opt), 'optimizer after another update')


FAMILIES = [
    dict(name='vocabulary', fn=vocabulary, quick=750, thorough=5000),
    dict(name='architecture', fn=architecture, quick=400, thorough=2000),
    dict(name='network', fn=network, quick=75, thorough=600),
    dict(name='optimizer', fn=optimizer, quick=70, thorough=400),
]
