"""C28: layers compute their documented function of the stored parameters."""

import h5py
import numpy

from vf import gen, nets
from vf.refnet import RefNet, read_params

RULE = ('Random architectures (every layer type, options, one or two inputs, skip connections, softmax and hierarchical '
        'softmax) with random vocabularies and random parameters are saved to a model file; the class distributions of '
        'random padded batches from the real network are compared with an independent NumPy implementation that reads the '
        'model file. Non-trivial: the distributions of different contexts differ. Distinct by architecture and vocabulary.')
LAYERS = ['tanh', 'fc', 'lstm', 'gru', 'add', 'highway', 'highwaytanh', 'dropout', 'glu', 'blstm', 'bgru']
REQUIRED = ['layer ' + x for x in LAYERS] + ['output softmax', 'output hsoftmax', 'distributions compared', 'activation relu',
                                              'activation leakyrelu', 'loaded models', 'layers with three or more inputs', 'additions of three or more layers']


def compare(rng, mon, description, minibatch_rows=None):
    vocab, spec = gen.vocab(rng, size=2 + gen.some(rng, 9, 200))
    exclude = bool(rng.rand() < 0.15) and 'hsoftmax' not in description
    if exclude and len(spec.members('<unk>')) > 1:
        exclude = False
    network = gen.network(rng, description, vocab, scale=0.8, exclude_unk=exclude)
    with h5py.File(gen.tmp_path('.h5'), 'w', driver='core', backing_store=False) as state:
        network.get_state(state)
        params = read_params(state)
    reference = RefNet(description, params, vocab.num_shortlist_words(), vocab.num_classes(),
                       int(vocab.word_id_to_class_id[vocab.word_to_id['<unk>']]) if exclude else None)
    function = nets.output_function(network)
    sequences = [nets.random_ids(rng, spec, vocab, max_len=nets.length(rng, 7))[:-1] for _ in range(1 + rng.randint(4))]
    word_ids, mask = nets.pad(sequences, vocab.word_to_id['<unk>'])
    class_ids, _ = vocab.get_class_memberships(word_ids)
    got = function(word_ids, class_ids, mask, 0)
    mon.check(got.shape == word_ids.shape + (vocab.num_classes(),), 'output-shape', 'output of shape %r' % (got.shape,))
    seen = set()
    for column, seq in enumerate(sequences):
        words = numpy.array(seq)
        try:
            expected = reference.forward(words, class_ids[:len(seq), column], len(seq))
        except (KeyError, ValueError) as e:
            mon.fail('parameter-layout', 'the stored parameters do not fit the architecture: %r' % (e,))
        mon.count('distributions compared', len(seq))
        mon.close(got[:len(seq), column], expected, 'layer-function', 'class distributions of sequence %d' % column,
                  rtol=1e-6, atol=1e-8)
        seen.update(tuple(numpy.round(row, 6)) for row in expected)
    mon.case({'architecture': description, 'vocabulary': spec.describe()}, nontrivial=len(seen) > 1)
    for name in LAYERS:
        if 'type=%s ' % name in description:
            mon.count('layer ' + name)
    for name in ('relu', 'leakyrelu'):
        if 'activation=' + name in description:
            mon.count('activation ' + name)
    mon.count('output hsoftmax' if 'type=hsoftmax' in description else 'output softmax')
    return network, vocab, spec, got, word_ids, class_ids, mask


def composed(rng, mon):
    compare(rng, mon, gen.architecture_text(rng))


def single(rng, mon):
    kind = gen.pick(rng, LAYERS)
    compare(rng, mon, gen.architecture_text(rng, max_hidden=1, force=kind))


def wide(rng, mon):
    """A layer that reads from several layers."""
    lines = ['input type=%s name=in' % gen.pick(rng, ['word', 'class']),
             'layer type=projection name=proj input=in size=%d' % (2 + rng.randint(3))]
    names = []
    for index in range(2 + rng.randint(4)):
        names.append('b%d' % index)
        lines.append('layer type=%s name=b%d input=%s size=%d' % (gen.pick(rng, ['tanh', 'fc', 'lstm', 'gru']), index,
                                                                 gen.pick(rng, ['proj', 'proj'] + names[:-1]), 2 + rng.randint(2)))
    kind = gen.pick(rng, ['add', 'add', 'add', 'fc', 'lstm', 'gru', 'highway', 'dropout', 'blstm', 'bgru'])
    number = 2 + rng.randint(len(names) - 1)
    sources = [names[i] for i in rng.permutation(len(names))[:number]]
    if rng.rand() < 0.15:
        sources.append(sources[0])
    size = ' size=%d' % (2 + rng.randint(4)) if kind in ('fc', 'lstm', 'gru') or (kind == 'add' and rng.rand() < 0.4) else \
        ' size=%d' % (4 + rng.randint(4)) if kind in ('blstm', 'bgru') else ''
    lines.append('layer type=%s name=wide %s%s' % (kind, ' '.join('input=' + n for n in sources), size))
    last = ['wide'] + [n for n in names if rng.rand() < 0.3]
    lines.append('layer type=%s name=out %s' % (gen.pick(rng, ['softmax', 'hsoftmax']), ' '.join('input=' + n for n in last)))
    mon.count('layers with three or more inputs', len(sources) > 2)
    mon.count('additions of three or more layers', kind == 'add' and len(sources) > 2)
    compare(rng, mon, '\n'.join(lines) + '\n')


def loaded(rng, mon):
    """The reference also holds for the network read from a file on disk."""
    from theanolm.network import Network
    description = gen.architecture_text(rng)
    network, vocab, spec, got, word_ids, class_ids, mask = compare(rng, mon, description)
    if network.exclude_unk:
        return
    path = gen.tmp_path('.h5')
    with h5py.File(path, 'w') as state:
        vocab.get_state(state)
        network.get_state(state)
    again = nets.output_function(Network.from_file(path))(word_ids, class_ids, mask, 0)
    mon.count('loaded models')
    mon.check(numpy.array_equal(again, got), 'loaded', 'the loaded network gives other probabilities')


def packaged(rng, mon):
    """Architectures shipped with the package, in small."""
    import os
    from vf.core import REPO
    folder = os.path.join(REPO, 'theanolm', 'architectures')
    name = gen.pick(rng, sorted(os.listdir(folder)))
    with open(os.path.join(folder, name), encoding='utf-8') as f:
        text = f.read()
    import re
    text = re.sub(r'size=\d+', lambda m: 'size=%d' % (3 if int(m.group(0)[5:]) > 100 else 2), text)
    compare(rng, mon, text)


FAMILIES = [
    dict(name='single', fn=single, quick=225, thorough=1500),
    dict(name='composed', fn=composed, quick=125, thorough=1500),
    dict(name='wide', fn=wide, quick=80, thorough=800),
    dict(name='loaded', fn=loaded, quick=50, thorough=300),
    dict(name='packaged', fn=packaged, quick=20, thorough=40),
]
