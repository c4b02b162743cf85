"""C26: incompatible models and malformed architectures are rejected."""

import io
import os

import h5py
import numpy

from vf import cli, gen, nets, schedule, training, trainrun

RULE = ('(state) Complete training states of random networks and optimizers are damaged: a group, dataset or attribute is removed, a '
        'parameter is given another shape, an entry of the stored architecture is changed, removed or added. Loading the model, '
        'restoring it into an existing network and continuing training are each monitored: they have to raise IncompatibleStateError for '
        'what they need and accept the rest. (description) Valid architecture descriptions are mutated, and building the network from '
        'them has to fail with an input or value error. (command) "theanolm train" and other commands on damaged files have to fail and '
        'leave every value in the file as it was. Distinct by damage and architecture.')
REQUIRED = ['valid states loaded', 'valid states restored', 'valid trainings continued', 'load: removed', 'load: reshaped', 'load: vocabulary', 'restore: changed value',
            'restore: removed value', 'restore: added value', 'restore: added layer', 'restore: removed layer', 'restore: changed list',
            'restore: swapped inputs', 'restore: other architecture', 'continue: removed', 'continue: reshaped', 'continue: other method', 'continue: less data', 'optional parts removed',
            'description: element', 'description: no type', 'description: no name', 'description: no input', 'description: no value',
            'description: unknown type', 'description: unknown activation', 'description: unknown input', 'description: forward input',
            'description: bad size', 'description: no inputs', 'description: no layers', 'valid descriptions', 'commands on damaged files',
            'commands that failed', 'packaged architectures', 'disconnected layers']
ASSUMPTIONS = ['Fields that no layer knows are ignored in an architecture description, as they are by design; the fields an '
               'architecture file may have are not listed anywhere.']


def incompatible():
    from theanolm.backend import IncompatibleStateError
    return IncompatibleStateError


class Model(object):
    """A network with an optimizer and a saved training state."""

    def __init__(self, rng, mon):
        from theanolm import Network
        from theanolm.training import Trainer, create_optimizer, CrossEntropyCost
        self.corpus = schedule.Corpus(rng, lines=6 + rng.randint(10), split=False)
        self.description = gen.architecture_text(rng, max_hidden=2, size=3)
        self.method = gen.pick(rng, training.METHODS)
        self.options = training.options(rng, self.method, num_files=len(self.corpus.paths))
        self.handles = self.corpus.open()
        self.schedule = {'batch_size': 2, 'sequence_length': None, 'validation_frequency': 1, 'patience': 0, 'stopping_criterion': 'epoch-count',
                         'max_epochs': 1, 'min_epochs': 1, 'max_annealing_count': 0}
        self.trainer = Trainer(self.schedule, self.corpus.vocab, self.handles, [])
        self.network = Network(gen.architecture(self.description), self.corpus.vocab, self.trainer.class_prior_probs)
        gen.randomize(rng, self.network)
        self.network.set_sampling('uniform', 1.0, None)
        self.optimizer = create_optimizer(self.options, self.network, CrossEntropyCost(self.network))
        self.path = gen.tmp_path('.h5')
        with h5py.File(self.path, 'w', driver='core') as state:
            self.corpus.vocab.get_state(state)
            self.trainer.initialize(self.network, state, self.optimizer)
            self.trainer.get_state(state)
        self.needed = sorted(self.network.get_variables())
        self.memory = sorted(training.parameters(self.optimizer))

    def close(self):
        for handle in self.handles:
            handle.close()

    def damaged(self, function):
        """A copy of the state, changed by the function."""
        state = h5py.File('damaged', 'a', driver='core', backing_store=False)
        with h5py.File(self.path, 'r') as source:
            for name in source:
                source.copy(name, state)
        if function is not None:
            function(state)
        return state

    def load(self, state):
        """What every command does with a model."""
        from theanolm import Architecture, Network, Vocabulary
        vocab = Vocabulary.from_state(state)
        network = Network(Architecture.from_state(state), vocab)
        network.set_state(state)
        return network

    def restore(self, state, description=None):
        """Sets the state of an existing network."""
        from theanolm import Network
        network = Network(gen.architecture(description or self.description), self.corpus.vocab)
        network.set_state(state)
        return network

    def resume(self, state):
        from theanolm.training import Trainer
        result = Trainer(self.schedule, self.corpus.vocab, self.handles, [])
        result.initialize(self.network, state, self.optimizer)
        return result


def rejected(mon, model, action, function, name, what, allowed=()):
    state = model.damaged(function)
    before = image(state)
    try:
        action(state)
    except incompatible():
        mon.count(name)
    except allowed:
        mon.count(name)
    except Exception as e:  # pylint: disable=broad-except
        mon.fail('wrong-error', '%s (%s): raised %r instead of an incompatible state error' % (name, what, e), damage=name)
    else:
        mon.fail('accepted', '%s (%s) was accepted' % (name, what), damage=name)
    finally:
        after = image(state)
        state.close()
    mon.check(not trainrun.differences(before, after), 'state-changed', '%s (%s): the rejected state was changed: %r'
              % (name, what, trainrun.differences(before, after)[:5]))


def image(state):
    result = {}

    def visit(name, item):
        result[name] = numpy.zeros(0)
        for key, value in item.attrs.items():
            result[name + '@' + key] = value
        if hasattr(item, 'shape'):
            result[name] = item[()]
    state.visititems(visit)
    return result


def remove(path, attribute=None):
    def function(state):
        if attribute is None:
            del state[path]
        else:
            del state[path].attrs[attribute]
    return function


def reshape(rng, path):
    """Another shape for a dataset."""
    choice = rng.randint(4)

    def function(state):
        value = state[path][()]
        if value.ndim == 0:
            value = numpy.array([value, value])
        elif choice == 0 and value.shape[0] > 1:
            value = value[:-1]
        elif choice == 1:
            value = numpy.concatenate([value, value[:1]])
        elif choice == 2 and value.ndim > 1:
            value = numpy.concatenate([value, value[:, :1]], axis=1)
        elif choice == 3 and value.ndim > 1 and value.T.shape != value.shape:
            value = value.T.copy()
        elif value.ndim > 1:
            value = value.reshape(-1)
        else:
            value = numpy.concatenate([value, value])
        del state[path]
        state[path] = value
    return function


def state(rng, mon):
    model = Model(rng, mon)
    mon.case([model.description, model.method, len(model.corpus.sequences)])
    try:
        judge(rng, mon, model)
    finally:
        model.close()


def judge(rng, mon, model):
    # Everything is accepted as it was saved.
    with model.damaged(None) as intact:
        loaded = model.load(intact)
        mon.count('valid states loaded')
        for path, value in training.parameters(loaded).items():
            mon.check(training.same_bits(value, intact[path][()]), 'loaded-value', '%s was loaded with another value' % path)
        model.restore(intact)
        mon.count('valid states restored')
        model.resume(intact)
        mon.count('valid trainings continued')

    # Loading a model.
    layers = [str(i) for i in range(len(model.network.architecture.layers))]
    inputs = [str(i) for i in range(len(model.network.architecture.inputs))]
    parts = [('vocabulary', None), ('vocabulary/words', None), ('vocabulary/classes', None), ('vocabulary/probs', None), ('architecture', None),
             ('architecture/inputs', None), ('architecture/layers', None), ('architecture', 'output_layer')]
    parts += [('architecture/layers/' + i, f) for i in layers for f in ('type', 'name')]
    parts += [('architecture/inputs/' + i, f) for i in inputs for f in ('type', 'name')]
    parts += [('architecture/layers/' + i + '/inputs', None) for i in layers]
    parts += [(p, None) for p in model.needed for _ in range(2)] + [('layers', None)] * 3
    for _ in range(6):
        path, attribute = gen.pick(rng, parts)
        rejected(mon, model, model.load, remove(path, attribute), 'load: removed', '%s %s' % (path, attribute))
    for _ in range(3):
        path = gen.pick(rng, model.needed)
        rejected(mon, model, model.load, reshape(rng, path), 'load: reshaped', path)

    def fewer(path, number):
        def function(h5):
            value = h5[path][()]
            kind = h5[path].dtype
            del h5[path]
            h5.create_dataset(path, data=value[:number] if number < 0 else numpy.concatenate([value, value[:number]]), dtype=kind)
        return function
    path = 'vocabulary/' + gen.pick(rng, ['classes', 'probs', 'unigram_probs', 'words'])
    number = int(gen.pick(rng, [-1, -2]) if path.endswith('words') else gen.pick(rng, [-1, -2, 1]))
    rejected(mon, model, model.load, fewer(path, number), 'load: vocabulary', '%s %d' % (path, number))

    # Restoring into a network of a given architecture.
    kind = gen.pick(rng, ['layers', 'inputs'])
    index = gen.pick(rng, layers if kind == 'layers' else inputs)
    group = 'architecture/%s/%s' % (kind, index)
    with model.damaged(None) as h5:
        fields = sorted(h5[group].attrs)
        lists = sorted(h5[group])
        attribute = gen.pick(rng, fields)
        old = h5[group].attrs[attribute]
        entries = {name: len(h5[group][name].attrs) for name in lists}

    def change(h5):
        h5[group].attrs[attribute] = old + 1 if not isinstance(old, str) else old + 'x'
    rejected(mon, model, model.restore, change, 'restore: changed value', '%s %s' % (group, attribute))
    rejected(mon, model, model.restore, remove(group, attribute), 'restore: removed value', '%s %s' % (group, attribute))

    def add(h5):
        name = gen.pick(rng, [n for n in ('activation', 'size', 'reverse_time', 'filter_size', 'dropout_rate') if n not in fields])
        h5[group].attrs[name] = {'activation': 'relu'}.get(name, '1')
    rejected(mon, model, model.restore, add, 'restore: added value', group)

    def add_layer(h5):
        new = h5.create_group('architecture/%s/%d' % (kind, len(layers if kind == 'layers' else inputs)))
        new.attrs['type'] = 'word' if kind == 'inputs' else 'tanh'
        new.attrs['name'] = 'another'
    rejected(mon, model, model.restore, add_layer, 'restore: added layer', kind)
    rejected(mon, model, model.restore, remove('architecture/%s/%s' % (kind, (layers if kind == 'layers' else inputs)[-1])), 'restore: removed layer', kind)
    group2 = 'architecture/layers/' + gen.pick(rng, layers)

    def change_list(h5):
        attrs = h5[group2 + '/inputs'].attrs
        choice = rng.randint(3)
        if choice == 0:
            attrs['0'] = 'nothing'
        elif choice == 1:
            attrs[str(len(attrs))] = 'nothing'
        else:
            del attrs[str(len(attrs) - 1)]
    rejected(mon, model, model.restore, change_list, 'restore: changed list', group2)
    for i, layer in enumerate(model.network.architecture.layers):
        names = [str(x) for x in layer['inputs']]
        path = 'architecture/layers/%d/inputs' % i
        if len(set(names)) > 1:
            # Parameters have the same shape, but their rows belong to other inputs.
            swapped = list(names)
            while swapped == names:
                swapped = [names[k] for k in rng.permutation(len(names))]

            def swap(h5):
                for k, name in enumerate(swapped):
                    h5[path].attrs[str(k)] = name
            rejected(mon, model, model.restore, swap, 'restore: swapped inputs', path)
            repeated = [gen.pick(rng, names)] * len(names)

            def repeat(h5):
                for k, name in enumerate(repeated):
                    h5[path].attrs[str(k)] = name
            rejected(mon, model, model.restore, repeat, 'restore: swapped inputs', path)

    def output(h5):
        h5['architecture'].attrs['output_layer'] = 'nothing'
    rejected(mon, model, model.restore, output, 'restore: changed value', 'output_layer')
    other = gen.architecture_text(rng, max_hidden=2, size=3)
    if [l.split() for l in other.split('\n') if l and l[0] != '#'] != [l.split() for l in model.description.split('\n') if l and l[0] != '#']:
        rejected(mon, model, lambda s: model.restore(s, other), None, 'restore: other architecture', other)

    # Continuing training.
    parts = [('optimizer', None), ('optimizer', 'learning_rate'), ('iterator', None), ('iterator/order', None), ('iterator', 'next_line'),
             ('trainer', None), ('trainer', 'epoch_number'), ('trainer', 'update_number'), ('layers', None), ('architecture', None)]
    parts += [(p, None) for p in model.needed[:5] + model.memory[:5]]
    for _ in range(5):
        path, attribute = gen.pick(rng, parts)
        rejected(mon, model, model.resume, remove(path, attribute), 'continue: removed', '%s %s' % (path, attribute))
    path = gen.pick(rng, model.needed + model.memory + model.memory)
    rejected(mon, model, model.resume, reshape(rng, path), 'continue: reshaped', path)

    def beyond(h5):
        order = h5['iterator/order'][()]
        order[rng.randint(order.size)] = order.max() + 1 + rng.randint(3)
        h5['iterator/order'][:] = order
    rejected(mon, model, model.resume, beyond, 'continue: less data', 'iteration order')

    # A state saved by an optimizer that needs something else.
    if model.method != 'sgd':
        rejected(mon, model, model.resume, lambda h5: [h5.pop(p) for p in model.memory], 'continue: other method', model.method)
    else:
        mon.count('states without optimizer parameters')

    # Parts that older models do not have.
    def optional(h5):
        part = rng.randint(3)
        if part == 0:
            del h5['vocabulary/unigram_probs']
        elif part == 1:
            del h5['trainer/cost_history']
        else:
            for index_ in layers:
                if 'devices' in h5['architecture/layers/' + index_]:
                    del h5['architecture/layers/' + index_ + '/devices']
    with model.damaged(optional) as h5:
        model.load(h5)
        model.restore(h5)
        model.resume(h5)
        mon.count('optional parts removed')


# ------------------------------------------------------------- description
def description(rng, mon):
    from theanolm import Network
    from theanolm.backend import InputError
    vocab, _ = gen.vocab(rng, size=3 + rng.randint(4), positive=True)
    text = gen.architecture_text(rng, max_hidden=2, size=3)
    lines = [l for l in text.split('\n') if l and l[0] != '#']
    # What a description may look like.
    odd = []
    for line in lines:
        fields = line.split()
        head, rest = fields[0], fields[1:]
        if rng.rand() < 0.5:
            order = list(rng.permutation(len(rest)))
            names = [i for i, f in enumerate(rest) if f.startswith('input=')]
            # the order of inputs matters
            order = [i for i in order if i not in names] + names
            rest = [rest[i] for i in order]
        odd.append(gen.pick(rng, ['', ' ', '\t']) + gen.pick(rng, [' ', '  ', '\t']).join([head] + rest) + gen.pick(rng, ['', ' ', '\r']))
        if rng.rand() < 0.3:
            odd.append(gen.pick(rng, ['', '  ', '# layer type=nothing', '#', ' # comment']))
    variant = '\n'.join(odd) + gen.pick(rng, ['', '\n'])
    first, second = gen.architecture(text), gen.architecture(variant)
    mon.check(first.inputs == second.inputs and first.layers == second.layers and first.output_layer == second.output_layer, 'layout',
              'white space, comments or order of fields change the architecture: %r and %r' % (first.layers, second.layers))
    mon.count('valid descriptions')
    if rng.rand() < 0.2:
        Network(second, vocab)

    def field(kind=None):
        candidates = [i for i, l in enumerate(lines) if kind is None or l.startswith(kind)]
        return gen.pick(rng, candidates)

    def without(name, kind=None):
        i = field(kind)
        result = list(lines)
        result[i] = ' '.join(f for f in lines[i].split() if not f.startswith(name + '='))
        return result

    def replaced(name, value, kind, candidates=None):
        i = gen.pick(rng, candidates) if candidates else field(kind)
        result = list(lines)
        fields = [f for f in lines[i].split() if not f.startswith(name + '=')] + ['%s=%s' % (name, value)]
        result[i] = ' '.join(fields)
        return result
    last = len(lines) - 1
    sized = [i for i, l in enumerate(lines) if l.startswith('layer') and i != last]
    mutations = {
        'element': lambda: lines[:field()] + [gen.pick(rng, ['network type=word name=x', 'Layer type=tanh name=x input=in0', 'layers', 'type=tanh'])] + lines,
        'no type': lambda: without('type'),
        'no name': lambda: without('name'),
        'no input': lambda: without('input', 'layer'),
        'no value': lambda: [l + (gen.pick(rng, [' size', ' type', ' x']) if i == chosen else '') for i, l in enumerate(lines)],
        'unknown type': lambda: replaced('type', gen.pick(rng, ['nothing', 'LSTM', '', 'lstm2']), None),
        'unknown activation': lambda: replaced('activation', gen.pick(rng, ['nothing', 'ReLU', '']), 'layer', plain),
        'unknown input': lambda: replaced('input', gen.pick(rng, ['nothing', 'out', '']), 'layer'),
        'forward input': lambda: [lines[-1]] + lines[:-1],
        'bad size': lambda: replaced('size', gen.pick(rng, ['x', '', '3x', '1.5']), 'layer', sized),
        'no inputs': lambda: [l for l in lines if not l.startswith('input')],
        'no layers': lambda: [l for l in lines if not l.startswith('layer')],
    }
    chosen = field()
    plain = [i for i, l in enumerate(lines) if 'type=fc' in l or 'type=tanh' in l or 'type=lstm' in l or 'type=gru' in l or 'type=softmax' in l
             or 'type=projection' in l or 'type=glu' in l or 'type=highway' in l]
    for name, mutation in mutations.items():
        result = mutation()
        mutant = '\n'.join(result) + '\n'
        mon.case([name, mutant])
        try:
            Network(gen.architecture(mutant), vocab)
        except (InputError, ValueError) as e:
            mon.check(bool(str(e)), 'no-message', 'no explanation for %r' % mutant)
            mon.count('description: ' + name)
        except Exception as e:  # pylint: disable=broad-except
            mon.fail('wrong-error', 'description (%s) %r: raised %r instead of an input error' % (name, mutant, e), damage=name)
        else:
            mon.fail('accepted', 'a description (%s) was accepted: %r' % (name, mutant), damage=name)


def packaged(rng, mon):
    from theanolm import Architecture, Network
    vocab, _ = gen.vocab(rng, size=3, positive=True)
    for name in ('lstm300', 'lstm1500'):
        architecture = Architecture.from_package(name)
        mon.case([name, architecture.layers])
        mon.check(architecture.inputs and architecture.layers, 'packaged', '%s is empty' % name)
        for layer in architecture.layers:
            if 'size' in layer:
                layer['size'] = 4
        Network(architecture, vocab)
        mon.count('packaged architectures')


# ----------------------------------------------------------------- command
def command(rng, mon):
    setup = trainrun.Setup(rng, validation=False, lines=8)
    setup.options['max-epochs'] = 1
    setup.options['min-epochs'] = 1
    setup.options['patience'] = -1
    setup.options['stopping-criterion'] = 'epoch-count'
    path = gen.tmp_path('.h5')
    result = setup.run(path)
    mon.check(result.code == 0, 'command', 'theanolm train failed: %r' % result)
    stored = trainrun.contents(path)
    text = gen.tmp_file(setup.texts[0])
    commands = ['train', 'score'] + (['sample'] if not any('type=' + t in setup.description for t in ('blstm', 'bgru', 'glu')) else [])
    for _ in range(4):
        changes = {}
        arguments = None
        damage = gen.pick(rng, ['parameter', 'trainer', 'optimizer', 'architecture file', 'vocabulary', 'architecture', 'shape', 'less data'])
        needed = [n for n in stored if n.startswith('layers/') and '@' not in n and n.split('/')[-1].count('_') == 0]
        command_ = 'train'
        which = None
        if damage in ('parameter', 'shape'):
            which = gen.pick(rng, sorted(needed))
            command_ = gen.pick(rng, commands)
        elif damage in ('vocabulary', 'architecture'):
            which = damage
            command_ = gen.pick(rng, commands)
        elif damage in ('trainer', 'optimizer'):
            which = damage
        elif damage == 'less data':
            changes['training'] = [gen.tmp_file('%s\n' % setup.words[0]) for _ in setup.training]
        else:
            other = setup.description
            while other == setup.description:
                other = gen.architecture_text(rng, max_hidden=2, size=3, output='softmax')
            changes['architecture'] = gen.tmp_file(other, '.arch')
        copy = gen.tmp_path('.h5')
        with open(path, 'rb') as f, open(copy, 'wb') as g:
            g.write(f.read())
        if which is not None:
            with h5py.File(copy, 'a') as h5:
                if damage == 'shape':
                    value = h5[which][()]
                    del h5[which]
                    h5[which] = numpy.concatenate([value, value])
                else:
                    del h5[which]
        before = trainrun.contents(copy)
        if command_ == 'train':
            arguments = setup.argv(copy, max_epochs=3, **changes)
        elif command_ == 'score':
            arguments = ['score', copy, text, '--log-file', gen.tmp_path('.log')]
        else:
            arguments = ['sample', copy, '--num-sentences', 2, '--sentence-length', 4]
        mon.case([setup.describe(), damage, which, command_])
        mon.count('commands on damaged files')
        try:
            result = cli.theanolm(*arguments)
            failed = result.code != 0
        except incompatible():
            failed = True
        except Exception as e:  # pylint: disable=broad-except
            mon.fail('wrong-error', 'theanolm %s with a model whose %s (%s) is damaged raised %r' % (command_, damage, which, e), damage=damage)
        mon.check(failed, 'accepted', 'theanolm %s accepted a model whose %s (%s) is damaged' % (command_, damage, which), damage=damage)
        mon.count('commands that failed')
        difference = trainrun.differences(before, trainrun.contents(copy))
        mon.check(not difference, 'overwritten', 'theanolm %s failed because of %s but changed %r' % (command_, damage, difference[:5]), damage=damage)
    # A layer that does not contribute to the output.
    lines = [l for l in setup.description.split('\n') if l]
    disconnected = '\n'.join(lines[:-1] + ['layer type=tanh name=loose input=proj0 size=3', lines[-1]]) + '\n'
    # Regularisation makes every parameter contribute to the cost.
    setup.options.pop('l2-regularization', None)
    new = gen.tmp_path('.h5')
    result = setup.run(new, architecture=gen.tmp_file(disconnected, '.arch'))
    mon.count('disconnected layers')
    mon.check(result.code != 0 and 'disconnected' in result.out + result.err, 'disconnected', 'a disconnected layer: %r' % result)
    if os.path.exists(new):
        with h5py.File(new, 'r') as h5:
            mon.check('layers' not in h5, 'disconnected', 'a model with a disconnected layer was saved')


FAMILIES = [
    dict(name='description', fn=description, quick=80, thorough=800),
    dict(name='state', fn=state, quick=20, thorough=250),
    dict(name='packaged', fn=packaged, quick=2, thorough=3),
    dict(name='command', fn=command, quick=8, thorough=80),
]
