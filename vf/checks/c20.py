"""C20: optimizers apply their documented update rule to every parameter."""

import h5py
import numpy

from vf import gen, training

RULE = ('Sequences of updates with all seven optimizers on random networks (dropout and the sampling-based costs included), batches, '
        'hyperparameters, learning rate changes, file weights and unknown word exclusion. An independent NumPy implementation of the '
        'update rules follows every update, given the gradient of the same cost with the same random numbers, and is compared with '
        'all parameters after every update. Batches without usable words are mixed in. Non-trivial: the update changed a parameter. '
        'Distinct by model and options.')
REQUIRED = ['updates compared', 'parameters compared', 'updates with limited norm', 'updates with unlimited norm', 'weighted updates',
            'updates without words', 'learning rate changes', 'restored optimizers', 'updates with excluded words'] + [
    'method ' + m for m in training.METHODS]
ASSUMPTIONS = ['The gradient itself is taken from Theano\'s differentiation of the cost tensor; the cost is judged by C21.']


class CachedCost(object):
    """Gives the optimizer and the reference the same cost tensor, so that both
    use the same random variables."""

    def __init__(self, cost):
        self.cost = cost
        self.tensor = None

    def __getattr__(self, name):
        return getattr(self.cost, name)

    def get_tensor(self):
        if self.tensor is None:
            self.tensor = self.cost.get_tensor()
        return self.tensor


def gradient_function(network, cost, num_noise_samples):
    import theano
    from theano import tensor
    value, _ = cost.get_tensor()
    names = sorted(network.get_variables())
    gradients = [tensor.grad(value, network.get_variables()[n]) for n in names]
    word_ids = tensor.lmatrix()
    class_ids = tensor.lmatrix()
    function = theano.function(
        [word_ids, class_ids, network.mask], gradients, no_default_updates=True, on_unused_input='ignore',
        givens=[(network.input_word_ids, word_ids[:-1]), (network.input_class_ids, class_ids[:-1]),
                (network.target_word_ids, word_ids[1:]), (network.target_class_ids, class_ids[1:]),
                (network.is_training, numpy.int8(1)), (network.num_noise_samples, numpy.int64(num_noise_samples))])
    return lambda *args: dict(zip(names, function(*args)))


class Rule(object):
    """The update rules, as documented in the optimizer classes."""

    def __init__(self, opts, values):
        self.o = opts
        self.t = 0
        zero = {k: numpy.zeros_like(v) for k, v in values.items()}
        one = {k: numpy.ones_like(v) for k, v in values.items()}
        self.velocity = dict(zero)
        self.mean = dict(zero)
        self.square = dict(one if opts['method'].startswith('rmsprop') else zero)
        self.delta_square = dict(zero)

    def limited(self, deltas):
        norm = numpy.sqrt(sum((d.astype('float64') ** 2).sum() for d in deltas.values()))
        scale = min(norm, self.o['max_gradient_norm']) / (self.o['epsilon'] + norm)
        return {k: d * scale for k, d in deltas.items()}, norm > self.o['max_gradient_norm']

    def step(self, values, gradients, rate):
        o, method, eps = self.o, self.o['method'], self.o['epsilon']
        gamma, mu = o['gradient_decay_rate'], o['momentum']
        self.t += 1
        deltas = {}
        for k, g in gradients.items():
            if method in ('sgd', 'nesterov'):
                deltas[k] = -g
            elif method == 'adagrad':
                self.square[k] = self.square[k] + g ** 2
                deltas[k] = -g / numpy.sqrt(self.square[k] + eps)
            elif method == 'adadelta':
                self.square[k] = gamma * self.square[k] + (1 - gamma) * g ** 2
                deltas[k] = -g * numpy.sqrt(self.delta_square[k] + eps) / numpy.sqrt(self.square[k] + eps)
            elif method.startswith('rmsprop'):
                self.square[k] = gamma * self.square[k] + (1 - gamma) * g ** 2
                deltas[k] = -g / numpy.sqrt(self.square[k] + eps)
            else:
                gamma2 = o['sqr_gradient_decay_rate']
                self.mean[k] = gamma * self.mean[k] + (1 - gamma) * g
                self.square[k] = gamma2 * self.square[k] + (1 - gamma2) * g ** 2
                deltas[k] = -self.mean[k] / (numpy.sqrt(self.square[k]) + eps)
        if method == 'adam':
            rate = rate * numpy.sqrt(1 - o['sqr_gradient_decay_rate'] ** self.t) / (1 - gamma ** self.t)
        deltas, was_limited = self.limited(deltas)
        result = {}
        for k, v in values.items():
            d = deltas[k]
            if method == 'adadelta':
                self.delta_square[k] = gamma * self.delta_square[k] + (1 - gamma) * d ** 2
            if method.endswith('nesterov'):
                self.velocity[k] = mu * self.velocity[k] + rate * d
                result[k] = v + mu * self.velocity[k] + rate * d
            else:
                result[k] = v + rate * d
        return result, was_limited


def optimize(rng, mon, method=None):
    from theanolm.training import create_optimizer, CrossEntropyCost, NCECost, BlackoutCost
    method = method or gen.pick(rng, training.METHODS)
    vocab, spec = gen.vocab(rng, size=3 + rng.randint(5), positive=True)
    kind = gen.pick(rng, ['ce', 'ce', 'nce', 'blackout'])
    description = gen.architecture_text(rng, max_hidden=2, size=3, output='softmax' if kind != 'ce' else None,
                                        only=['tanh', 'fc', 'gru', 'lstm', 'dropout', 'highway', 'add'])
    num_files = 1 + rng.randint(3)
    weighted = rng.rand() < 0.5
    weights = numpy.ones(num_files)
    if weighted:
        weights = numpy.array([gen.pick(rng, [0.0, 0.1, 0.5, 2.0, 3.0]) for _ in range(num_files)])
    exclude = not weighted and rng.rand() < 0.5
    opts = training.options(rng, method, weights=weights, num_noise_samples=1 + rng.randint(min(3, vocab.num_classes())))
    if weighted:
        opts['max_gradient_norm'] = float(gen.pick(rng, [1000.0, 0.2]))
    reg = (gen.pick(rng, [None, 0.01]), gen.pick(rng, [None, 0.02]))
    net = gen.network(rng, description, vocab, scale=gen.pick(rng, [0.3, 1.0]), priors=vocab.get_class_probs())
    noise = gen.pick(rng, ['uniform', 'unigram', 'log-uniform'])
    # unigram sampling is without replacement, so it needs enough classes
    net.set_sampling(noise, 0.7, 'batch' if noise == 'unigram' else gen.pick(rng, ['seq', 'batch']))
    cost = CachedCost({'ce': CrossEntropyCost, 'nce': NCECost, 'blackout': BlackoutCost}[kind](
        net, vocab.word_to_id['<unk>'] if exclude else None, reg[0], reg[1], 1e-6))
    opt = create_optimizer(opts, net, cost)
    reference = gradient_function(net, cost, opts['num_noise_samples'])
    rule = Rule(opts, training.parameters(net))
    rate = opts['learning_rate']
    mon.case({'method': method, 'cost': kind, 'architecture': description, 'options': str(opts), 'exclude': exclude})
    mon.count('method ' + method)
    unk = vocab.word_to_id['<unk>']
    long = rng.rand() < 0.08
    mon.count('long trainings', long)
    for step in range(25 + rng.randint(30) if long else 3 + rng.randint(4)):
        batch = training.batch(rng, vocab, num_files=num_files)
        word_ids, class_ids, file_ids, mask = batch
        empty = exclude and step > 0 and rng.rand() < 0.3
        if empty:
            word_ids[1:] = unk
            class_ids[1:] = vocab.word_id_to_class_id[unk]
        elif exclude:
            word_ids[1:][rng.rand(*word_ids[1:].shape) < 0.4] = unk
            class_ids = numpy.array(vocab.word_id_to_class_id)[word_ids]
            mon.count('updates with excluded words', bool((word_ids[1:] == unk)[mask[1:] == 1].any()))
            empty = not ((word_ids[1:] != unk) & (mask[1:] == 1)).any()
        if rng.rand() < 0.2:
            rate = rate / 2
            opt.learning_rate = opt.learning_rate / 2
            mon.count('learning rate changes')
        if rng.rand() < 0.15:
            # through a file, into new shared variables
            path = gen.tmp_path('.h5')
            with h5py.File(path, 'w') as state:
                opt.get_state(state)
            for v in training.variables(opt).values():
                v.set_value(numpy.asarray(v.get_value() * 0 - 17.0, dtype=v.dtype))
            with h5py.File(path, 'r') as state:
                opt.set_state(state)
            mon.count('restored optimizers')
        before = training.parameters(net)
        if empty:
            mon.count('updates without words')
            gradients = {}
            for k, v in before.items():
                g = numpy.zeros_like(v)
                if reg[0] is not None:
                    g = g + reg[0] * numpy.sign(v)
                if reg[1] is not None:
                    g = g + reg[1] * 2 * v
                gradients[k] = g
        else:
            gradients = reference(word_ids, class_ids, mask[1:])
        scale = 1.0
        if weighted:
            positions = mask[1:] == 1
            scale = weights[file_ids[1:][positions]].mean()
            mon.count('weighted updates', scale != 1.0)
        want, was_limited = rule.step(before, gradients, rate * scale)
        opt.update_minibatch(word_ids, class_ids, file_ids, mask)
        after = training.parameters(net)
        mon.count('updates compared')
        mon.count('updates with limited norm' if was_limited else 'updates with unlimited norm')
        for k in sorted(want):
            mon.count('parameters compared')
            mon.check(numpy.isfinite(after[k]).all(), 'not-finite', lambda: '%s is %s after %s' % (k, str(after[k])[:100],
                                                                                             'a batch with no words' if empty else 'update'))
            # compared as updates, so that small ones count too
            size = numpy.abs(want[k] - before[k]).max() if want[k].size else 0.0
            mon.close(after[k] - before[k], want[k] - before[k], 'update', 'step %d of %s: change of %s' % (step, method, k),
                      rtol=1e-6, atol=1e-7 * size + 1e-13)
        # The reference continues from the values of the optimizer.


def by_method(method):
    def family(rng, mon):
        optimize(rng, mon, method)
    return family


FAMILIES = [dict(name=m, fn=by_method(m), quick=16, thorough=150) for m in training.METHODS]
