"""Independent NumPy implementation of the networks, from the architecture
description and the parameters stored in a model file."""

import math

import numpy


def sigmoid(x):
    return 1.0 / (1.0 + numpy.exp(-x))


ACTIVATIONS = {
    'tanh': numpy.tanh,
    'relu': lambda x: numpy.maximum(x, 0.0),
    'leakyrelu': lambda x: numpy.where(x > 0, x, 0.3 * x),
}


def parse(description):
    inputs, layers = [], []
    for line in description.splitlines():
        fields = line.split()
        if not fields or fields[0].startswith('#'):
            continue
        options = {'inputs': []}
        for field in fields[1:]:
            key, value = field.split('=', 1)
            if key == 'input':
                options['inputs'].append(value)
            else:
                options[key] = value
        (inputs if fields[0] == 'input' else layers).append(options)
    return inputs, layers


class RefNet(object):

    def __init__(self, description, params, num_words, num_classes, exclude_class=None):
        self.inputs, self.layers = parse(description)
        self.params = params
        self.num_words = num_words
        self.num_classes = num_classes
        self.exclude_class = exclude_class

    def param(self, layer, name):
        return self.params['layers/' + layer + '/' + name]

    def forward(self, word_ids, class_ids, length):
        """word_ids, class_ids: input words of one sequence; the result is the
        class distribution after each of them."""
        outputs, sizes = {}, {}
        for options in self.inputs:
            outputs[options['name']] = word_ids if options['type'] == 'word' else class_ids
            sizes[options['name']] = self.num_words if options['type'] == 'word' else self.num_classes
        last = None
        for options in self.layers:
            name, kind = options['name'], options['type']
            activation = ACTIVATIONS[options.get('activation', 'tanh')]
            in_size = sum(sizes[i] for i in options['inputs'])
            size = int(options['size']) if 'size' in options else in_size
            if kind == 'projection':
                value = self.param(name, 'W')[outputs[options['inputs'][0]]]
                out = value
            else:
                x = numpy.concatenate([outputs[i] for i in options['inputs']], axis=1)
                if kind in ('fc', 'tanh'):
                    out = activation(x.dot(self.param(name, 'input/W')) + self.param(name, 'input/b'))
                elif kind == 'dropout':
                    out = x
                elif kind == 'add':
                    size = int(options['size']) if 'size' in options else sizes[options['inputs'][0]]
                    out = 0.0
                    for index, i in enumerate(options['inputs']):
                        value = outputs[i]
                        if sizes[i] != size:
                            value = value.dot(self.param(name, 'input%d/W' % index))
                        out = out + value
                elif kind in ('highway', 'highwaytanh'):
                    pre = x.dot(self.param(name, 'input/W')) + self.param(name, 'input/b')
                    gate = sigmoid(pre[:, size:])
                    out = activation(pre[:, :size]) * gate + x * (1.0 - gate)
                elif kind == 'glu':
                    out = self.glu(name, x, size)
                elif kind == 'lstm':
                    out = self.lstm(name, self.preact(name, x), size, activation)
                elif kind == 'gru':
                    out = self.gru(name, self.preact(name, x), size)
                elif kind in ('blstm', 'bgru'):
                    out = self.bidirectional(kind, name, x, size, activation)
                elif kind == 'softmax':
                    pre = x.dot(self.param(name, 'input/W')) + self.param(name, 'input/b')
                    if self.exclude_class is not None:
                        pre = pre.copy()
                        pre[:, self.exclude_class] = -numpy.inf
                    pre = pre - pre.max(axis=1, keepdims=True)
                    out = numpy.exp(pre)
                    out = out / out.sum(axis=1, keepdims=True)
                    size = self.num_classes
                elif kind == 'hsoftmax':
                    out = self.hsoftmax(name, x)
                    size = self.num_classes
                else:
                    raise ValueError(kind)
            outputs[name] = out
            sizes[name] = size
            last = out
        return last

    def preact(self, name, x):
        return x.dot(self.param(name, 'layer_input/W')) + self.param(name, 'layer_input/b')

    def lstm(self, name, pre, size, activation):
        weights = self.param(name, 'step_input/W')
        cell, hidden = numpy.zeros(size), numpy.zeros(size)
        out = []
        for row in pre:
            z = row + hidden.dot(weights)
            i, f, o = sigmoid(z[:size]), sigmoid(z[size:2 * size]), sigmoid(z[2 * size:3 * size])
            cell = f * cell + i * numpy.tanh(z[3 * size:])
            hidden = o * activation(cell)
            out.append(hidden)
        return numpy.array(out)

    def gru(self, name, pre, size):
        weights = self.param(name, 'step_input/W')
        hidden = numpy.zeros(size)
        out = []
        for row in pre:
            z = hidden.dot(weights)
            r = sigmoid(row[:size] + z[:size])
            u = sigmoid(row[size:2 * size] + z[size:2 * size])
            candidate = numpy.tanh(row[2 * size:] + r * z[2 * size:])
            hidden = (1.0 - u) * hidden + u * candidate
            out.append(hidden)
        return numpy.array(out)

    def glu(self, name, x, size):
        filters = self.param(name, 'input/W')
        bias = self.param(name, 'input/b')
        width = filters.shape[0]
        out = []
        for t in range(len(x)):
            total = bias.copy()
            for k in range(width):
                source = t - (width - 1) + k
                if source >= 0:
                    total = total + self.tap(filters, k, width, x[source])
            out.append(total[:size] * sigmoid(total[size:]))
        return numpy.array(out)

    def tap(self, filters, k, width, row):
        return row.dot(filters[k])

    def bidirectional(self, kind, name, x, size, activation):
        backward = size // 2
        forward = size - backward
        run = (lambda n, p, s: self.lstm(n, p, s, activation)) if kind == 'blstm' else self.gru
        first = run(name + '/forward', self.preact(name + '/forward', x), forward)
        pre = self.preact(name + '/backward', x)
        shifted = numpy.zeros_like(pre)
        if len(pre) > 2:
            shifted[:-2] = pre[2:]
        second = run(name + '/backward', shifted[::-1], backward)[::-1]
        return numpy.concatenate([first, second], axis=1)

    def hsoftmax(self, name, x):
        number = self.num_classes
        level1 = int(math.ceil(math.sqrt(number)))
        level2 = int(math.ceil(number / level1))
        pre = x.dot(self.param(name, 'input/W')) + self.param(name, 'input/b')
        top = numpy.exp(pre - pre.max(axis=1, keepdims=True))
        top = top / top.sum(axis=1, keepdims=True)
        result = numpy.zeros((len(x), level1 * level2))
        for g in range(level1):
            z = x.dot(self.param(name, 'level1/W')[g]) + self.param(name, 'level1/b')[g]
            e = numpy.exp(z - z.max(axis=1, keepdims=True))
            e = e / e.sum(axis=1, keepdims=True)
            result[:, g * level2:(g + 1) * level2] = top[:, g:g + 1] * e
        return result[:, :number]


def read_params(h5_group, prefix=''):
    """All data sets of a model file by path."""
    result = {}

    def visit(name, item):
        if hasattr(item, 'shape'):
            result[prefix + name] = item[...]
    h5_group.visititems(visit)
    return result
