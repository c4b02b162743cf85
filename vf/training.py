"""Optimizers, batches and training runs for the checks."""

import numpy

METHODS = ['sgd', 'nesterov', 'adagrad', 'adadelta', 'rmsprop-sgd', 'rmsprop-nesterov', 'adam']


def options(rng, method, num_files=1, **kwargs):
    import theano
    result = {
        'method': method, 'epsilon': 1e-6, 'gradient_decay_rate': float(rng.choice([0.9, 0.5, 0.95])),
        'sqr_gradient_decay_rate': float(rng.choice([0.999, 0.9])), 'learning_rate': float(rng.choice([0.5, 0.1, 0.01])),
        'weights': numpy.ones(num_files, dtype=theano.config.floatX), 'momentum': float(rng.choice([0.9, 0.5, 0.0])),
        'max_gradient_norm': float(rng.choice([5.0, 0.1, 1000.0])), 'num_noise_samples': 3, 'noise_sharing': None}
    result.update(kwargs)
    return result


def batch(rng, vocab, steps=None, sequences=None, num_files=1):
    """word_ids, class_ids, file_ids, mask in the form the iterators give."""
    sequences = sequences or (1 + rng.randint(4) if rng.rand() < 0.95 else 10 + rng.randint(40))
    steps = steps or 2 + rng.randint(6)
    lengths = [steps] + [2 + rng.randint(steps - 1) for _ in range(sequences - 1)]
    lengths = [lengths[i] for i in rng.permutation(sequences)]
    word_ids = numpy.full((steps, sequences), vocab.word_to_id['<unk>'], dtype='int64')
    mask = numpy.zeros((steps, sequences), dtype='int8')
    file_ids = numpy.zeros((steps, sequences), dtype='int64')
    size = vocab.num_shortlist_words()
    for k, length in enumerate(lengths):
        word_ids[:length, k] = rng.randint(size, size=length)
        word_ids[0, k] = vocab.word_to_id['<s>']
        word_ids[length - 1, k] = vocab.word_to_id['</s>']
        mask[:length, k] = 1
        file_ids[:length, k] = rng.randint(num_files)
    class_ids = numpy.array([[vocab.word_id_to_class_id[w] for w in row] for row in word_ids], dtype='int64')
    return word_ids, class_ids, file_ids, mask


def parameters(owner):
    """Values of all shared variables of a network or an optimizer."""
    return {path: v.get_value() for path, v in variables(owner).items()}


def variables(owner):
    """All shared variables of a network or an optimizer."""
    if hasattr(owner, 'get_variables'):
        return owner.get_variables()
    result = {}
    for name, part in sorted(vars(owner).items()):
        # A table of parameters, whatever it is called.
        if hasattr(part, 'get_variables') and hasattr(part, 'add'):
            result.update(part.get_variables())
    return result


def same_bits(a, b):
    a, b = numpy.asarray(a), numpy.asarray(b)
    return a.shape == b.shape and a.dtype == b.dtype and a.tobytes() == b.tobytes()
