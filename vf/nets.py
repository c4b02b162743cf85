"""Evaluating networks on batches."""

import numpy


def output_function(network):
    """word_ids, class_ids, mask -> class distributions (time, sequence, class)"""
    import theano
    inputs = [network.input_word_ids, network.input_class_ids, network.mask, network.is_training]
    return theano.function(inputs, network.output_probs(), on_unused_input='ignore')


def target_function(network):
    import theano
    inputs = [network.input_word_ids, network.input_class_ids, network.target_class_ids, network.mask, network.is_training]
    return theano.function(inputs, network.target_probs(), on_unused_input='ignore')


def pad(sequences, fill):
    length = max(len(s) for s in sequences)
    result = numpy.empty((length, len(sequences)), dtype='int64')
    result[:] = fill
    mask = numpy.zeros((length, len(sequences)), dtype='int8')
    for index, seq in enumerate(sequences):
        result[:len(seq), index] = seq
        mask[:len(seq), index] = 1
    return result, mask


def length(rng, usual):
    """The greatest length of a sequence: usually the given one, sometimes much
    longer."""
    return usual if rng.rand() < 0.93 else 40 + rng.randint(100)


def random_ids(rng, spec, vocab, min_len=2, max_len=9, oos=False):
    """A word ID sequence <s> ... </s>."""
    pool = spec.all_words if oos else spec.shortlist
    pool = [w for w in pool if w not in ('<s>', '</s>')]
    length = max(0, min_len - 2) + rng.randint(max_len - max(0, min_len - 2) + 1)
    words = ['<s>'] + [pool[rng.randint(len(pool))] for _ in range(length)] + ['</s>']
    return [vocab.word_to_id[w] for w in words]
