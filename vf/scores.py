"""Reference for the scores of word sequences: combines the class
distributions of the network with the probabilities in the vocabulary
specification, independently of TextScorer."""

import numpy


class Reference(object):

    def __init__(self, function, vocab, use_shortlist, exclude_unk):
        self.function = function
        self.vocab = vocab
        self.use_shortlist = use_shortlist
        self.exclude_unk = exclude_unk
        self.unk = vocab.word_to_id['<unk>']
        self.size = vocab.num_shortlist_words()
        self.shortlist_mode = use_shortlist and vocab.has_unigram_probs()
        if self.shortlist_mode:
            self.oos = numpy.log(numpy.asarray(vocab.get_oos_probs(), dtype='float64'))

    def excluded(self, word_id):
        if self.shortlist_mode:
            return word_id == self.unk or (self.exclude_unk and word_id >= self.size)
        return self.exclude_unk and (word_id == self.unk or word_id >= self.size)

    def word_logprob(self, distribution, word_id):
        """None if the word is left out of the score."""
        if self.excluded(word_id):
            return None
        shortlist_id = word_id if word_id < self.size else self.unk
        class_id = self.vocab.word_id_to_class_id[shortlist_id]
        membership = self.vocab.get_word_prob(shortlist_id)
        if membership == 0.0:
            return -numpy.inf
        result = numpy.log(distribution[class_id]) + numpy.log(membership)
        if self.shortlist_mode:
            result += self.oos[word_id]
        return result

    def distributions(self, word_ids):
        inputs = numpy.array([w if w < self.size else self.unk for w in word_ids[:-1]], dtype='int64')[:, None]
        classes = numpy.array([self.vocab.word_id_to_class_id[w] for w in inputs[:, 0]], dtype='int64')[:, None]
        return self.function(inputs, classes, numpy.ones(inputs.shape, dtype='int8'), 0)[:, 0]

    def sequence(self, word_ids):
        """Log probability of every word after the first."""
        distributions = self.distributions(word_ids)
        return [self.word_logprob(d, w) for d, w in zip(distributions, word_ids[1:])]


def scored(logprobs):
    """The log probabilities that enter totals."""
    return [lp for lp in logprobs if lp is not None and not numpy.isneginf(lp)]
