"""Random word lattices, their files, and what decoding them should give."""

import io
import itertools

import numpy

from vf import gen


class LatSpec(object):
    """links: (start, end, word or None, acoustic, lm or None)"""

    def __init__(self):
        self.num_nodes = 0
        self.links = []
        self.initial = 0
        self.final = 0
        self.times = None
        self.utterance = 'utt'
        self.lm_scale = None
        self.wi_penalty = None

    def out(self, node):
        return [l for l in self.links if l[0] == node]

    def paths(self, limit=4000):
        """All link sequences from the initial to the final node."""
        result = []
        stack = [(self.initial, ())]
        while stack:
            node, path = stack.pop()
            if node == self.final:
                result.append(path)
                if len(result) > limit:
                    raise RuntimeError('too many paths')
            for link in self.out(node):
                stack.append((link[1], path + (link,)))
        return result

    def describe(self):
        return {'nodes': self.num_nodes, 'links': self.links, 'times': self.times, 'lmscale': self.lm_scale,
                'wdpenalty': self.wi_penalty, 'final': self.final}


def path_words(path):
    return tuple(l[2] for l in path if l[2] is not None)


def random_lattice(rng, words, max_nodes=7, null=0.2, determinized=False, times=None, unique=False, tail_null=None,
                   positive=False, enumerable=True, long=0.0):
    """A random lattice.  All nodes are on a path from the initial to the final
    node; the node numbers need not be in topological order."""
    # Words that start with these characters stand for no word in SLF lattices.
    words = [w for w in words if w[0] not in '!#'] or ['oov1']
    chain = 30 + rng.randint(100) if long and rng.rand() < long else None
    while True:
        spec = _random_lattice(rng, words, max_nodes, null, determinized, times, tail_null, positive, chain)
        if not enumerable:
            return spec
        try:
            paths = spec.paths(60)
        except RuntimeError:
            continue
        if not paths or not any(path_words(p) for p in paths):
            continue
        if unique and len(set(map(path_words, paths))) != len(paths):
            continue
        return spec


def _random_lattice(rng, words, max_nodes, null, determinized, times, tail_null, positive, chain=None):
    spec = LatSpec()
    number = chain or 2 + rng.randint(max_nodes - 1)
    order = list(range(number))
    if rng.rand() < 0.5:
        order = [int(x) for x in rng.permutation(number)]
        if rng.rand() < 0.5:
            # the initial node first, as usual
            order.remove(0)
            order.insert(0, 0)
    edges = set()
    for k in range(1, number):
        edges.add((k - 1 if chain else rng.randint(k), k))
    for k in range(number - 1):
        if not any(a == k for a, _ in edges):
            edges.add((k, k + 1 + rng.randint(number - 1 - k)))
    for _ in range(rng.randint(4 if chain else number + 1)):
        a = rng.randint(number - 1)
        edges.add((a, a + 1 + rng.randint(number - 1 - a)))
    links = []

    def score():
        value = -float(numpy.round(rng.rand() * 10 ** rng.randint(0, 3), 6))
        return -value if positive and rng.rand() < 0.5 else value
    for a, b in sorted(edges):
        copies = 1 if determinized else 1 + (rng.rand() < (0.02 if chain else 0.2)) + (rng.rand() < (0.0 if chain else 0.05))
        for _ in range(copies):
            word = gen.pick(rng, words)
            if rng.rand() < null or (tail_null and b == number - 1):
                word = None
            links.append((a, b, word, score(), score() / 3 if rng.rand() < 0.95 else 0.0))
    if determinized:
        links = determinize(links, number)
        used = sorted({0, number - 1} | {l[0] for l in links} | {l[1] for l in links})
        links = [(used.index(l[0]), used.index(l[1])) + l[2:] for l in links]
        number = len(used)
        order = [0] + [1 + int(x) for x in rng.permutation(number - 1)]
    spec.num_nodes = number
    spec.links = [(order[a], order[b], w, ac, lm) for a, b, w, ac, lm in links]
    spec.links = [spec.links[i] for i in rng.permutation(len(spec.links))]
    spec.initial, spec.final = order[0], order[number - 1]
    if times or (times is None and rng.rand() < 0.6):
        steps = numpy.cumsum([0] + [gen.pick(rng, [0.0, 0.01, 0.25, 1.0, 0.003, 0.0125]) for _ in range(number - 1)])
        digits = 2 if rng.rand() < 0.6 else 6
        spec.times = {order[k]: round(float(steps[k]), digits) for k in range(number)}
        if times is None and rng.rand() < 0.2:
            spec.times.pop(order[rng.randint(number)], None)
    spec.utterance = gen.pick(rng, ['utt1', 'utterance 123', 'spk-ö_4', 'a.b/c'])
    if rng.rand() < 0.5:
        spec.lm_scale = gen.pick(rng, [1.0, 9.5, 12.3, 0.5, 0.0])
    if rng.rand() < 0.5:
        spec.wi_penalty = gen.pick(rng, [0.0, -0.7, 1.3])
    return spec


def determinize(links, number):
    """Drops links until every word is reached in only one way from every node,
    looking through null links, keeping all nodes connected or failing later."""
    result = []

    def closure(node, current):
        found = []
        for l in current:
            if l[0] == node:
                if l[2] is None:
                    found.extend(closure(l[1], current))
                else:
                    found.append(l[2])
        return found

    def final_ways(node, current):
        """Number of ways to the final node over null links."""
        if node == number - 1:
            return 1
        return sum(final_ways(l[1], current) for l in current if l[0] == node and l[2] is None)
    for link in links:
        trial = result + [link]
        ok = all(len(set(c)) == len(c) for c in (closure(k, trial) for k in range(number)))
        ok = ok and all(final_ways(k, trial) <= 1 for k in range(number))
        if ok:
            result = trial
    # remove what is not on a path any more
    while True:
        reach = {0}
        for l in sorted(result):
            if l[0] in reach:
                reach.add(l[1])
        back = {number - 1}
        for l in sorted(result, key=lambda l: -l[1]):
            if l[1] in back:
                back.add(l[0])
        keep = [l for l in result if l[0] in reach and l[1] in back]
        if len(keep) == len(result):
            return keep
        result = keep


# ------------------------------------------------------------------ files

def quote(value):
    if any(c in value for c in ' "\\#\t'):
        return '"' + value.replace('\\', '\\\\').replace('"', '\\"') + '"'
    return value


def to_slf(rng, spec, base=None, words_in_nodes=False, plain=False):
    """SLF text.  base: None (natural), 10, 2 or 0 (probabilities)."""
    def number(value):
        if base is None:
            return repr(float(value))
        if base == 0:
            return repr(float(numpy.exp(value)))
        return repr(float(value / numpy.log(base)))
    long = (not plain) and rng.rand() < 0.5
    sep = ' ' if plain else gen.pick(rng, ['\t', ' ', '   '])
    lines = ['VERSION=1.1']
    header = []
    if spec.utterance is not None:
        header.append(('UTTERANCE=' if long else 'U=') + quote(spec.utterance))
    if base is not None:
        header.append('base=%s' % base)
    if spec.lm_scale is not None:
        header.append('lmscale=%r' % spec.lm_scale)
    if spec.wi_penalty is not None:
        header.append('wdpenalty=%s' % number(spec.wi_penalty))
    starts = [n for n in range(spec.num_nodes) if not any(l[1] == n for l in spec.links)]
    if starts[:1] != [spec.initial] or rng.rand() < 0.5:
        header.append('start=%d' % spec.initial)
    if rng.rand() < 0.3:
        header.append('end=%d' % spec.final)
    if not plain:
        header = [header[i] for i in rng.permutation(len(header))]
    lines.extend(header if rng.rand() < 0.5 or not header else [sep.join(header)])
    lines.append('%s=%d%s%s=%d' % ('NODES' if long else 'N', spec.num_nodes, sep, 'LINKS' if long else 'L', len(spec.links)))
    node_words = {}
    if words_in_nodes:
        for l in spec.links:
            node_words[l[1]] = l[2]
    body = []
    node_lines = []
    for node in range(spec.num_nodes):
        fields = ['I=%d' % node]
        if spec.times is not None and node in spec.times:
            fields.append(('time=' if long else 't=') + repr(spec.times[node]))
        if words_in_nodes and node in node_words:
            word = node_words[node]
            fields.append(('WORD=' if long else 'W=') + (gen.pick(rng, ['!NULL', '!NULL', '!NULL', '#0', '#x']) if word is None else quote(word)))
        node_lines.append(sep.join(fields))
    link_lines = []
    for index, (a, b, word, ac, lm) in enumerate(spec.links):
        fields = ['%s=%d' % ('START' if long else 'S', a), '%s=%d' % ('END' if long else 'E', b)]
        if not words_in_nodes:
            if word is not None:
                fields.append(('WORD=' if long else 'W=') + quote(word))
            elif rng.rand() < 0.7:
                fields.append(('WORD=' if long else 'W=') + gen.pick(rng, ['!NULL', '!SENT_START', '!NULL', '#0', '#x']))
        fields.append(('acoustic=' if long else 'a=') + number(ac))
        if lm is not None:
            fields.append(('language=' if long else 'l=') + number(lm))
        if not plain and rng.rand() < 0.2:
            fields.append('v=0')
        link_lines.append(sep.join(['J=%d' % index] + fields))
    if not plain and rng.rand() < 0.3:
        body = ['# nodes'] + node_lines + ['', '# links'] + link_lines
    else:
        body = node_lines + link_lines
    if not plain and rng.rand() < 0.3:
        lines.insert(0, '# a comment')
    return '\n'.join(lines + body) + '\n'


def read_slf(text):
    from theanolm.scoring.slflattice import SLFLattice
    return SLFLattice(io.StringIO(text))


def lattice_object(rng, spec):
    return read_slf(to_slf(rng, spec, plain=True))


def kaldi_words(words):
    return ['<eps>'] + sorted(set(words) - {'<eps>'})


def to_kaldi(spec, word_to_id, transitions=None):
    """Kaldi CompactLattice text.  The initial state has to come first, and the
    links to the final node are null links; they become final weights."""
    order = [spec.initial] + [n for n in range(spec.num_nodes) if n not in (spec.initial, spec.final)]
    lines = [spec.utterance]
    for node in order:
        for index, (a, b, word, ac, lm) in enumerate(spec.links):
            if a != node:
                continue
            lm = 0.0 if lm is None else lm
            weight = '%r,%r,%s' % (-lm + 0.0, -ac + 0.0, '' if transitions is None else transitions[index])
            if b == spec.final:
                assert word is None
                lines.append('%d %s' % (a, weight))
            else:
                lines.append('%d %d %d %s' % (a, b, word_to_id['<eps>' if word is None else word], weight))
    return '\n'.join(lines) + '\n\n'


# -------------------------------------------------------------- decoding

DEFAULTS = dict(nnlm_weight=1.0, lm_scale=None, wi_penalty=None, unk_penalty=None, use_shortlist=False,
                unk_from_lattice=False, linear_interpolation=False, max_tokens_per_node=None, beam=None,
                recombination_order=None)


def options(**kwargs):
    result = dict(DEFAULTS)
    result.update(kwargs)
    return result


def random_options(rng, **kwargs):
    result = options(
        nnlm_weight=gen.pick(rng, [0.0, 1.0, 0.5, 0.3, 0.9]),
        lm_scale=gen.pick(rng, [None, None, None, 1.0, 11.5, 0.3, 0.0]),
        wi_penalty=gen.pick(rng, [None, None, 0.0, -2.5, 1.5]),
        unk_penalty=gen.pick(rng, [None, None, -3.0, -100.0, 0.0]),
        use_shortlist=bool(rng.rand() < 0.5),
        unk_from_lattice=bool(rng.rand() < 0.25),
        linear_interpolation=bool(rng.rand() < 0.3))
    result.update(kwargs)
    return result


class DecodeReference(object):
    """Scores whole paths with the class distributions of the mini-batch
    network."""

    def __init__(self, function, vocab, opts):
        self.function = function
        self.vocab = vocab
        self.opts = opts
        self.unk = vocab.word_to_id['<unk>']
        self.size = vocab.num_shortlist_words()
        self.cache = {}
        self.oos = None
        if opts['use_shortlist'] and vocab.has_unigram_probs():
            self.oos = numpy.log(numpy.asarray(vocab.get_oos_probs(), dtype='float64'))

    def short(self, word):
        word_id = self.vocab.word_to_id.get(word)
        return word_id if word_id is not None and word_id < self.size else self.unk

    def distributions(self, words):
        """words: <s> ...; the distribution after each of them"""
        key = tuple(words)
        if key not in self.cache:
            ids = numpy.array([self.short(w) for w in words], dtype='int64')[:, None]
            classes = numpy.array([self.vocab.word_id_to_class_id[i] for i in ids[:, 0]], dtype='int64')[:, None]
            self.cache[key] = self.function(ids, classes, numpy.ones(ids.shape, 'int8'), 0)[:, 0]
        return self.cache[key]

    def network_score(self, words, lms):
        """words with <s> and </s>; lms: lattice LM score of the link of each
        word after <s> (None for </s>)"""
        total = 0.0
        for position, distribution in enumerate(self.distributions(words[:-1])):
            word = words[position + 1]
            short = self.short(word)
            p = distribution[self.vocab.word_id_to_class_id[short]] * self.vocab.get_word_prob(short)
            score = numpy.log(p)
            word_id = self.vocab.word_to_id.get(word)
            replacement = None
            if position + 2 < len(words):
                if self.opts['unk_from_lattice']:
                    replacement = lms[position]
                elif self.opts['unk_penalty'] is not None:
                    replacement = self.opts['unk_penalty']
            if self.oos is not None:
                if word_id is not None:
                    score += self.oos[word_id]
                elif replacement is not None:
                    score = replacement
            elif (word_id is None or word_id >= self.size) and replacement is not None:
                score = replacement
            total += score
        return total

    def path(self, spec, path):
        words = ('<s>',) + path_words(path) + ('</s>',)
        lms = [l[4] for l in path if l[2] is not None] + [None]
        ac = sum(l[3] for l in path)
        lat = sum(l[4] for l in path if l[4] is not None)
        nn = self.network_score(words, lms)
        return words, ac, lat, nn, self.total(spec, words, ac, lat, nn)

    def total(self, spec, words, ac, lat, nn):
        weight = self.opts['nnlm_weight']
        lm_scale = self.opts['lm_scale'] if self.opts['lm_scale'] is not None else \
            (spec.lm_scale if spec.lm_scale is not None else 1.0)
        wi = self.opts['wi_penalty'] if self.opts['wi_penalty'] is not None else \
            (spec.wi_penalty if spec.wi_penalty is not None else 0.0)
        if self.opts['linear_interpolation']:
            parts = [numpy.log(w) + s for w, s in ((weight, nn), (1.0 - weight, lat)) if w > 0]
            lm = numpy.logaddexp.reduce(parts)
        else:
            lm = sum(w * s for w, s in ((weight, nn), (1.0 - weight, lat)) if w > 0)
        return ac + lm_scale * lm + wi * (len(words) - 1)

    def all_paths(self, spec):
        return [self.path(spec, p) for p in spec.paths()]


def decoder(rng, description, vocab, opts, scale=1.0):
    """The real decoder and the class distribution function of the same model
    in mini-batch mode."""
    from theanolm.scoring import LatticeDecoder
    from vf import nets
    step = gen.network(rng, description, vocab, scale=scale, minibatch=False)
    whole = gen.network(rng, description, vocab, scale=None)
    gen.copy_parameters(step, whole)
    return LatticeDecoder(step, dict(opts)), nets.output_function(whole), step
