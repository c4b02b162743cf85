"""C14: pruning and recombination only discard hypotheses they may discard."""

import numpy

from vf import cli, gen, lattices
from vf.checks.c13 import expectation, observe, tokens_of

RULE = ('Random lattices are decoded with token limits, recombination orders, beams, adaptive limits and combinations of them. '
        'Every returned hypothesis is compared with the enumeration of lattice paths. For token limits and recombination the '
        'whole result is compared with an independent token-passing reference; for beams it must lie between the set that no '
        'beam rule may discard and the set of hypotheses within the beam of a survivor at every node. Limits larger than '
        'needed are compared with unpruned decoding. Non-trivial: pruning removed a hypothesis. Distinct by model, options and lattice.')
QUICK_SCALE = 1.5
REQUIRED = ['hypotheses compared', 'token limits that pruned', 'recombination that pruned', 'beams that pruned',
            'kept because within beam', 'generous limits', 'adaptive limits', 'adaptive results compared',
            'limits that may not be tightened', 'combined pruning', 'exact results compared',
            'second decodings', 'dropped tokens', 'command lines compared', 'beam decisions at timed nodes']
ASSUMPTIONS = ['Log-linear interpolation where the whole result is compared, so that scores are sums over links.',
               'A recombination order is at least one.',
               'Times do not decrease along links.']
TOLERANCE = dict(rtol=1e-8, atol=1e-8)


def topological(lat):
    order, seen = [], set()
    while len(order) < lat.num_nodes:
        for n in range(lat.num_nodes):
            if n not in seen and all(l[0] in seen for l in lat.links if l[1] == n):
                seen.add(n)
                order.append(n)
                break
    return order


def make(rng, mon, max_nodes=8, narrow=False, long=0.03, **kwargs):
    vocab, spec = gen.vocab(rng, size=3 + rng.randint(6), positive=True, simple=True)
    description = gen.architecture_text(rng, stepwise=True, max_hidden=2)
    kwargs.setdefault('nnlm_weight', gen.pick(rng, [1.0, 0.5, 0.3]))
    kwargs.setdefault('lm_scale', gen.pick(rng, [None, 1.0, 3.0]))
    opts = lattices.random_options(rng, **kwargs)
    positive = rng.rand() < 0.3
    pool = [w for w in spec.all_words if w not in ('<s>', '</s>')] + ['oov1', 'oov2']
    if narrow:
        pool = [gen.pick(rng, pool) for _ in range(2)]
    lat = lattices.random_lattice(rng, pool, max_nodes=max_nodes, positive=positive, long=long)
    for _ in range(20):
        if len(lat.paths()) >= 6:
            break
        lat = lattices.random_lattice(rng, pool, max_nodes=max_nodes, positive=positive, long=long)
    lat.links = [l[:4] + (l[4] if l[4] is not None else 0.0,) for l in lat.links]
    observe(mon, vocab, lat, opts)
    return vocab, spec, description, opts, lat


class Prefix(object):
    """Scores of path prefixes: ac + scale * lm + wi * words, as decoding
    defines them before the sentence end."""

    def __init__(self, reference, lat):
        self.reference = reference
        self.lat = lat

    def network(self, path):
        words = ('<s>',) + lattices.path_words(path)
        lms = [l[4] for l in path if l[2] is not None] + [0.0]
        # network_score treats the last word as the sentence end
        if len(words) > 1:
            return self.reference.network_score(words + ('</s>',), lms) - self.end(words)
        return 0.0

    def score(self, path):
        words = ('<s>',) + lattices.path_words(path)
        return self.reference.total(self.lat, words, sum(l[3] for l in path), sum(l[4] for l in path), self.network(path))

    def end(self, words):
        r = self.reference
        p = r.distributions(words)[-1]
        eos = r.short('</s>')
        score = numpy.log(p[r.vocab.word_id_to_class_id[eos]] * r.vocab.get_word_prob(eos))
        if r.oos is not None:
            score += r.oos[r.vocab.word_to_id['</s>']]
        return score


def reference_search(reference, lat, max_tokens=None, order=None):
    """Token passing with exact limits: per node the best of each group of
    hypotheses with the same last words, and of those the best max_tokens."""
    prefix = Prefix(reference, lat)

    def reduce(paths, score, ended):
        ranked = sorted(((score(p), p) for p in paths), key=lambda x: -x[0])
        result, seen = [], set()
        for s, p in ranked:
            words = ('<s>',) + lattices.path_words(p) + (('</s>',) if ended else ())
            key = words if order is None else words[-order:]
            if key not in seen:
                seen.add(key)
                result.append((s, p))
        return result
    at = {n: [] for n in range(lat.num_nodes)}
    at[lat.initial] = [()]
    gaps = []
    for node in topological(lat):
        kept = reduce(at[node], prefix.score, False)
        scores = [s for s, _ in kept]
        gaps.extend(a - b for a, b in zip(scores, scores[1:]))
        at[node] = [p for _, p in kept][:max_tokens]
        for link in lat.out(node):
            at[link[1]].extend(p + (link,) for p in at[node])
    final = reduce(at[lat.final], lambda p: reference.path(lat, p)[4], True)
    return [(reference.path(lat, p)[0], s, p) for s, p in final], min([1.0] + gaps)


def genuine(mon, expected, found):
    """Every hypothesis is a path of the lattice with its own score."""
    mon.check(len(found) > 0, 'empty', 'no hypothesis survived')
    totals = [f[4] for f in found]
    mon.check(all(a >= b for a, b in zip(totals, totals[1:])), 'order', 'scores are not in order: %r' % totals)
    for words, ac, lat_lm, nn, total in found:
        mon.count('hypotheses compared')
        mon.check(words in expected, 'not-a-path', lambda: '%r is not a path of the lattice' % (words,))
        entry = min(expected[words], key=lambda e: abs(e[0] - ac) + abs(e[1] - lat_lm))
        mon.close((ac, lat_lm, nn, total), entry, 'score', 'scores of %r' % (words,), **TOLERANCE)


def exact(rng, mon):
    """Token limits and recombination have an exact result."""
    which = rng.randint(3)
    vocab, spec, description, opts, lat = make(rng, mon, linear_interpolation=False, narrow=which != 0 and rng.rand() < 0.6)
    if which != 1:
        opts['max_tokens_per_node'] = int(gen.pick(rng, [1, 1, 2, 3, 5]))
    if which != 0:
        opts['recombination_order'] = int(gen.pick(rng, [1, 1, 2, 3]))
    decoder, function, _ = lattices.decoder(rng, description, vocab, opts)
    reference = lattices.DecodeReference(function, vocab, opts)
    expected = expectation(reference, lat)
    lattice = lattices.lattice_object(rng, lat)
    tokens, dropped = decoder.decode(lattice)
    found = tokens_of(tokens, vocab)
    mon.case({'architecture': description, 'vocabulary': spec.describe(), 'options': opts, 'lattice': lat.describe()},
             nontrivial=len(found) < len(expected))
    genuine(mon, expected, found)
    wanted, gap = reference_search(reference, lat, opts['max_tokens_per_node'], opts['recombination_order'])
    if len(found) < len(expected):
        mon.count('token limits that pruned', which == 0)
        mon.count('recombination that pruned', which == 1)
        mon.count('combined pruning', which == 2)
    inspect_dropped(mon, dropped, vocab, opts)
    if gap < 1e-6:
        return
    mon.count('exact results compared')
    mon.check(sorted(f[0] for f in found) == sorted(w[0] for w in wanted), 'kept',
              lambda: 'kept %r, the limits keep %r' % (sorted(f[0] for f in found), sorted(w[0] for w in wanted)))
    scores = {w[0]: w[1] for w in wanted}
    for f in found:
        mon.close(f[4], scores[f[0]], 'kept-score', 'the kept path of %r' % (f[0],), **TOLERANCE)
    mon.check(tokens_of(decoder.decode(lattice)[0], vocab) == found, 'again', 'decoding again gives another result')
    mon.count('second decodings')


def inspect_dropped(mon, dropped, vocab, opts):
    """Recombined tokens have the recent words of a token that scores better."""
    order = opts['recombination_order']
    for token, history, _ in dropped:
        mon.count('dropped tokens')
        a = token.history if order is None else token.history[-order:]
        b = history if order is None else history[-order:]
        mon.check(a == b, 'recombined', 'merged %r into %r' % (token.history, history))


def beam(rng, mon):
    vocab, spec, description, opts, lat = make(rng, mon, linear_interpolation=False)
    decoder_width = float(gen.pick(rng, [0.5, 2.0, 8.0, 25.0, 80.0]))
    opts['beam'] = decoder_width
    decoder, function, _ = lattices.decoder(rng, description, vocab, opts)
    reference = lattices.DecodeReference(function, vocab, opts)
    expected = expectation(reference, lat)
    prefix = Prefix(reference, lat)
    lattice = lattices.lattice_object(rng, lat)
    found = tokens_of(decoder.decode(lattice)[0], vocab)
    mon.case({'architecture': description, 'vocabulary': spec.describe(), 'options': opts, 'lattice': lat.describe()},
             nontrivial=len(found) < len(expected))
    genuine(mon, expected, found)
    mon.count('beams that pruned', len(found) < len(expected))
    check_beam(mon, reference, prefix, lat, found, decoder_width)
    again = tokens_of(decoder.decode(lattice)[0], vocab)
    mon.check(again == found, 'again', lambda: 'decoding again gives %r instead of %r' % (again, found))
    mon.count('second decodings')


def check_beam(mon, reference, prefix, lat, found, width, widest=None):
    widest = width if widest is None else widest
    ancestors = {n: set() for n in range(lat.num_nodes)}
    for node in topological(lat):
        for link in lat.links:
            if link[1] == node:
                ancestors[node] |= ancestors[link[0]] | {link[0]}
    paths = lat.paths()
    best = {}
    scores = {}
    for path in paths:
        node = lat.initial
        for k in range(len(path) + 1):
            part = path[:k]
            if part not in scores:
                scores[part] = prefix.score(part)
            end = part[-1][1] if part else node
            best[end] = max(best.get(end, -numpy.inf), scores[part])
    times = lat.times or {}
    limit = {}
    for n in range(lat.num_nodes):
        # nodes that may be at the same or a later time
        if n in times and len(times) == lat.num_nodes:
            later = [m for m in range(lat.num_nodes) if times[m] >= times[n]]
            mon.count('beam decisions at timed nodes')
        elif n in times:
            later = list(range(lat.num_nodes))
        else:
            later = [m for m in range(lat.num_nodes) if m not in ancestors[n]]
        limit[n] = max(best[m] for m in later) - width

    def nodes(path):
        return [lat.initial] + [l[1] for l in path]
    kept_words = {f[0] for f in found}
    by_words = {}
    for path in paths:
        words, _, _, _, total = reference.path(lat, path)
        if words not in by_words or total > by_words[words][1]:
            by_words[words] = (path, total)
    for words, (path, total) in by_words.items():
        safe = all(scores[path[:k]] > limit[n] + 1e-6 for k, n in enumerate(nodes(path)))
        if safe:
            mon.count('kept because within beam')
            mon.check(words in kept_words, 'beam-too-narrow', lambda: '%r was within %g of the best at every node but was '
                      'discarded' % (words, width))
    # Survivors at a node lie within the beam of the node's best survivor.
    survivors = {}
    for words, ac, lat_lm, nn, total in found:
        candidates = [p for p in paths if reference.path(lat, p)[0] == words and abs(reference.path(lat, p)[4] - total) < 1e-6]
        if len(candidates) != 1:
            continue
        path = candidates[0]
        for k, n in enumerate(nodes(path)):
            survivors.setdefault(n, []).append((scores[path[:k]], words))
    for n, entries in survivors.items():
        top = max(entries)[0]
        for score, words in entries:
            mon.check(score > top - widest - 1e-6, 'beam-too-wide',
                      lambda: '%r survived at a node where it scored %g, %g below the best' % (words, score, top - score))


def adaptive(rng, mon):
    """Limits that are tightened for large lattices stay between the configured
    limit and the absolute minimum."""
    vocab, spec, description, opts, lat = make(rng, mon, linear_interpolation=False)
    opts['prune_extra_limit'] = int(gen.pick(rng, [1, 1, 2, 3, 100]))
    by_tokens = rng.rand() < 0.5
    if by_tokens:
        most = int(gen.pick(rng, [2, 3, 4, 8]))
        least = int(gen.pick(rng, [0, 1, 2, most, most]))
        least = min(least, most)
        opts.update(max_tokens_per_node=most, abs_min_max_tokens=least, abs_min_beam=0.0)
    else:
        most = float(gen.pick(rng, [2.0, 8.0, 25.0, 80.0]))
        least = most * gen.pick(rng, [0.0, 0.5, 0.9, 1.0, 1.0])
        opts.update(beam=most, abs_min_beam=least, abs_min_max_tokens=0)
    decoder, function, _ = lattices.decoder(rng, description, vocab, opts)
    reference = lattices.DecodeReference(function, vocab, opts)
    expected = expectation(reference, lat)
    found = tokens_of(decoder.decode(lattices.lattice_object(rng, lat))[0], vocab)
    mon.case({'architecture': description, 'vocabulary': spec.describe(), 'options': opts, 'lattice': lat.describe()},
             nontrivial=len(found) < len(expected))
    genuine(mon, expected, found)
    mon.count('adaptive limits')
    mon.count('limits that may not be tightened', least == most)
    if not by_tokens:
        check_beam(mon, reference, Prefix(reference, lat), lat, found, least, most)
        return
    mine = sorted(f[0] for f in found)
    tried = []
    for limit in range(max(least, 1), most + 1):
        wanted, gap = reference_search(reference, lat, limit)
        if gap < 1e-6:
            return
        tried.append(sorted(w[0] for w in wanted))
        if tried[-1] == mine:
            mon.count('adaptive results compared')
            return
    mon.check(False, 'adaptive', lambda: 'kept %r, but %d to %d tokens per node keep %r' % (mine, max(least, 1), most, tried))


def combined(rng, mon):
    """All limits together, also adaptive ones."""
    vocab, spec, description, opts, lat = make(rng, mon, max_nodes=9, linear_interpolation=bool(rng.rand() < 0.3))
    if rng.rand() < 0.7:
        opts['beam'] = float(gen.pick(rng, [0.1, 3.0, 20.0]))
    if rng.rand() < 0.7:
        opts['max_tokens_per_node'] = int(gen.pick(rng, [1, 2, 3, 7]))
    if rng.rand() < 0.4:
        opts['recombination_order'] = int(gen.pick(rng, [1, 2]))
    if rng.rand() < 0.6:
        opts['prune_extra_limit'] = int(gen.pick(rng, [1, 2, 3, 100]))
        opts['abs_min_beam'] = float(gen.pick(rng, [0.0, 1.0, 150.0]))
        opts['abs_min_max_tokens'] = int(gen.pick(rng, [0, 1, 2, 30]))
        mon.count('adaptive limits')
    decoder, function, _ = lattices.decoder(rng, description, vocab, opts)
    reference = lattices.DecodeReference(function, vocab, opts)
    expected = expectation(reference, lat)
    mon.case({'architecture': description, 'vocabulary': spec.describe(), 'options': opts, 'lattice': lat.describe()})
    tokens, dropped = decoder.decode(lattices.lattice_object(rng, lat))
    genuine(mon, expected, tokens_of(tokens, vocab))
    inspect_dropped(mon, dropped, vocab, opts)
    mon.count('combined pruning')


def generous(rng, mon):
    """Limits that exceed what the lattice needs change nothing."""
    vocab, spec, description, opts, lat = make(rng, mon)
    decoder, function, step = lattices.decoder(rng, description, vocab, opts)
    mon.case({'architecture': description, 'vocabulary': spec.describe(), 'options': opts, 'lattice': lat.describe()})
    expected = tokens_of(decoder.decode(lattices.lattice_object(rng, lat))[0], vocab)
    from theanolm.scoring import LatticeDecoder
    for extra in ({'beam': 1e6}, {'max_tokens_per_node': 200}, {'recombination_order': 50},
                  {'beam': 1e6, 'max_tokens_per_node': 200, 'recombination_order': 50},
                  {'beam': 1e6, 'max_tokens_per_node': 200, 'prune_extra_limit': 1000}):
        other = LatticeDecoder(step, dict(opts, **extra))
        found = tokens_of(other.decode(lattices.lattice_object(rng, lat))[0], vocab)
        mon.count('generous limits')
        mon.check(sorted(f[0] for f in found) == sorted(f[0] for f in expected), 'generous',
                  lambda: '%r changed the hypotheses' % extra)
        mon.close([f[4] for f in found], [f[4] for f in expected], 'generous', '%r changed the scores' % extra, **TOLERANCE)


def command(rng, mon):
    """Pruning options of the decode command."""
    vocab, spec, description, opts, lat = make(rng, mon, linear_interpolation=False, use_shortlist=False, unk_penalty=None,
                                               unk_from_lattice=False, lm_scale=None, wi_penalty=None)
    step = gen.network(rng, description, vocab, scale=1.0, minibatch=False)
    path = gen.save_model(step, gen.tmp_path('.h5'))
    from theanolm.scoring import LatticeDecoder
    arguments = []
    adaptive = rng.rand() < 0.5
    for name, flag, values in (('max_tokens_per_node', '--max-tokens-per-node', [1, 2, 4]), ('beam', '--beam', [0.5, 10.0]),
                               ('recombination_order', '--recombination-order', [1, 2])):
        if rng.rand() < 0.6 or (adaptive and name != 'recombination_order'):
            opts[name] = gen.pick(rng, values)
            arguments += [flag, opts[name]]
    if adaptive:
        mon.count('adaptive limits')
        opts['prune_extra_limit'] = gen.pick(rng, [1, 2, 4])
        arguments += ['--prune-relative', opts['prune_extra_limit']]
        # documented defaults
        opts.update(abs_min_beam=150.0, abs_min_max_tokens=30)
        if rng.rand() < 0.7:
            opts['abs_min_beam'] = gen.pick(rng, [0.0, 1.0, 5.0, 12.0, 50.0])
            arguments += ['--abs-min-beam', opts['abs_min_beam']]
        if rng.rand() < 0.7:
            opts['abs_min_max_tokens'] = gen.pick(rng, [1, 2, 3, 5])
            arguments += ['--abs-min-max-tokens', opts['abs_min_max_tokens']]
    mon.case({'architecture': description, 'arguments': [str(a) for a in arguments], 'lattice': lat.describe()})
    slf = lattices.to_slf(rng, lat, plain=True)
    output_path = gen.tmp_path('.out')
    result = cli.theanolm('decode', path, '--lattices', gen.tmp_file(slf, '.slf'), '--n-best', 1000, '--output', 'full',
                          '--nnlm-weight', opts['nnlm_weight'], *arguments, '--output-file', output_path, '--log-file',
                          gen.tmp_path('.log'))
    mon.check(result.code == 0, 'exit', lambda: 'decode failed: %r' % result)
    tokens, _ = LatticeDecoder(step, opts).decode(lattices.read_slf(slf))
    with open(output_path, encoding='utf-8') as f:
        lines = [line.split(' ') for line in f.read().splitlines()]
    start = len(lat.utterance.split(' '))
    got = [(tuple(l[start + 4:]), float(l[start + 2])) for l in lines]
    expected = [(f[0], f[4]) for f in tokens_of(tokens, vocab)]
    mon.count('command lines compared', len(got))
    mon.check([g[0] for g in got] == [e[0] for e in expected], 'command', lambda: 'the command gives %r, the decoder %r'
              % (got, expected))
    mon.close([g[1] for g in got], [e[1] for e in expected], 'command', 'scores', **TOLERANCE)


FAMILIES = [
    dict(name='exact', fn=exact, quick=150, thorough=1500),
    dict(name='beam', fn=beam, quick=130, thorough=1500),
    dict(name='adaptive', fn=adaptive, quick=100, thorough=1000),
    dict(name='combined', fn=combined, quick=70, thorough=800),
    dict(name='generous', fn=generous, quick=30, thorough=300),
    dict(name='command', fn=command, quick=70, thorough=300),
]
