"""C16: rescored lattices contain the decoded hypotheses with their scores."""

import io

import numpy

from vf import cli, gen, lattices
from vf.checks.c13 import observe, tokens_of
from vf.checks.c14 import Prefix

RULE = ('Determinised random lattices are decoded with and without pruning and recombination, and the rescored lattice built from '
        'the result is enumerated: its paths are compared with the kept hypotheses (words, acoustic score, sum of lattice and '
        'network language model scores, transition IDs) and with the paths of the original lattice. The lattices are written in '
        'both formats and read back, directly and by the decode command. Non-trivial: more than one hypothesis. Distinct by model, '
        'options and lattice.')
REQUIRED = ['hypotheses compared', 'paths compared', 'recombined paths', 'recombined links compared', 'null links',
            'final link scores', 'pruned lattices', 'slf round trips', 'kaldi round trips', 'command lattices', 'quoted words',
            'transitions', 'lattices written as read', 'times compared', 'out-of-vocabulary words', 'stored lm_scale',
            'stored wi_penalty']
ASSUMPTIONS = ['The lattice is determinised; rescoring others is documented not to work properly.',
               'Null links occur only before the final node when recombination is limited to recent words (same documentation).']
TOLERANCE = dict(rtol=1e-8, atol=1e-7)


def make_lattice(rng, words, null, max_nodes=8):
    for _ in range(200):
        lat = lattices.random_lattice(rng, words, max_nodes=max_nodes, null=null, determinized=True, tail_null=True, long=0.05)
        if len(lat.paths()) >= 3 or rng.rand() < 0.05:
            break
    lat.links = [l[:4] + (l[4] or 0.0,) for l in lat.links]
    if rng.rand() < 0.2:
        final = lat.final
        lat.links = [l[:3] + (0.0, 0.0) if l[1] == final else l for l in lat.links]
    return lat


def read_kaldi(text, word_to_id):
    from theanolm.scoring import LatticeBatch
    path = gen.tmp_file(text, '.lat')
    return list(LatticeBatch([path], None, 'kaldi', io.StringIO(''.join('%s %d\n' % i for i in word_to_id.items()))))


def enumerate_paths(mon, lattice, limit=3000):
    """[(words, ac, lm, transitions)]"""
    result = []
    stack = [(lattice.initial_node, (), 0.0, 0.0, ())]
    while stack:
        node, words, ac, lm, transitions = stack.pop()
        mon.check(len(words) < len(lattice.nodes), 'cycle', lambda: 'the rescored lattice has a cycle: %r' % (words,))
        mon.check(node.final or node.out_links, 'dead-end', lambda: '%r leads to a dead end' % (words,))
        if node.final:
            result.append((words, ac, lm, transitions))
            if len(result) > limit:
                raise RuntimeError('too many paths')
        for link in node.out_links:
            stack.append((link.end_node, words + ((link.word,) if link.word is not None else ()), ac + float(link.ac_logprob or 0.0),
                          lm + float(link.lm_logprob or 0.0),
                          transitions + tuple(t for t in (link.transitions or '').split('_') if t)))
    return result


def prefix_lms(lattice, words):
    """LM sums of the ways to follow the words from the initial node."""
    ways = [(lattice.initial_node, 0.0)]
    for word in words:
        ways = [(link.end_node, lm + float(link.lm_logprob)) for node, lm in ways for link in node.out_links if link.word == word]
    return ways


def original(lat, transitions):
    result = {}
    position = {id(l): t for l, t in zip(lat.links, transitions)}
    for path in lat.paths():
        words = lattices.path_words(path)
        result[words] = (sum(l[3] for l in path), sum(l[4] for l in path),
                         tuple(t for l in path for t in position[id(l)].split('_') if t))
    return result


def judge(mon, rescored, lat, transitions, found, dropped, vocab, recombined, network=None):
    paths = enumerate_paths(mon, rescored)
    truth = original(lat, transitions)
    by_words = {}
    for words, ac, lm, trans in paths:
        mon.count('paths compared')
        mon.check(words in truth, 'not-original', lambda: '%r is not a word sequence of the original lattice' % (words,))
        mon.check(words not in by_words, 'duplicate', lambda: 'two paths for %r' % (words,))
        by_words[words] = (ac, lm, trans)
        mon.close(ac, truth[words][0], 'acoustic', 'acoustic score of %r' % (words,), **TOLERANCE)
        mon.count('transitions', len(trans))
        mon.check(trans == truth[words][2], 'transitions', lambda: 'transitions %r of %r, expected %r' % (trans, words, truth[words][2]))
    kept = set()
    for words, ac, lat_lm, nn, total in found:
        words = words[1:-1]
        kept.add(words)
        mon.count('hypotheses compared')
        mon.check(words in by_words, 'missing', lambda: 'hypothesis %r is not in the rescored lattice' % (words,))
        mon.close(by_words[words][:2], (ac, lat_lm + nn), 'scores', 'acoustic and language model score of %r' % (words,), **TOLERANCE)
    extra = set(by_words) - kept
    mon.count('recombined paths', len(extra))
    mon.count('pruned lattices', len(by_words) < len(truth))
    if not recombined:
        mon.check(not extra, 'extra', lambda: 'paths %r that were not kept' % sorted(extra))
    # A recombined hypothesis differs from the one that was kept by the
    # difference of their own scores.
    lattice_lm = {}
    prefixes = {}
    for path in lat.paths():
        for k in range(len(path) + 1):
            prefixes.setdefault(lattices.path_words(path[:k]), path[:k])
            lattice_lm[lattices.path_words(path[:k])] = sum(l[4] for l in path[:k] if l[1] != lat.final)
    for token, history, _ in dropped:
        words = tuple(vocab.id_to_word[w] if isinstance(w, int) else w for w in token.history)[1:]
        other = tuple(vocab.id_to_word[w] if isinstance(w, int) else w for w in history)[1:]
        if words[-1:] == ('</s>',) or words == other or not recombined:
            continue
        mine, theirs = prefix_lms(rescored, words), prefix_lms(rescored, other)
        if not mine or not theirs or mine[0][0] is not theirs[0][0]:
            continue
        mon.count('recombined links compared')
        mon.count('chains of recombination', sum(1 for l in rescored.links if l.end_node is mine[0][0]) > 2)
        mon.close(mine[0][1] - theirs[0][1], lattice_lm[words] - lattice_lm[other] +
                  network(prefixes[words]) - network(prefixes[other]),
                  'recombined-score', 'LM score of %r relative to %r' % (words, other), **TOLERANCE)
    ids = [n.id for n in rescored.nodes]
    mon.check(ids == list(range(len(ids))), 'node-ids', 'node IDs %r' % ids)
    return paths


def link_table(lattice):
    return sorted((l.start_node.id, l.end_node.id, l.word or '', float(l.ac_logprob or 0.0), float(l.lm_logprob or 0.0), l.transitions or '')
                  for l in lattice.links)


def same_links(mon, got, want, what, with_transitions):
    mon.check(len(got) == len(want), 'written', '%s: %d links, expected %d' % (what, len(got), len(want)))
    for a, b in zip(got, want):
        mon.check(a[:3] == b[:3] and (not with_transitions or a[5] == b[5]), 'written', lambda: '%s: link %r, expected %r' % (what, a, b))
        mon.close(a[3:5], b[3:5], 'written', '%s: scores of link %r' % (what, b), rtol=1e-12, atol=1e-12)


def round_trips(rng, mon, rescored, words):
    names = lattices.kaldi_words([w for w in words if w != '<eps>'])
    word_to_id = {w: i for i, w in enumerate(names)}
    buffer = io.StringIO()
    rescored.write_slf(buffer)
    again = lattices.read_slf(buffer.getvalue())
    mon.count('slf round trips')
    mon.count('quoted words', sum(any(c in l.word for c in '" \\') for l in rescored.links if l.word))
    mon.check(again.utterance_id == rescored.utterance_id, 'written', 'utterance %r, expected %r' % (again.utterance_id, rescored.utterance_id))
    mon.check(len(again.nodes) == len(rescored.nodes), 'written', 'number of nodes')
    mon.check(again.initial_node.id == rescored.initial_node.id and [n.id for n in again.nodes if n.final] ==
              [n.id for n in rescored.nodes if n.final], 'written', 'initial or final node')
    same_links(mon, link_table(again), link_table(rescored), 'SLF', False)
    if any(c.isspace() for w in words for c in w):
        return
    buffer = io.StringIO()
    rescored.write_kaldi(buffer, word_to_id)
    found = read_kaldi(buffer.getvalue(), word_to_id)
    mon.check(len(found) == 1, 'written', '%d Kaldi lattices' % len(found))
    mon.count('kaldi round trips')
    mon.check(found[0].utterance_id == rescored.utterance_id, 'written', 'utterance %r' % found[0].utterance_id)
    same_links(mon, link_table(found[0]), link_table(rescored), 'Kaldi', True)


def rewrite(rng, mon):
    """Any lattice that was read can be written and read back."""
    words = ['ab', 'cd', 'say"x', 'a\\b', 'c#', 'ö'] + (['two words'] if rng.rand() < 0.3 else [])
    lat = lattices.random_lattice(rng, words, max_nodes=8, positive=rng.rand() < 0.3, tail_null=bool(rng.rand() < 0.5))
    if rng.rand() < 0.4:
        lat.links = [l[:3] + (gen.pick(rng, [0.0, l[3]]), gen.pick(rng, [0.0, l[4]])) for l in lat.links]
    lat.links = [l[:4] + (l[4] or 0.0,) for l in lat.links]
    mon.case({'lattice': lat.describe()}, nontrivial=len(lat.links) > 1)
    lattice = lattices.lattice_object(rng, lat)
    buffer = io.StringIO()
    lattice.write_slf(buffer)
    again = lattices.read_slf(buffer.getvalue())
    mon.count('lattices written as read')
    for name in ('utterance_id', 'lm_scale', 'wi_penalty'):
        mon.check(getattr(again, name) == getattr(lattice, name), 'header', lambda: '%s %r, expected %r' %
                  (name, getattr(again, name), getattr(lattice, name)))
    times = [n.time for n in lattice.nodes]
    mon.count('times compared', sum(t is not None for t in times))
    mon.check([n.time for n in again.nodes] == times, 'times', lambda: 'times %r, expected %r' % ([n.time for n in again.nodes], times))
    mon.check(again.initial_node.id == lat.initial and [n.id for n in again.nodes if n.final] == [lat.final], 'ends',
              'initial or final node')
    same_links(mon, link_table(again), sorted((l[0], l[1], l[2] or '', l[3], l[4], '') for l in lat.links), 'SLF', False)


def rescore(rng, mon, recombined=False):
    from theanolm.scoring import RescoredLattice
    odd = rng.rand() < 0.4
    vocab, spec = gen.vocab(rng, size=4 + rng.randint(5), positive=True, simple=True, include=['say"x', 'a\\b', 'c#'] if odd else [])
    description = gen.architecture_text(rng, stepwise=True, max_hidden=1)
    opts = lattices.random_options(rng)
    if recombined:
        opts['recombination_order'] = int(gen.pick(rng, [1, 1, 2, 3]))
    if rng.rand() < (0.5 if recombined else 0.3):
        opts['max_tokens_per_node'] = int(gen.pick(rng, [1, 2, 3]))
    if rng.rand() < 0.3:
        opts['beam'] = float(gen.pick(rng, [2.0, 20.0]))
    pool = [w for w in spec.all_words if w not in ('<s>', '</s>')] + ['oov1', 'oov2']
    if odd and rng.rand() < 0.5:
        pool.append('two words')
    if recombined:
        pool = [gen.pick(rng, pool) for _ in range(3)]
    lat = make_lattice(rng, pool, 0.0 if recombined else gen.pick(rng, [0.0, 0.25]))
    observe(mon, vocab, lat, opts)
    transitions = [''] * len(lat.links)
    kaldi = rng.rand() < 0.6 and not any(c.isspace() for w in pool for c in w)
    if kaldi:
        lat.lm_scale = lat.wi_penalty = None
        lat.utterance = 'utt-1'
        transitions = [gen.pick(rng, ['', '%d' % k, '%d_%d' % (k, k + 100)]) for k in range(len(lat.links))]
        word_to_id = {w: i for i, w in enumerate(lattices.kaldi_words(pool))}
        lattice = read_kaldi(lattices.to_kaldi(lat, word_to_id, transitions), word_to_id)[0]
    else:
        lattice = lattices.lattice_object(rng, lat)
    mon.case({'architecture': description, 'options': opts, 'lattice': lat.describe()}, nontrivial=len(lat.paths()) > 1)
    mon.count('final link scores', any(l[1] == lat.final and l[3] for l in lat.links))
    decoder, function, _ = lattices.decoder(rng, description, vocab, opts)
    tokens, dropped = decoder.decode(lattice)
    rescored = RescoredLattice(lattice, tokens, dropped, vocab)
    mon.check(rescored.utterance_id == lat.utterance, 'utterance', 'utterance %r' % rescored.utterance_id)
    judge(mon, rescored, lat, transitions, tokens_of(tokens, vocab), dropped, vocab, recombined,
          Prefix(lattices.DecodeReference(function, vocab, opts), lat).network)
    round_trips(rng, mon, rescored, pool)


def recombination(rng, mon):
    rescore(rng, mon, recombined=True)


def command(rng, mon):
    """Rescored lattices written by the decode command."""
    from theanolm.scoring import LatticeDecoder
    kaldi = rng.rand() < 0.5
    words = ['ab', 'cd', 'e', 'f"g'] if not kaldi else ['ab', 'cd', 'e']
    vocab, spec = gen.vocab(rng, size=3, positive=True, simple=True, include=words[1:])
    description = gen.architecture_text(rng, stepwise=True, max_hidden=1)
    step = gen.network(rng, description, vocab, scale=1.0, minibatch=False)
    path = gen.save_model(step, gen.tmp_path('.h5'))
    opts = lattices.options(nnlm_weight=0.5)
    given = {}
    if rng.rand() < 0.4:
        given['lm-scale'] = opts['lm_scale'] = float(gen.pick(rng, [0.5, 2.0, 9.5, 0.0]))
    if rng.rand() < 0.4:
        given['wi-penalty'] = opts['wi_penalty'] = float(gen.pick(rng, [-1.0, 0.25, -0.5, 0.0]))
    if rng.rand() < 0.4:
        given['log-base'] = int(gen.pick(rng, [2, 10]))
        if 'wi-penalty' in given:
            opts['wi_penalty'] *= numpy.log(given['log-base'])
    word_to_id = {w: i for i, w in enumerate(lattices.kaldi_words(words))}
    lats, files = [], []
    for k in range(2):
        lat = make_lattice(rng, words, 0.0, max_nodes=6)
        lat.utterance = 'utt%d' % k
        if kaldi:
            lat.lm_scale = lat.wi_penalty = None
        transitions = [gen.pick(rng, ['', '%d_%d' % (j, j + 100)]) if kaldi else '' for j in range(len(lat.links))]
        lats.append((lat, transitions))
    output = 'kaldi' if kaldi and rng.rand() < 0.7 else 'slf'
    flags = ['--output', output, '--nnlm-weight', 0.5, '--log-file', gen.tmp_path('.log')]
    flags += ['--%s=%s' % item for item in given.items()]
    if kaldi:
        flags += ['--lattice-format', 'kaldi', '--kaldi-vocabulary', gen.tmp_file(''.join('%s %d\n' % i for i in word_to_id.items())),
                  '--lattices', gen.tmp_file(''.join(lattices.to_kaldi(lat, word_to_id, t) for lat, t in lats))]
    else:
        flags += ['--lattices'] + [gen.tmp_file(lattices.to_slf(rng, lat, plain=True), '.slf') for lat, _ in lats]
    mon.case({'architecture': description, 'kaldi': kaldi, 'output': output, 'lattices': [lat.describe() for lat, _ in lats]})
    output_path = gen.tmp_path('.out')
    result = cli.theanolm('decode', path, *flags, '--output-file', output_path)
    mon.check(result.code == 0, 'exit', lambda: 'decode failed: %r' % result)
    with open(output_path, encoding='utf-8') as f:
        text = f.read()
    if output == 'kaldi':
        written = read_kaldi(text, word_to_id)
    else:
        written = [lattices.read_slf('# Header' + part) for part in text.split('# Header')[1:]]
    mon.check(len(written) == len(lats), 'written', '%d lattices written for %d' % (len(written), len(lats)))
    decoder = LatticeDecoder(step, opts)
    for lattice, (lat, transitions) in zip(written, lats):
        mon.count('command lattices')
        tokens, _ = decoder.decode(lattices.lattice_object(rng, lat))
        found = tokens_of(tokens, vocab)
        if output == 'slf':
            transitions = [''] * len(transitions)
        judge(mon, lattice, lat, transitions, found, [], vocab, False)
        if output == 'slf':
            # The scale and the penalty that were used belong to the scores.
            for name, default in (('lm_scale', 1.0), ('wi_penalty', 0.0)):
                used = opts[name] if opts[name] is not None else getattr(lat, name)
                used = default if used is None else used
                stored = getattr(lattice, name)
                stored = default if stored is None else stored
                mon.count('stored ' + name, used != default)
                mon.close(float(stored), float(used), 'stored-' + name.replace('_', '-'),
                          'the %s of the rescored lattice' % name, rtol=1e-6, atol=1e-9)


FAMILIES = [
    dict(name='rescore', fn=rescore, quick=180, thorough=2000),
    dict(name='recombination', fn=recombination, quick=240, thorough=2500),
    dict(name='rewrite', fn=rewrite, quick=400, thorough=5000),
    dict(name='command', fn=command, quick=48, thorough=250),
]
