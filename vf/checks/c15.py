"""C15: lattice files are read faithfully or rejected."""

import io

import numpy

from vf import gen, lattices

RULE = ('Random lattices are written in many variants of the SLF and Kaldi text formats (field names, bases, words in nodes or '
        'links, quoting, comments, node order, several lattices in one archive) and read by the real readers; nodes, links, words, times, '
        'scores, scales, initial and final node are compared with the specification, and the sorted order is checked against '
        'the links. Corrupted variants of the files have to be rejected. Non-trivial: at least two links. Distinct by file text.')
REQUIRED = ['links compared', 'base none', 'base 10', 'base 2', 'base 0', 'words in nodes', 'words in links', 'null links',
            'times', 'sorted nodes', 'kaldi lattices', 'kaldi transitions', 'archives', 'rejected slf', 'rejected kaldi',
            'quoted words', 'hash characters', 'cycles']
MALFORMED = ['no start', 'no end', 'bad start', 'bad end', 'negative start', 'word for number', 'bad acoustic', 'bad language', 'no nodes',
             'no links', 'fewer links', 'more links', 'bad initial', 'negative initial', 'open quote', 'no equals', 'two finals',
             'node too large', 'bad time', 'truncated', 'sublattice', 'both words', 'bad base', 'no initial', 'bad final']
KALDI_MALFORMED = ['three fields', 'five fields', 'bad state', 'bad target', 'bad word', 'bad weight', 'unknown word',
                   'backoff', 'sentence start', 'sentence end', 'negative state', 'negative word', 'no links', 'bad acoustic']
REQUIRED += ['slf: ' + m for m in MALFORMED] + ['kaldi: ' + m for m in KALDI_MALFORMED]
ASSUMPTIONS = ['Words that start with ! or # stand for no word in SLF lattices (as in SRILM).',
               'Header fields precede the line that gives the numbers of nodes and links.']


def value(x):
    return None if x is None else float(x)


def check_links(mon, lattice, expected, what, atol=1e-9):
    """expected: (start, end, word, ac, lm), as a multiset over node IDs"""
    got = [(l.start_node.id, l.end_node.id, l.word, value(l.ac_logprob), value(l.lm_logprob)) for l in lattice.links]
    mon.check(len(got) == len(expected), 'links', '%s: %d links, expected %d' % (what, len(got), len(expected)))

    def key(l):
        return (l[0], l[1], l[2] or '', round(l[3] or 0.0, 4), round(l[4] or 0.0, 4))
    for a, b in zip(sorted(got, key=key), sorted(expected, key=key)):
        mon.count('links compared')
        mon.count('null links', b[2] is None)
        mon.check(a[:3] == b[:3], 'link', lambda: '%s: link %r, expected %r' % (what, a, b))
        for x, y in zip(a[3:], b[3:]):
            mon.check((x is None) == (y is None), 'score', lambda: '%s: link %r, expected %r' % (what, a, b))
            if x is not None:
                mon.close(x, y, 'score', '%s: scores of link %r' % (what, b), rtol=1e-9, atol=atol)
    for node in lattice.nodes:
        outs = [l for l in lattice.links if l.start_node is node]
        ins = [l for l in lattice.links if l.end_node is node]
        mon.check(sorted(map(id, node.out_links)) == sorted(map(id, outs)) and sorted(map(id, node.in_links)) == sorted(map(id, ins)),
                  'topology', '%s: links of node %d do not match the list of links' % (what, node.id))


def check_sorted(mon, lattice, number, timed):
    nodes = lattice.sorted_nodes()
    mon.check(sorted(n.id for n in nodes) == list(range(number)), 'sorted', 'sorted nodes %r' % [n.id for n in nodes])
    place = {n.id: k for k, n in enumerate(nodes)}
    for link in lattice.links:
        mon.check(place[link.start_node.id] < place[link.end_node.id], 'backward', 'a link from node %d to node %d goes backward'
                  % (link.start_node.id, link.end_node.id))
    if timed:
        times = [n.time for n in nodes]
        mon.check(times == sorted(times), 'time-order', 'nodes are not in order of time: %r' % times)
    mon.count('sorted nodes', len(nodes))


def node_words(rng, lat):
    """Makes the words a function of the end node."""
    word = {n: gen.pick(rng, [l[2] for l in lat.links if l[1] == n] or [None]) for n in range(lat.num_nodes)}
    lat.links = [(l[0], l[1], word[l[1]], l[3], l[4]) for l in lat.links]


def pool_of(rng):
    return gen.words(rng, 1 + rng.randint(6)) + ["it's", 'two words', 'say "x"', 'a\\b', 'a#b', 'c#', '=x', 'a=b']


def large(rng, mon):
    if rng.rand() < 0.6:
        slf(rng, mon, max_nodes=1000)
    else:
        kaldi(rng, mon, max_nodes=400)
    mon.count('large lattices')


def slf(rng, mon, max_nodes=9):
    lat = lattices.random_lattice(rng, pool_of(rng), max_nodes=max_nodes, enumerable=max_nodes < 100)
    in_nodes = bool(rng.rand() < 0.4)
    if in_nodes:
        node_words(rng, lat)
    base = gen.pick(rng, [None, None, 10, 2, 0])
    if base == 0:
        lat.links = [l[:3] + (max(l[3], -300.0), l[4] if l[4] is None else max(l[4], -300.0)) for l in lat.links]
    missing = rng.rand() < 0.2
    if missing:
        lat.links = [l[:4] + (None if rng.rand() < 0.5 else l[4],) for l in lat.links]
    lat.utterance = gen.pick(rng, [lat.utterance, 'spk#1', 'a "b" c', None])
    text = lattices.to_slf(rng, lat, base=base, words_in_nodes=in_nodes)
    if rng.rand() < 0.3:
        # the sharp sign does not start a comment inside a line
        text = text.replace('"spk#1"', 'spk#1').replace('"a#b"', 'a#b').replace('"c#"', 'c#')
    mon.case(text, nontrivial=len(lat.links) > 1)
    mon.count('base %s' % ('none' if base is None else base))
    mon.count('words in nodes' if in_nodes else 'words in links')
    mon.count('quoted words', text.count('"') // 2)
    mon.count('hash characters', any(l[2] is not None and '#' in l[2] for l in lat.links) or lat.utterance == 'spk#1')
    lattice = lattices.read_slf(text)
    mon.check(len(lattice.nodes) == lat.num_nodes and [n.id for n in lattice.nodes] == list(range(lat.num_nodes)), 'nodes',
              '%d nodes, expected %d' % (len(lattice.nodes), lat.num_nodes))
    check_links(mon, lattice, lat.links, 'SLF')
    mon.check(lattice.initial_node is lattice.nodes[lat.initial], 'initial', 'initial node %r, expected %d'
              % (lattice.initial_node.id, lat.initial))
    final = [n.id for n in lattice.nodes if n.final]
    mon.check(final == [lat.final], 'final', 'final nodes %r, expected %d' % (final, lat.final))
    mon.check(lattice.utterance_id == lat.utterance, 'utterance', 'utterance %r, expected %r' % (lattice.utterance_id, lat.utterance))
    for name, got, want in (('lmscale', lattice.lm_scale, lat.lm_scale), ('wdpenalty', lattice.wi_penalty, lat.wi_penalty)):
        mon.check((got is None) == (want is None), 'header', '%s %r, expected %r' % (name, got, want))
        if want is not None:
            mon.close(got, want, 'header', name, rtol=1e-9, atol=1e-12)
    times = lat.times or {}
    for node in lattice.nodes:
        mon.count('times', node.id in times)
        mon.check(node.time == times.get(node.id), 'time', 'time %r of node %d, expected %r' % (node.time, node.id, times.get(node.id)))
    check_sorted(mon, lattice, lat.num_nodes, len(times) == lat.num_nodes)


def edit(lines, prefix, function, index=None, rng=None):
    where = [k for k, line in enumerate(lines) if line.startswith(prefix)]
    k = where[rng.randint(len(where))] if rng is not None else where[0]
    lines[k] = function(lines[k])
    return lines


def drop(name):
    return lambda line: ' '.join(f for f in line.split(' ') if not f.startswith(name + '='))


def put(name, text):
    return lambda line: ' '.join('%s=%s' % (name, text) if f.startswith(name + '=') else f for f in line.split(' '))


def malformed_slf(rng, mon):
    from theanolm.backend import InputError
    from theanolm.scoring.slflattice import SLFLattice
    lat = lattices.random_lattice(rng, ['ab', 'cd', 'e'], times=True)
    lat.links = [l[:4] + (l[4] or -1.0,) for l in lat.links]
    lat.utterance = 'utt1'
    for way in MALFORMED:
        # one plain field order: J= S= E= W= a= l=
        lines = ['VERSION=1.1', 'U=utt1', 'lmscale=1.0', 'start=%d' % lat.initial, 'end=%d' % lat.final,
                 'N=%d L=%d' % (lat.num_nodes, len(lat.links))]
        lines += ['I=%d t=%r' % (n, lat.times[n]) for n in range(lat.num_nodes)]
        lines += ['J=%d S=%d E=%d W=%s a=%r l=%r' % (k, l[0], l[1], l[2] or '!NULL', l[3], l[4]) for k, l in enumerate(lat.links)]
        if rng.rand() < 0.2:
            # without a defect the file is fine
            SLFLattice(io.StringIO('\n'.join(lines) + '\n'))
        number = lat.num_nodes
        if way == 'no start':
            edit(lines, 'J=', drop('S'), rng=rng)
        elif way == 'no end':
            edit(lines, 'J=', drop('E'), rng=rng)
        elif way == 'bad start':
            edit(lines, 'J=', put('S', str(number + rng.randint(3))), rng=rng)
        elif way == 'bad end':
            edit(lines, 'J=', put('E', str(number + rng.randint(3))), rng=rng)
        elif way == 'negative start':
            edit(lines, 'J=', put(gen.pick(rng, ['S', 'E']), '-1'), rng=rng)
        elif way == 'word for number':
            edit(lines, gen.pick(rng, ['J=', 'I=']), lambda line: line[:2] + 'x' + line[2:], rng=rng)
        elif way == 'bad acoustic':
            edit(lines, 'J=', put('a', gen.pick(rng, ['x', '', '-1.2.3', '1,5'])), rng=rng)
        elif way == 'bad language':
            edit(lines, 'J=', put('l', gen.pick(rng, ['x', '', '--1'])), rng=rng)
        elif way == 'no nodes':
            edit(lines, 'N=', drop('N'))
        elif way == 'no links':
            edit(lines, 'N=', drop('L'))
        elif way == 'fewer links':
            lines.pop(len(lines) - 1 - rng.randint(len(lat.links)))
        elif way == 'more links':
            edit(lines, 'N=', put('L', str(len(lat.links) + 1)))
        elif way == 'bad initial':
            edit(lines, 'start=', lambda line: 'start=%d' % (number + rng.randint(4)))
        elif way == 'negative initial':
            edit(lines, 'start=', lambda line: 'start=-1')
        elif way == 'open quote':
            edit(lines, 'J=', put('W', '"ab'), rng=rng)
        elif way == 'no equals':
            edit(lines, gen.pick(rng, ['J=', 'I=', 'U=', 'N=']), lambda line: line + ' x', rng=None)
        elif way == 'two finals':
            edit(lines, 'N=', put('N', str(number + 1)))
            lines.insert(6 + number, 'I=%d' % number)
        elif way == 'node too large':
            lines.append('I=%d t=3.0' % (number + rng.randint(4)))
        elif way == 'bad time':
            edit(lines, 'I=', put('t', gen.pick(rng, ['x', '', '1:2'])), rng=rng)
        elif way == 'truncated':
            lines = lines[:7 + rng.randint(len(lines) - 7)]
        elif way == 'sublattice':
            lines.insert(1, 'SUBLAT=x')
        elif way == 'both words':
            target = gen.pick(rng, [l for l in lat.links if l[2] is not None])[1]
            edit(lines, 'I=%d ' % target, lambda line: line + ' W=word')
        elif way == 'bad base':
            lines.insert(1, 'base=x')
        elif way == 'no initial':
            lines = [l for l in lines if not l.startswith('start=')]
            edit(lines, 'N=', put('L', str(len(lat.links) + 1)))
            lines.append('J=%d S=%d E=%d W=ab a=0 l=0' % (len(lat.links), lat.final, lat.initial))
        elif way == 'bad final':
            edit(lines, 'end=', lambda line: 'end=%s' % gen.pick(rng, ['-1', 'x', str(number + 1)]))
        text = '\n'.join(lines) + '\n'
        mon.case(text)
        mon.count('slf: ' + way)
        try:
            SLFLattice(io.StringIO(text))
        except InputError:
            mon.count('rejected slf')
            continue
        except Exception as error:
            mon.fail('not-input-error', 'a malformed lattice (%s) failed with %r' % (way, error))
        mon.fail('misread', 'a malformed lattice (%s) was accepted' % way)


def batch(lines, word_to_id):
    from theanolm.scoring import LatticeBatch
    path = gen.tmp_file(lines, '.lat')
    vocabulary = io.StringIO(''.join('%s %d\n' % item for item in word_to_id.items()))
    return list(LatticeBatch([path], None, 'kaldi', vocabulary))


def kaldi(rng, mon, max_nodes=8):
    words = [w for w in gen.words(rng, 2 + rng.randint(5)) if w not in ('<eps>', '#0') and not w.startswith('#')] + ['x']
    names = lattices.kaldi_words(words)
    ids = list(range(len(names)))
    if rng.rand() < 0.4:
        # word IDs with gaps
        ids = [0] + sorted(int(x) for x in rng.choice(numpy.arange(1, 50), len(names) - 1, replace=False))
    word_to_id = dict(zip(names, ids))
    items = list(word_to_id.items())
    word_to_id = dict(items[k] for k in rng.permutation(len(items)))
    lats, text = [], ''
    number = 1 + rng.randint(3)
    for k in range(number):
        lat = lattices.random_lattice(rng, words, tail_null=True, max_nodes=max_nodes, positive=rng.rand() < 0.5,
                                      enumerable=max_nodes < 100)
        lat.links = [l[:4] + (l[4] or 0.0,) for l in lat.links]
        lat.utterance = 'utt-%d' % k
        transitions = [gen.pick(rng, ['', '1', '12_3_4']) for _ in lat.links]
        mon.count('kaldi transitions', sum(map(bool, transitions)))
        part = lattices.to_kaldi(lat, word_to_id, transitions)
        if k == number - 1 and rng.rand() < 0.4:
            part = part.rstrip('\n') + gen.pick(rng, ['', '\n', '\n\n\n'])
        if rng.rand() < 0.3:
            part = part.replace(' 0.0,0.0,\n', gen.pick(rng, [' \n', ' ,\n', ' 0\n', '\n']))
        text += part
        lats.append((lat, transitions))
    mon.case(text)
    found = batch(text, word_to_id)
    mon.count('archives', number > 1)
    mon.check(len(found) == number, 'archive', '%d lattices in an archive of %d' % (len(found), number))
    for lattice, (lat, transitions) in zip(found, lats):
        mon.count('kaldi lattices')
        mon.check(lattice.utterance_id == lat.utterance, 'utterance', 'utterance %r' % lattice.utterance_id)
        finals = [n for n in lattice.nodes if n.final]
        mon.check(len(finals) == 1, 'final', '%d final nodes' % len(finals))
        mon.check(lattice.initial_node is not None and lattice.initial_node.id == lat.initial, 'initial', 'initial node')
        # The final node of the specification has no number in the file.
        rename = {lat.final: finals[0].id}
        expected = [(l[0], rename.get(l[1], l[1])) + l[2:] for l in lat.links]
        check_links(mon, lattice, expected, 'Kaldi')
        got = sorted((l.start_node.id, l.end_node.id, l.word or '', round(float(l.ac_logprob), 4), l.transitions) for l in lattice.links)
        want = sorted((l[0], l[1], l[2] or '', round(l[3] + 0.0, 4), t) for l, t in zip(expected, transitions))
        mon.check(got == want, 'transitions', lambda: 'links with transitions %r, expected %r' % (got, want))
        place = {n.id: k for k, n in enumerate(lattice.sorted_nodes())}
        for l in lattice.links:
            mon.check(place[l.start_node.id] < place[l.end_node.id], 'backward', 'a link goes backward')
        mon.count('sorted nodes', len(place))


def malformed_kaldi(rng, mon):
    from theanolm.backend import InputError
    lat = lattices.random_lattice(rng, ['ab', 'cd', 'e'], tail_null=True)
    lat.links = [l[:4] + (l[4] or 0.0,) for l in lat.links]
    lat.utterance = 'utt1'
    word_to_id = {'<eps>': 0, 'ab': 1, 'cd': 2, 'e': 4, '#0': 5, '<s>': 6, '</s>': 7}
    for way in KALDI_MALFORMED:
        lines = lattices.to_kaldi(lat, word_to_id).strip().split('\n')
        where = gen.pick(rng, [k for k, line in enumerate(lines) if len(line.split()) == 4])
        f = lines[where].split()
        if way == 'three fields':
            f = f[:3]
        elif way == 'five fields':
            f.append(gen.pick(rng, ['0', 'x']))
        elif way == 'bad state':
            f[0] = gen.pick(rng, ['x', '1.5'])
        elif way == 'bad target':
            f[1] = gen.pick(rng, ['x', '1.5', '2,3'])
        elif way == 'bad word':
            f[2] = gen.pick(rng, ['ab', '1.5'])
        elif way == 'bad weight':
            f[3] = gen.pick(rng, ['x', '1.2.3,1,']) + ',2.0,'
        elif way == 'bad acoustic':
            f[3] = '1.0,' + gen.pick(rng, ['x', '1.2.3']) + ','
        elif way == 'unknown word':
            f[2] = gen.pick(rng, ['3', '8', '100'])
        elif way == 'negative state':
            f[rng.randint(2)] = '-1'
        elif way == 'negative word':
            f[2] = '-1'
        elif way == 'backoff':
            f[2] = '5'
        elif way == 'sentence start':
            f[2] = '6'
        elif way == 'sentence end':
            f[2] = '7'
        lines[where] = ' '.join(f)
        if way == 'no links':
            lines = lines[:1]
        text = '\n'.join(lines) + '\n\n'
        mon.case(text)
        mon.count('kaldi: ' + way)
        try:
            batch(text, word_to_id)
        except InputError:
            mon.count('rejected kaldi')
            continue
        except Exception as error:
            mon.fail('not-input-error', 'a malformed lattice (%s) failed with %r' % (way, error))
        mon.fail('misread', 'a malformed lattice (%s) was accepted' % way)


def cyclic(rng, mon):
    """A lattice with a cycle on the way to the final node cannot be sorted,
    so it has to be rejected before anything is decoded."""
    from theanolm.backend import InputError
    lat = lattices.random_lattice(rng, ['ab', 'cd'], times=rng.rand() < 0.5)
    path = gen.pick(rng, lat.paths())
    nodes = [lat.initial] + [l[1] for l in path]
    if len(nodes) < 3:
        return
    b = 1 + rng.randint(len(nodes) - 2)
    a = 1 + rng.randint(b)
    lat.links.append((nodes[b], nodes[a], 'ab', -1.0, -1.0))
    mon.case(lat.describe())
    mon.count('cycles')
    lattice = lattices.read_slf(lattices.to_slf(rng, lat, plain=True).replace('U=', 'start=%d\nU=' % lat.initial))
    try:
        order = [n.id for n in lattice.sorted_nodes()]
    except InputError:
        return
    mon.check(lat.final not in order, 'cycle', 'a lattice with a cycle was sorted as %r' % order)


FAMILIES = [
    dict(name='slf', fn=slf, quick=14400, thorough=24000),
    dict(name='large', fn=large, quick=40, thorough=300),
    dict(name='malformed-slf', fn=malformed_slf, quick=576, thorough=960),
    dict(name='kaldi', fn=kaldi, quick=7200, thorough=12000),
    dict(name='malformed-kaldi', fn=malformed_kaldi, quick=576, thorough=960),
    dict(name='cyclic', fn=cyclic, quick=1440, thorough=2400),
]
