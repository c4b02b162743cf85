"""C13: unpruned lattice decoding returns exactly the true n-best list."""

import numpy

from vf import cli, gen, lattices

RULE = ('Random lattices (null links, parallel links, any node numbering, with and without times) are decoded without pruning by '
        'random models and decoding options. The returned list is compared with the enumeration of all lattice paths, each '
        'scored as a whole by an independent scorer that uses the mini-batch network. The decode command is run on SLF and Kaldi '
        'files and its n-best output compared with the same enumeration. Non-trivial: at least two word sequences. Distinct by '
        'model, options and lattice.')
REQUIRED = ['hypotheses compared', 'lattices decoded', 'second decodings', 'null links', 'linear interpolation',
            'word insertion penalty', 'lm scale', 'unk penalty', 'unk from lattice', 'shortlist', 'paths merged',
            'out-of-vocabulary words', 'command lines compared', 'kaldi files', 'one best', 'log base', 'out-of-shortlist words',
            'long lists']
ASSUMPTIONS = ['With linear interpolation the exact maximum is only required when a word sequence has a single path, because the '
               'interpolated score of a path is not a sum over its links.',
               'Path scores of different word sequences differ (random real scores).']
TOLERANCE = dict(rtol=1e-8, atol=1e-8)


def model(rng, mon, **kwargs):
    vocab, spec = gen.vocab(rng, size=3 + rng.randint(8), positive=True, **kwargs)
    description = gen.architecture_text(rng, stepwise=True, max_hidden=3)
    return vocab, spec, description


def observe(mon, vocab, lat, opts):
    mon.count('null links', sum(l[2] is None for l in lat.links))
    mon.count('linear interpolation', opts['linear_interpolation'])
    mon.count('word insertion penalty', bool(opts['wi_penalty']))
    mon.count('lm scale', opts['lm_scale'] is not None)
    mon.count('unk penalty', opts['unk_penalty'] is not None)
    mon.count('unk from lattice', opts['unk_from_lattice'])
    mon.count('shortlist', opts['use_shortlist'])
    mon.count('out-of-vocabulary words', sum(l[2] is not None and l[2] not in vocab.word_to_id for l in lat.links))
    mon.count('out-of-shortlist words', sum(l[2] in vocab.word_to_id and vocab.word_to_id[l[2]] >= vocab.num_shortlist_words()
                                            for l in lat.links))


def expectation(reference, lat):
    """word sequence -> list of (ac, lattice lm, network lm, total), best first"""
    result = {}
    for words, ac, lat_lm, nn, total in reference.all_paths(lat):
        result.setdefault(words, []).append((ac, lat_lm, nn, total))
    for entries in result.values():
        entries.sort(key=lambda e: -e[3])
    return result


def compare(mon, expected, found, linear, what):
    """found: list of (words, ac, lat, nn, total); None where not known"""
    words = [f[0] for f in found]
    mon.check(len(set(words)) == len(words), 'duplicate', '%s: a word sequence is listed twice: %r' % (what, words))
    mon.check(set(words) == set(expected), 'paths', lambda: '%s: word sequences %r missing, %r extra'
              % (what, sorted(set(expected) - set(words)), sorted(set(words) - set(expected))))
    for f in found:
        entries = expected[f[0]]
        mon.count('hypotheses compared')
        mon.count('paths merged', len(entries) - 1)
        if linear and len(entries) > 1:
            entry = min(entries, key=lambda e: abs(e[3] - f[4]))
        else:
            entry = entries[0]
        mon.close(f[4], entry[3], 'total', '%s: total score of %r' % (what, f[0]), **TOLERANCE)
        if f[1] is not None and len(entries) == 1:
            mon.close(f[1:4], entry[:3], 'scores', '%s: acoustic, lattice and network score of %r' % (what, f[0]), **TOLERANCE)
    totals = [f[4] for f in found]
    mon.check(all(a >= b for a, b in zip(totals, totals[1:])), 'order', '%s: scores are not in order: %r' % (what, totals))


def tokens_of(tokens, vocab):
    return [(tuple(t.history_words(vocab)), t.ac_logprob, t.lat_lm_logprob, t.nn_lm_logprob, t.total_logprob) for t in tokens]


def nbest(rng, mon):
    vocab, spec, description = model(rng, mon)
    opts = lattices.random_options(rng)
    decoder, function, _ = lattices.decoder(rng, description, vocab, opts)
    reference = lattices.DecodeReference(function, vocab, opts)
    pool = [w for w in spec.all_words if w not in ('<s>', '</s>')] + ['oov1', 'oov2']
    kept = []
    for _ in range(3):
        pool_now = pool if rng.rand() < 0.6 else [gen.pick(rng, pool) for _ in range(2)]
        lat = lattices.random_lattice(rng, pool_now, unique=rng.rand() < 0.4, positive=rng.rand() < 0.3, long=0.06)
        if opts['unk_from_lattice']:
            lat.links = [l[:4] + (l[4] if l[4] is not None else 0.0,) for l in lat.links]
        observe(mon, vocab, lat, opts)
        expected = expectation(reference, lat)
        mon.case({'architecture': description, 'vocabulary': spec.describe(), 'options': opts, 'lattice': lat.describe()},
                 nontrivial=len(expected) > 1)
        lattice = lattices.lattice_object(rng, lat)
        tokens, _ = decoder.decode(lattice)
        found = tokens_of(tokens, vocab)
        compare(mon, expected, found, opts['linear_interpolation'], 'decoding')
        kept.append((lattice, found))
        mon.count('lattices decoded')
    for lattice, first in kept:
        again = tokens_of(decoder.decode(lattice)[0], vocab)
        mon.count('second decodings')
        mon.check(again == first, 'again', lambda: 'decoding again gives %r instead of %r' % (again[:3], first[:3]))


def wide(rng, mon):
    """More hypotheses than any default list length: a confusion network."""
    vocab, spec, description = model(rng, mon, simple=True)
    opts = lattices.random_options(rng, linear_interpolation=False)
    decoder, function, _ = lattices.decoder(rng, description, vocab, opts)
    reference = lattices.DecodeReference(function, vocab, opts)
    pool = [w for w in spec.all_words if w not in ('<s>', '</s>')] + ['oov1', 'oov2']
    pool = [w for w in pool if w[0] not in '!#']
    lat = lattices.LatSpec()
    slots = []
    while numpy.prod([len(s) for s in slots] or [1]) <= 1000 or len(slots) < 2:
        slots.append([pool[i] for i in rng.choice(len(pool), min(len(pool), gen.pick(rng, [2, 3, 4])), replace=False)])
    lat.num_nodes = len(slots) + 1
    lat.final = len(slots)
    lat.lm_scale = gen.pick(rng, [None, 2.0])
    lat.links = [(k, k + 1, word, -float(numpy.round(rng.rand() * 10, 6)), -float(numpy.round(rng.rand() * 5, 6)))
                 for k, slot in enumerate(slots) for word in slot]
    mon.case({'architecture': description, 'vocabulary': spec.describe(), 'options': opts, 'lattice': lat.describe()})
    observe(mon, vocab, lat, opts)
    paths = lat.paths(20000)
    histories = [('<s>',) + lattices.path_words(p) for p in paths]
    ids = numpy.array([[reference.short(w) for w in h] for h in histories], dtype='int64').T
    classes = numpy.array(vocab.word_id_to_class_id)[ids]
    for start in range(0, ids.shape[1], 500):
        part = slice(start, start + 500)
        values = function(ids[:, part], classes[:, part], numpy.ones(ids[:, part].shape, 'int8'), 0)
        for k, history in enumerate(histories[part]):
            reference.cache[history] = values[:, k]
    expected = {}
    for path in paths:
        words, ac, lat_lm, nn, total = reference.path(lat, path)
        expected.setdefault(words, []).append((ac, lat_lm, nn, total))
    tokens, _ = decoder.decode(lattices.lattice_object(rng, lat))
    compare(mon, expected, tokens_of(tokens, vocab), False, 'decoding')
    mon.count('long lists', len(expected) > 1000)


def command(rng, mon):
    """The decode command."""
    vocab, spec, description = model(rng, mon, simple=True)
    kaldi = rng.rand() < 0.5
    opts = lattices.random_options(rng)
    step = gen.network(rng, description, vocab, scale=1.0, minibatch=False)
    path = gen.tmp_path('.h5')
    gen.save_model(step, path)
    whole = gen.network(rng, description, vocab, scale=None)
    gen.copy_parameters(step, whole)
    from vf import nets
    log_base = gen.pick(rng, [None, 10, 2])
    log_scale = 1.0 if log_base is None else numpy.log(log_base)
    wi_argument = opts['wi_penalty']
    if wi_argument is not None:
        opts['wi_penalty'] = wi_argument * log_scale
    reference = lattices.DecodeReference(nets.output_function(whole), vocab, opts)
    pool = [w for w in spec.all_words if w not in ('<s>', '</s>')] + ['oov1', 'oov2']
    n_best = gen.pick(rng, [1, 2, 100])
    output = gen.pick(rng, ['ref', 'trn', 'full', 'full'])
    arguments = ['--nnlm-weight', opts['nnlm_weight'], '--n-best', n_best, '--output', output, '--log-file', gen.tmp_path('.log')]
    if n_best == 1 and rng.rand() < 0.5:
        arguments = arguments[:2] + arguments[4:]
    for name, flag in (('lm_scale', '--lm-scale'), ('unk_penalty', '--unk-penalty')):
        if opts[name] is not None:
            arguments.append('%s=%r' % (flag, opts[name]))
    if wi_argument is not None:
        arguments.append('--wi-penalty=%r' % wi_argument)
    for name, flag in (('use_shortlist', '--shortlist'), ('unk_from_lattice', '--unk-from-lattice'),
                       ('linear_interpolation', '--linear-interpolation')):
        if opts[name]:
            arguments.append(flag)
    if log_base is not None:
        arguments += ['--log-base', log_base]
        mon.count('log base')
    lats = []
    for k in range(2):
        lat = lattices.random_lattice(rng, pool, unique=True, tail_null=kaldi or None, max_nodes=6)
        lat.links = [l[:4] + (l[4] if l[4] is not None else 0.0,) for l in lat.links]
        lat.utterance = 'utt%d' % k
        if kaldi:
            lat.lm_scale = lat.wi_penalty = None
        observe(mon, vocab, lat, opts)
        lats.append(lat)
    if kaldi:
        mon.count('kaldi files')
        names = lattices.kaldi_words(pool)
        ids = {w: i for i, w in enumerate(names)}
        words_path = gen.tmp_file(''.join('%s %d\n' % (w, i) for w, i in ids.items()))
        arguments += ['--lattice-format', 'kaldi', '--kaldi-vocabulary', words_path, '--lattices',
                      gen.tmp_file(''.join(lattices.to_kaldi(lat, ids) for lat in lats))]
    else:
        base = gen.pick(rng, [None, 10])
        arguments += ['--lattices'] + [gen.tmp_file(lattices.to_slf(rng, lat, base=base), '.slf') for lat in lats]
    output_path = gen.tmp_path('.out')
    mon.case({'architecture': description, 'vocabulary': spec.describe(), 'arguments': [str(a) for a in arguments],
              'lattices': [lat.describe() for lat in lats]})
    result = cli.theanolm('decode', path, *arguments, '--output-file', output_path)
    mon.check(result.code == 0, 'exit', lambda: 'decode failed: %r' % result)
    with open(output_path, encoding='utf-8') as f:
        lines = f.read().splitlines()
    for lat in lats:
        expected = expectation(reference, lat)
        number = min(n_best, len(expected))
        mine, lines = lines[:number], lines[number:]
        mon.check(len(mine) == number, 'lines', '%d lines for %d hypotheses' % (len(mine), number))
        ranked = sorted(expected.items(), key=lambda item: -item[1][0][3])
        mon.count('one best', n_best == 1)
        for (words, entries), line in zip(ranked, mine):
            mon.count('command lines compared')
            fields = line.split(' ')
            if output == 'ref':
                mon.check(fields == [lat.utterance] + list(words), 'line', '%r for hypothesis %r' % (line, words))
            elif output == 'trn':
                mon.check(fields == list(words) + ['(%s)' % lat.utterance], 'line', '%r for hypothesis %r' % (line, words))
            else:
                ac, _, _, total = entries[0]
                mon.check(fields[0] == lat.utterance and fields[4] == str(len(words)) and fields[5:] == list(words), 'line',
                          '%r for hypothesis %r' % (line, words))
                mon.close([float(x) for x in fields[1:4]], numpy.array([ac, total - ac, total]) / log_scale, 'line-scores',
                          'scores of %r' % line, rtol=1e-7, atol=1e-6)
    mon.check(not lines, 'extra-lines', 'extra lines %r' % lines)


FAMILIES = [
    dict(name='nbest', fn=nbest, quick=120, thorough=1500),
    dict(name='wide', fn=wide, quick=8, thorough=60),
    dict(name='command', fn=command, quick=100, thorough=800),
]
