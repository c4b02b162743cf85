"""C17: parallel decoding jobs together process every lattice exactly once."""

import gzip
import io

from vf import cli, gen, lattices, nets
from vf.checks.c13 import expectation

RULE = ('Batches of lattice files (paths as arguments, in a list file with blank lines, compressed or plain, SLF files or Kaldi '
        'archives with several lattices, standard input) are divided between every number of jobs up to more jobs than files. '
        'The log of lattices that each job yields is checked for exactly-once delivery and order, and the outputs of the decode '
        'command of all jobs are joined and compared with one job and with the best paths. Batches with one unreadable file must '
        'fail visibly. Non-trivial: more than one lattice. Distinct by batch composition.')
REQUIRED = ['jobs', 'lattices delivered', 'jobs without lattices', 'compressed files', 'list files', 'argument files', 'slf', 'kaldi',
            'standard input', 'command jobs', 'command lines', 'unreadable files', 'repeated paths', 'invalid jobs']


def compose(rng, mon, words=('ab', 'cd', 'e'), max_nodes=5, number=None):
    """Returns (format, paths in order, utterances of each, lattice specs)."""
    kaldi = rng.rand() < 0.5
    number = number or 1 + rng.randint(7)
    word_to_id = {w: i for i, w in enumerate(lattices.kaldi_words(words))}
    files, specs, count = [], {}, 0
    for _ in range(number):
        lats = []
        for _ in range(1 + rng.randint(3) if kaldi else 1):
            lat = lattices.random_lattice(rng, list(words), max_nodes=max_nodes, tail_null=True, unique=True)
            lat.links = [l[:4] + (l[4] or 0.0,) for l in lat.links]
            lat.utterance = 'utt%d' % count
            lat.lm_scale = lat.wi_penalty = None
            count += 1
            specs[lat.utterance] = lat
            lats.append(lat)
        if kaldi:
            text = ''.join(lattices.to_kaldi(lat, word_to_id) for lat in lats)
            if rng.rand() < 0.3:
                text = text.rstrip('\n') + '\n'
        else:
            text = lattices.to_slf(rng, lats[0], plain=True)
        if rng.rand() < 0.4:
            path = gen.tmp_path(gen.pick(rng, ['.slf.gz', '.gz']))
            with gzip.open(path, 'wt', encoding='utf-8') as f:
                f.write(text)
            mon.count('compressed files')
        else:
            path = gen.tmp_file(text, gen.pick(rng, ['.slf', '.lat', ' with space.lat', '']))
        files.append((path, [lat.utterance for lat in lats], text))
    mon.count('kaldi' if kaldi else 'slf')
    return ('kaldi' if kaldi else 'slf'), files, specs, word_to_id


def divide(rng, mon, files):
    """Some paths as arguments and the rest in a list file."""
    split = int(gen.pick(rng, [0, len(files), rng.randint(len(files) + 1)]))
    arguments = [f[0] for f in files[:split]]
    listed = None
    if split < len(files) or rng.rand() < 0.3:
        listed = ''
        for f in files[split:]:
            listed += gen.pick(rng, ['', '', '\n', '  \n']) + gen.pick(rng, ['', ' ']) + f[0] + gen.pick(rng, ['\n', ' \n'])
        if rng.rand() < 0.4:
            listed = listed.rstrip()
        mon.count('list files')
    mon.count('argument files', split)
    return arguments, listed


def vocabulary(word_to_id):
    return ''.join('%s %d\n' % item for item in word_to_id.items())


def many(rng, mon):
    jobs(rng, mon, 30 + rng.randint(120))
    mon.count('large batches')


def jobs(rng, mon, number=None):
    from theanolm.scoring import LatticeBatch
    kind, files, specs, word_to_id = compose(rng, mon, number=number)
    if rng.rand() < 0.2:
        files.append(files[rng.randint(len(files))])
        mon.count('repeated paths')
    arguments, listed = divide(rng, mon, files)
    expected = [u for f in files for u in f[1]]
    mon.case({'format': kind, 'files': [f[1] for f in files], 'listed': listed, 'arguments': len(arguments)}, nontrivial=len(files) > 1)

    def batch(number, job):
        return LatticeBatch(arguments, None if listed is None else io.StringIO(listed), kind,
                            io.StringIO(vocabulary(word_to_id)) if kind == 'kaldi' else None, number, job)
    for number in sorted({1, 2, 1 + rng.randint(5), 1 + rng.randint(len(files)), len(files), len(files) + 1 + rng.randint(3)}):
        delivered = []
        for job in range(number):
            order = [lattice.utterance_id for lattice in batch(number, job)]
            mon.count('jobs')
            mon.count('jobs without lattices', not order)
            mon.count('lattices delivered', len(order))
            delivered.append(order)
        union = sorted(u for order in delivered for u in order)
        mon.check(union == sorted(expected), 'exactly-once', '%d jobs deliver %r, the batch is %r' % (number, union, sorted(expected)))
        for order in delivered:
            # a subsequence of the batch in the same order
            position = 0
            for u in order:
                while position < len(expected) and expected[position] != u:
                    position += 1
                mon.check(position < len(expected), 'order', 'job delivers %r from the batch %r' % (order, expected))
                position += 1
        if number == 1:
            mon.check(delivered[0] == expected, 'single', 'a single job delivers %r instead of %r' % (delivered[0], expected))
    for number, job in ((0, 0), (2, 2), (2, -1), (1, 1), (-1, 0)):
        mon.count('invalid jobs')
        try:
            batch(number, job)
        except ValueError:
            continue
        mon.fail('invalid-job', 'job %d of %d was accepted' % (job, number))


def command(rng, mon):
    words = ['ab', 'cd', 'e']
    vocab, spec = gen.vocab(rng, size=3, positive=True, simple=True, include=words)
    description = gen.architecture_text(rng, stepwise=True, max_hidden=1)
    step = gen.network(rng, description, vocab, scale=1.0, minibatch=False)
    path = gen.save_model(step, gen.tmp_path('.h5'))
    whole = gen.network(rng, description, vocab, scale=None)
    gen.copy_parameters(step, whole)
    reference = lattices.DecodeReference(nets.output_function(whole), vocab, lattices.options())
    kind, files, specs, word_to_id = compose(rng, mon, words)
    use_stdin = len(files) == 1 and rng.rand() < 0.7 or rng.rand() < 0.2
    if use_stdin:
        files = files[:1]
    arguments, listed = divide(rng, mon, files)
    mon.case({'format': kind, 'files': [f[1] for f in files], 'listed': listed, 'arguments': len(arguments)}, nontrivial=len(files) > 1)
    flags = ['--output', 'ref', '--lattice-format', kind, '--log-file', gen.tmp_path('.log')]
    if kind == 'kaldi':
        flags += ['--kaldi-vocabulary', gen.tmp_file(vocabulary(word_to_id))]
    stdin = None
    if use_stdin:
        mon.count('standard input')
        stdin = files[0][2]
        if rng.rand() < 0.5:
            flags += ['--lattices', '-']
    else:
        if arguments:
            flags += ['--lattices'] + arguments
        if listed is not None:
            flags += ['--lattice-list', gen.tmp_file(listed)]
    number = 1 if use_stdin else int(gen.pick(rng, [1, 2, 3]))
    expected = {}
    for f in files:
        for u in f[1]:
            ranked = sorted(expectation(reference, specs[u]).items(), key=lambda item: -item[1][0][3])
            expected[u] = ' '.join([u] + list(ranked[0][0]))
    lines = []
    for job in range(number):
        output = gen.tmp_path('.out')
        extra = ['--num-jobs', number, '--job', job] if number > 1 or rng.rand() < 0.5 else []
        result = cli.theanolm('decode', path, *flags, *extra, '--output-file', output, stdin=stdin)
        mon.check(result.code == 0, 'exit', lambda: 'decode failed: %r' % result)
        mon.count('command jobs')
        with open(output, encoding='utf-8') as f:
            lines += f.read().splitlines()
    mon.count('command lines', len(lines))
    mon.check(sorted(lines) == sorted(expected.values()), 'command', lambda: 'decoded %r, expected %r'
              % (sorted(lines), sorted(expected.values())))


def unreadable(rng, mon):
    """One file of the batch cannot be read: the job must not pretend that it
    processed the others and nothing happened."""
    from theanolm.scoring import LatticeBatch
    kind, files, specs, word_to_id = compose(rng, mon)
    bad = rng.randint(len(files))
    damage = gen.pick(rng, ['missing', 'garbage', 'truncated'])
    path = gen.tmp_path('.slf')
    if damage == 'garbage':
        path = gen.tmp_file('this is not a lattice\n1 2 3 4 5 6\n', '.slf')
    elif damage == 'truncated':
        lines = files[bad][2].split('\n')
        if kind == 'slf':
            path = gen.tmp_file('\n'.join(lines[:-2]) + '\n', '.slf')
        else:
            path = gen.tmp_file('utt0\n0 1\t\n0 1 2\n\n', '.lat')
    paths = [f[0] for f in files]
    paths[bad] = path
    mon.case({'format': kind, 'files': [f[1] for f in files], 'bad': bad, 'damage': damage})
    mon.count('unreadable files')
    others = [u for k, f in enumerate(files) if k != bad for u in f[1]]
    seen = []
    try:
        for lattice in LatticeBatch(paths, None, kind, io.StringIO(vocabulary(word_to_id)) if kind == 'kaldi' else None):
            seen.append(lattice.utterance_id)
    except Exception:
        return
    mon.check([u for u in seen if u in others] == others, 'silent', 'lattices %r were delivered without an error although the batch '
              'has also %r' % (seen, [u for u in others if u not in seen]))
    mon.check(len(seen) >= len(others), 'silent', 'lattices disappeared')


FAMILIES = [
    dict(name='jobs', fn=jobs, quick=600, thorough=4000),
    dict(name='many', fn=many, quick=16, thorough=100),
    dict(name='unreadable', fn=unreadable, quick=200, thorough=800),
    dict(name='command', fn=command, quick=100, thorough=300),
]
