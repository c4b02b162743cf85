"""C25: a fixed random seed makes training and sampling reproducible."""

import os
import shutil
import subprocess
import sys

import numpy

from vf import cli, core, gen, trainrun

RULE = ('Random "theanolm train" and "theanolm sample" commands, including dropout, sampling-based costs, classes and subsampling of '
        'the data, are run several times with the same seed, with the global generators in different states, and in separate '
        'processes with different hash randomisation and environment. Model files (every dataset and attribute) and outputs have to '
        'be equal; other seeds have to give other results. Distinct by command and inputs.')
QUICK_SCALE = 1
REQUIRED = ['trainings compared', 'continued trainings compared', 'trainings with dropout', 'trainings with noise samples', 'trainings with sampling',
            'trainings with validation', 'trainings with classes', 'other training seeds', 'samples compared', 'other sampling seeds',
            'trainings compared between processes', 'vocabulary files that lack words', 'samples compared between processes', 'states differing in saved values']
ASSUMPTIONS = ['The same machine, libraries and Theano configuration in both runs.']


def disturb(rng):
    """State that the commands have to be independent of."""
    import random
    numpy.random.seed(rng.randint(1 << 30))
    numpy.random.rand(rng.randint(10))
    random.seed(int(rng.randint(1 << 30)))


def configuration(rng, mon, wanted=None, **kwargs):
    setup = trainrun.Setup(rng, **kwargs)
    while (wanted == 'noise' and not setup.options.get('cost')) or (wanted == 'dropout' and 'dropout' not in setup.description):
        setup = trainrun.Setup(rng, **kwargs)
    if rng.rand() < 0.4:
        setup.options['sampling'] = [gen.pick(rng, [0.5, 0.8, 1.5]) for _ in setup.training]
        mon.count('trainings with sampling')
    if 'dropout' in setup.description:
        mon.count('trainings with dropout')
    if setup.options.get('cost'):
        mon.count('trainings with noise samples')
    if setup.validation:
        mon.count('trainings with validation')
    if setup.vocabulary_kind not in (None, 'words'):
        mon.count('trainings with classes')
    if rng.rand() < 0.1:
        setup.options['random-seed'] = gen.pick(rng, [0, 2 ** 32 - 1])
    return setup


def output(result):
    """What does not depend on the time and on file names."""
    return [l for l in result.out.split('\n') if l.startswith('Best validation set perplexity') or 'has not been trained' in l]


def train(rng, mon, wanted=None):
    setup = configuration(rng, mon, wanted)
    mon.case(setup.describe())
    paths = [gen.tmp_path('.h5') for _ in range(2)]
    results = []
    for path in paths:
        disturb(rng)
        results.append(setup.run(path))
        mon.check(results[-1].code == 0, 'command', 'theanolm train failed: %r' % results[-1])
    compare(mon, paths, results, 'trainings compared')
    stored = trainrun.contents(paths[0])
    if not any(n.startswith('layers') for n in stored):
        return
    if rng.rand() < 0.6:
        # Training continues from a model.
        copies = [gen.tmp_path('.h5') for _ in range(2)]
        results = []
        for copy in copies:
            shutil.copyfile(paths[0], copy)
            disturb(rng)
            results.append(setup.run(copy, max_epochs=setup.options['max-epochs'] + 1))
            mon.check(results[-1].code == 0, 'command', 'continuing theanolm train failed: %r' % results[-1])
        compare(mon, copies, results, 'continued trainings compared')
    else:
        path = gen.tmp_path('.h5')
        result = setup.run(path, random_seed=(setup.options['random-seed'] + 1 + rng.randint(1000)) % (2 ** 32))
        mon.check(result.code == 0, 'command', 'theanolm train failed: %r' % result)
        other = trainrun.contents(path)
        mon.count('other training seeds')
        if any(n.startswith('layers') for n in other):
            changed = [n for n in trainrun.differences(stored, other) if n.startswith('layers')]
            matrices = [n for n in stored if n.startswith('layers') and numpy.ndim(stored[n]) == 2 and n.endswith('/W')]
            mon.check(all(n in changed for n in matrices), 'seed-ignored', 'another random seed gave the same values of %r'
                      % [n for n in matrices if n not in changed])
            mon.count('states differing in saved values')


def compare(mon, paths, results, name):
    stored = [trainrun.contents(p) for p in paths]
    difference = trainrun.differences(*stored)
    mon.check(not difference, 'model-differs', 'the models of two runs with the same seed differ: %r' % difference[:8])
    mon.check(output(results[0]) == output(results[1]), 'output-differs', 'output of two runs with the same seed: %r and %r'
              % (output(results[0]), output(results[1])))
    mon.count(name)
    mon.count('values compared', len(stored[0]))


def model(rng, simple=True):
    """A model in a file."""
    vocab, spec = gen.vocab(rng, size=4 + rng.randint(6), simple=simple, positive=True)
    description = gen.architecture_text(rng, stepwise=True, max_hidden=1, size=3)
    network = gen.network(rng, description, vocab, minibatch=True)
    path = gen.tmp_path('.h5')
    gen.save_model(network, path)
    return path, description, vocab, spec


def sample(rng, mon):
    path, description, vocab, spec = model(rng)
    number, length = 5 + rng.randint(10), 4 + rng.randint(8)
    seed = gen.pick(rng, [rng.randint(1 << 31), 0, 1, 2 ** 32 - 1])
    argv = ['sample', path, '--num-sentences', number, '--sentence-length', length]
    if rng.rand() < 0.3:
        argv += ['--seed-sequence', ' '.join(gen.pick(rng, [w for w in vocab.id_to_word[:vocab.num_shortlist_words()] if w[0] not in '<-'])
                                             for _ in range(1 + rng.randint(2)))]
    mon.case([description, argv[2:], spec.describe() if hasattr(spec, 'describe') else repr(vocab.id_to_word.tolist()), seed])
    outputs = []
    for _ in range(2):
        disturb(rng)
        result = cli.theanolm(*(argv + ['--random-seed', seed]))
        mon.check(result.code == 0, 'command', 'theanolm sample failed: %r' % result)
        outputs.append(result.out)
    mon.check(outputs[0] == outputs[1], 'sample-differs', 'sampling with seed %d gave %r and %r' % (seed, outputs[0], outputs[1]))
    mon.count('samples compared')
    others = set()
    for k in range(3):
        result = cli.theanolm(*(argv + ['--num-sentences', 40, '--sentence-length', 12, '--random-seed', (seed + 1 + k) % (2 ** 32)]))
        others.add(result.out)
    # Three equal texts of 40 sentences by chance only from a model that
    # practically never chooses anything else.
    if len(set(' '.join(others).split())) > 3 and len(set(list(others)[0].split('\n'))) > 5:
        mon.count('other sampling seeds')
        mon.check(len(others) > 1, 'seed-ignored', 'three seeds give the same text %r' % list(others)[0][:500])


def spawn(argv, hash_seed, extra):
    environment = dict(os.environ, PYTHONHASHSEED=str(hash_seed), **extra)
    command = [sys.executable, os.path.join(core.HOME, 'vf', 'command.py'), os.path.join(core.REPO, 'bin', 'theanolm')] + [str(a) for a in argv]
    return subprocess.Popen(command, env=environment, stdout=subprocess.PIPE, stderr=subprocess.PIPE, cwd=core.SCRATCH)


def finish(process):
    try:
        out, err = process.communicate(timeout=600)
    except subprocess.TimeoutExpired:
        process.kill()
        raise core.Inconclusive('a command did not finish in 600 s')
    return cli.Result(process.returncode, out.decode('utf-8'), err.decode('utf-8'))


def processes(rng, mon):
    outside = rng.randint(12)
    setup = configuration(rng, mon, simple=rng.rand() < 0.5, outside=outside,
                          vocabulary=gen.pick(rng, ['num-classes', 'classes', 'srilm-classes', 'words', '']))
    if setup.vocabulary and outside > 1:
        mon.count('vocabulary files that lack words')
    if not setup.vocabulary_kind:
        setup.options.pop('num-classes', None)
    paths = [gen.tmp_path('.h5') for _ in range(2)]
    mon.case(setup.describe())
    seeds = [0, 1 + rng.randint(1 << 30)]
    extras = [{}, {'COLUMNS': '50', 'VF_UNRELATED': 'x' * rng.randint(50)}]
    running = [spawn(setup.argv(p), s, e) for p, s, e in zip(paths, seeds, extras)]
    results = [finish(p) for p in running]
    for result in results:
        mon.check(result.code == 0, 'command', 'theanolm train failed: %r' % result)
    compare(mon, paths, results, 'trainings compared between processes')
    if not any(n.startswith('layers') for n in trainrun.contents(paths[0])) or any('type=' + t in setup.description for t in ('blstm', 'bgru', 'glu')):
        path, _, _, _ = model(rng)
    else:
        path = paths[0]
    argv = ['sample', path, '--num-sentences', 10, '--sentence-length', 8, '--random-seed', rng.randint(1 << 30)]
    running = [spawn(argv, s, e) for s, e in zip(seeds, extras)]
    results = [finish(p) for p in running]
    for result in results:
        mon.check(result.code == 0, 'command', 'theanolm sample failed: %r' % result)
    mon.check(results[0].out == results[1].out, 'sample-differs', 'sampling in two processes gave %r and %r' % (results[0].out, results[1].out))
    mon.count('samples compared between processes')


FAMILIES = [
    dict(name='train', fn=train, quick=8, thorough=100),
    dict(name='noise', fn=lambda rng, mon: train(rng, mon, 'noise'), quick=8, thorough=100),
    dict(name='dropout', fn=lambda rng, mon: train(rng, mon, 'dropout'), quick=8, thorough=100),
    dict(name='sample', fn=sample, quick=20, thorough=400),
    dict(name='processes', fn=processes, quick=8, thorough=60),
]
