"""C19: training keeps the best validated model and follows its schedule."""

import h5py
import numpy

from vf import gen, schedule, trainrun

RULE = ('The real trainer, iterator and stoppers run on random corpora with recording stand-ins for the network, optimizer and scorer; '
        'validation results are scripted (plateaus, improvements around the acceptance threshold, spikes). The log of updates, '
        'validation samples, learning rates and states is followed by an independent model of the schedule, and the stored state is '
        'compared with the best accepted one. Non-trivial: at least one epoch was trained. Distinct by options and script.')
REQUIRED = ['updates followed', 'validation samples', 'validations', 'candidates', 'validations without improvement', 'annealings',
            'batches delivered again', 'incomplete validations', 'stopped within an epoch', 'epochs', 'completed runs',
            'saved states compared', 'complete passes', 'runs without validation', 'runs with sampling', 'custom statistics',
            'criterion epoch-count', 'criterion no-improvement', 'criterion annealing-count', 'validations of varying epochs', 'long varying runs', 'network trainings']
ASSUMPTIONS = ['At least as many updates per validation as there are perplexity samples in a validation (7), as the trainer documents.',
               'Perplexities are numbers; a NaN as the first validation result is not generated.']


def statistic_of(rng, mon):
    choice = rng.randint(4)
    if choice == 0:
        mon.count('custom statistics')
        return min, min
    if choice == 1:
        mon.count('custom statistics')
        return (lambda x: sum(x) / len(x)), (lambda x: float(numpy.mean(x)))
    return None, lambda x: float(numpy.median(numpy.asarray(x)))


def scripted(rng, mon):
    corpus = schedule.Corpus(rng)
    batch_size = 1 + rng.randint(3)
    number = -(-len(corpus.sequences) // batch_size)
    samples = gen.pick(rng, [7, 7, 7, 7, 1, 3, 5])
    validate = rng.rand() < 0.9 and number >= samples
    opts = schedule.options(rng, number, samples)
    learning_rate = gen.pick(rng, [1.0, 0.1, 3.0])
    length = 10 + rng.randint(150)
    if rng.rand() < 0.05:
        opts.update(max_epochs=20 + rng.randint(60), min_epochs=int(gen.pick(rng, [0, 10, 30])), patience=int(gen.pick(rng, [0, 3, 9, 25, 40])),
                    max_annealing_count=int(gen.pick(rng, [1, 5, 12, 30])))
        length = 300 + rng.randint(1500)
        mon.count('long runs')
    given, statistic = statistic_of(rng, mon) if rng.rand() < 0.3 else (None, lambda x: float(numpy.median(numpy.asarray(x))))
    script = schedule.script(rng, length)
    follow(rng, mon, corpus, batch_size, number, samples, validate, opts, learning_rate, given, statistic, script, ())


def follow(rng, mon, corpus, batch_size, number, samples, validate, opts, learning_rate, given, statistic, script, sampling):
    mon.count('criterion ' + opts['stopping_criterion'])
    if not validate:
        mon.count('runs without validation')
    with h5py.File(gen.tmp_path('.h5'), 'a', driver='core', backing_store=False) as state:
        events, killed, _ = schedule.run(corpus, opts, batch_size, learning_rate, state, script if validate else None,
                                         samples, given, sampling)
        mon.case([opts, number, samples, batch_size, corpus.length, [e[1] for e in events if e[0] == 'perplexity'][:30]],
                 nontrivial=len(events) > 0)
        expected = schedule.Expected(mon, opts, samples, statistic, number, learning_rate, validate)
        if not sampling:
            expected.unknown = corpus.sequences
        expected.follow(events)
        expected.compare_saved(state, mon)


def sampled(rng, mon):
    """Only a part of the files is used on every epoch."""
    corpus = schedule.Corpus(rng, lines=20 + rng.randint(60), split=False)
    sampling = [gen.pick(rng, [0.3, 0.5, 1.0, 1.5, 0.75]) for _ in range(rng.randint(1, len(corpus.lines) + 1))]
    batch_size = 1 + rng.randint(2)
    fractions = list(sampling) + [1.0] * (len(corpus.lines) - len(sampling))
    total = sum(int(round(f * n)) for f, n in zip(fractions, corpus.lines))
    number = -(-total // batch_size)
    if number < 7:
        return
    mon.count('runs with sampling')
    opts = schedule.options(rng, number, 7)
    follow(rng, mon, corpus, batch_size, number, 7, rng.rand() < 0.9, opts, 0.5, None,
           lambda x: float(numpy.median(numpy.asarray(x))), schedule.script(rng, 60), sampling)


def varying(rng, mon):
    """The number of updates varies from an epoch to another, because a sample
    of the lines is used and lines are split or empty."""
    from theanolm.training import Trainer
    names = gen.words(rng, 3 + rng.randint(5), simple=True)
    corpus = schedule.Corpus(rng, lines=4)
    corpus.paths = []
    corpus.length = gen.pick(rng, [3, 4, 100])
    for _ in range(1 + rng.randint(2)):
        text = ''
        for _ in range(12 + rng.randint(30)):
            text += ' '.join(gen.pick(rng, names) for _ in range(gen.pick(rng, [0, 1, 1, 2, 5, 9]))) + '\n'
        corpus.paths.append(gen.tmp_file(text))
    sampling = [gen.pick(rng, [0.5, 0.7, 0.9, 1.0]) for _ in corpus.paths]
    frequency = 1 + rng.randint(2)
    opts = {'validation_frequency': frequency, 'patience': -1, 'stopping_criterion': 'epoch-count', 'max_epochs': 3 + rng.randint(4),
            'min_epochs': 1, 'max_annealing_count': 0}
    samples = gen.pick(rng, [3, 5, 7])
    collected = []

    def statistic(values):
        collected.append(list(values))
        return float(numpy.median(values))
    path = gen.tmp_path('.h5')
    # an improvement every time, so that everything is saved
    with h5py.File(path, 'a', driver='core') as state:
        events, _, trainer = schedule.run(corpus, opts, 1, 0.5, state, lambda call: 1000.0 * 0.9 ** call, samples, statistic, sampling)
    epochs = opts['max_epochs']
    updates = [e for e in events if e[0] == 'update']
    mon.case([opts, sampling, corpus.length, samples, len(updates)])
    # Which update was a perplexity sample computed after?
    number = {}
    count = 0
    for event in events:
        if event[0] == 'update':
            count += 1
        else:
            number[event[1]] = count
    for values in collected:
        mon.count('validations of varying epochs')
        mon.check(len(values) == samples, 'samples', 'a validation was made of %d samples, not %d, when the number of mini-batches varies'
                  % (len(values), samples))
        at = [number[v] for v in values]
        mon.check(at == list(range(at[0], at[0] + samples)), 'samples', 'a validation consists of samples after updates %r' % at)
    # Every epoch is longer than two validations.
    if len(updates) >= epochs * (frequency + 1) * (samples + 4):
        mon.count('long varying runs')
        mon.check(len(collected) == epochs * frequency, 'validations', '%d validations in %d epochs of varying length, frequency %d'
                  % (len(collected), epochs, frequency))


FAMILIES = [
    dict(name='varying', fn=varying, quick=360, thorough=1500),
    dict(name='scripted', fn=scripted, quick=900, thorough=3000),
    dict(name='sampled', fn=sampled, quick=360, thorough=1000),
]


def command(rng, mon):
    """Real networks: the stored model is the one whose validation was best."""
    setup = trainrun.Setup(rng, lines=14 + rng.randint(20), validation=True)
    setup.options['max-epochs'] = 1 + rng.randint(4)
    setup.options['batch-size'] = 1 + rng.randint(2)
    setup.options['sequence-length'] = 100
    setup.options['validation-frequency'] = 1 + rng.randint(2)
    setup.options['learning-rate'] = gen.pick(rng, [0.001, 0.01, 0.1, 0.3])
    exclude = bool(rng.rand() < 0.35)
    if exclude:
        setup.options['exclude-unk'] = []
        mon.count('trainings that exclude unknown words')
    path = gen.tmp_path('.h5')
    mon.case(setup.describe())
    tags = []
    from theanolm import TextScorer
    original = TextScorer.compute_perplexity

    def recorded(scorer, batch_iter):
        result = original(scorer, batch_iter)
        tags.append(float(result))
        return result
    TextScorer.compute_perplexity = recorded
    try:
        result = setup.run(path)
    finally:
        TextScorer.compute_perplexity = original
    mon.check(result.code == 0, 'command', 'theanolm train failed: %r' % result)
    mon.count('network trainings')
    stored = trainrun.contents(path)
    if 'trainer' not in [n.split('/')[0].split('@')[0] for n in stored]:
        mon.check('has not been trained' in result.out, 'not-trained', 'nothing was saved: %r' % result)
        lines = sum(t.count('\n') for t in setup.texts)
        updates = -(-lines // setup.options['batch-size'])
        mon.check(updates // setup.options['validation-frequency'] < 8, 'no-validation', 'no validation in %d updates' % updates)
        return
    history = stored['trainer/cost_history'].tolist()
    mon.check(len(history) > 0 and min(history) >= 0.999 * history[-1], 'not-best', 'the stored state has cost %r, history %r' % (history[-1:], history))
    # the cost is the median of seven consecutive samples
    medians = [float(numpy.median(tags[i:i + 7])) for i in range(len(tags) - 6)]
    for cost in history:
        mon.check(any(abs(cost - m) <= 1e-9 * cost for m in medians), 'statistic', 'cost %r is not the median of consecutive samples' % cost)
    expected = trainrun.perplexity(path, setup.validation_text, exclude)
    printed = [l for l in result.out.split('\n') if l.startswith('Best validation set perplexity:')]
    mon.check(len(printed) == 1, 'no-perplexity', 'no final perplexity printed: %r' % result)
    mon.close(float(printed[0].split()[-1]), expected, 'final-perplexity', 'final perplexity', rtol=1e-6)
    # the stored parameters are those of a validation sample
    mon.check(any(abs(expected - t) <= 1e-6 * expected for t in tags[:-1]), 'stored-sample',
              'the perplexity %r of the stored model was not seen during training' % expected)
    mon.check(stored['trainer@epoch_number'] <= setup.options['max-epochs'], 'epochs', 'state of epoch %r stored' % stored['trainer@epoch_number'])


FAMILIES.append(dict(name='command', fn=command, quick=30, thorough=150))
