"""C33: the Kaldi n-best script gives every hypothesis its own score."""

import os
import subprocess
import sys

import numpy

from vf import core, gen, nets
from vf.scores import Reference

SCRIPT = os.path.join(core.REPO, 'kaldi', 'utils', 'theanolm_compute_scores.sh')
RULE = ('The script theanolm_compute_scores.sh is run, with the real score command, on saved random models and random archives of '
        'hypotheses (with empty hypotheses, sentence markers at either end, unknown words, several scripts, one to a hundred lines). '
        'Every line it writes is compared with the utterance ID and the negated log probability of the hypothesis on that line, as '
        'the reference scorer gives it. Incomplete arguments have to be reported. Distinct by model and archive.')
REQUIRED = ['scripts run', 'hypotheses compared', 'empty hypotheses', 'marked hypotheses', 'unknown words', 'equal hypotheses', 'wrong uses']
ASSUMPTIONS = ['Kaldi is not installed: its utils/parse_options.sh, which only reads options, is replaced by an empty file.',
               'Fields of the archive are separated by single spaces; scores are printed with six digits.']


def environment(directory):
    """A directory like the ones of Kaldi recipes, and variables for running the script in it."""
    os.makedirs(os.path.join(directory, 'utils'))
    os.makedirs(os.path.join(directory, 'bin'))
    open(os.path.join(directory, 'utils', 'parse_options.sh'), 'w').close()
    command = os.path.join(directory, 'bin', 'theanolm')
    with open(command, 'w') as f:
        f.write('#!/bin/sh\nexec %s %s "$@"\n' % (sys.executable, os.path.join(core.REPO, 'bin', 'theanolm')))
    os.chmod(command, 0o755)
    return dict(os.environ, PATH=os.path.join(directory, 'bin') + ':' + os.environ['PATH'])


def run(directory, variables, *arguments):
    process = subprocess.Popen(['bash', '-e', SCRIPT] + list(arguments), cwd=directory, env=variables, stdin=subprocess.DEVNULL,
                               stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
    try:
        out, _ = process.communicate(timeout=600)
    except subprocess.TimeoutExpired:
        process.kill()
        raise core.Inconclusive('the script did not finish in 600 s')
    return process.returncode, out.decode('utf-8', 'replace')


def scores(rng, mon):
    vocab, spec = gen.vocab(rng, size=2 + rng.randint(8), positive=True)
    description = gen.architecture_text(rng, max_hidden=1, glu=False)
    network = gen.network(rng, description, vocab, scale=1.0)
    model = gen.save_model(network, gen.tmp_path('.h5'))
    reference = Reference(nets.output_function(network), vocab, False, False)
    pool = [w for w in spec.all_words if w not in gen.SPECIALS] + ['oov1']
    unk = vocab.word_to_id['<unk>']
    lines, wanted = [], []
    for i in range(1 + rng.randint(12) if rng.rand() < 0.8 else 17 + rng.randint(84)):
        name = 'utt%d-%d' % (i // 3, i % 3 + 1)
        if wanted and rng.rand() < 0.1:
            mon.count('equal hypotheses')
            tokens = list(previous)
        else:
            tokens = [gen.pick(rng, pool) for _ in range(rng.randint(8))] if rng.rand() < 0.9 else []
        previous = tokens
        mon.count('empty hypotheses', not tokens)
        mon.count('unknown words', sum(w not in vocab.word_to_id for w in tokens))
        ids = [vocab.word_to_id.get(w, unk) for w in ['<s>'] + tokens + ['</s>']]
        wanted.append((name, -sum(lp for lp in reference.sequence(ids) if lp is not None and not numpy.isneginf(lp))))
        kind = rng.rand()
        if kind < 0.15:
            mon.count('marked hypotheses')
            tokens = gen.pick(rng, [['<s>'] + tokens, tokens + ['</s>'], ['<s>'] + tokens + ['</s>']])
        lines.append(' '.join([name] + tokens) + (' ' if not tokens and rng.rand() < 0.3 else ''))
    mon.case({'architecture': description, 'vocabulary': spec.describe(), 'archive': lines}, nontrivial=len(lines) > 1)
    directory = gen.tmp_path('.kaldi')
    variables = environment(directory)
    archive = os.path.join(directory, 'words_text')
    with open(archive, 'wb') as f:
        f.write(('\n'.join(lines) + '\n').encode('utf-8'))
    output = os.path.join(directory, 'scores')
    code, out = run(directory, variables, model, os.path.join(directory, 'temp'), archive, output)
    mon.count('scripts run')
    mon.check(code == 0, 'exit', lambda: 'the script failed (%d): %s' % (code, out[-1500:]))
    with open(output, encoding='utf-8') as f:
        written = [line.split() for line in f]
    mon.check([fields[0] for fields in written] == [name for name, _ in wanted], 'ids', 'IDs written', written=written)
    for fields, (name, value) in zip(written, wanted):
        mon.count('hypotheses compared')
        mon.check(len(fields) == 2, 'line', 'line %r' % fields)
        mon.close(float(fields[1]), value, 'score', 'score of %s' % name, rtol=2e-5, atol=1e-5)


def misuse(rng, mon):
    directory = gen.tmp_path('.kaldi')
    variables = environment(directory)
    archive = os.path.join(directory, 'words_text')
    if rng.rand() < 0.5:
        arguments = [os.path.join(directory, 'missing.h5'), os.path.join(directory, 'temp'), archive, os.path.join(directory, 'scores')]
        if rng.rand() < 0.5:
            open(archive, 'w').close()
    else:
        open(archive, 'w').close()
        arguments = [archive, os.path.join(directory, 'temp'), archive][:1 + rng.randint(3)]
    mon.case([a[len(directory):] for a in arguments])
    code, out = run(directory, variables, *arguments)
    mon.count('wrong uses')
    mon.check(code != 0, 'accepted', 'exit code 0 with arguments %r: %s' % (arguments, out[-500:]))
    mon.check(not os.path.exists(os.path.join(directory, 'scores')), 'written', 'scores were written')


FAMILIES = [
    dict(name='scores', fn=scores, quick=48, thorough=500),
    dict(name='misuse', fn=misuse, quick=12, thorough=60),
]
