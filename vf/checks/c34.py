"""C34: the recipe functions run the commands with the settings they are given."""

import argparse
import collections
import gzip
import io
import json
import os
import subprocess
import sys

from vf import core, gen

FUNCTIONS = os.path.join(core.REPO, 'recipes', 'common', 'functions.sh')
RULE = ('The functions train, compute_perplexity, select_vocabulary and create_classes of the recipes are run by bash with random '
        'settings, texts and paths (with spaces in names). Stand-ins for theanolm and exchange record their arguments and '
        'environment, and one for ngram-count counts words. The recorded arguments are parsed with the real argument parser and '
        'compared with the settings; the vocabulary and class files are compared with the texts. Distinct by settings and texts.')
REQUIRED = ['train commands', 'score commands', 'settings compared', 'vocabularies selected', 'minimum counts', 'class vocabularies',
            'word vocabularies', 'given vocabularies kept', 'classes created', 'initial classes', 'classes continued', 'unfinished classes',
            'missing settings', 'debug settings']
ASSUMPTIONS = ['Words of the texts do not start with a special token, contain no commas, and are ordered by byte values.',
               'SRILM and exchange are not installed and are replaced by stand-ins with their documented interface.']

RECORD = '''#!%s
import json, os, sys
with open(os.environ['VF_RECORD'], 'a') as f:
    f.write(json.dumps({'program': os.path.basename(sys.argv[0]), 'argv': sys.argv[1:], 'flags': os.environ.get('THEANO_FLAGS')}) + '\\n')
'''
COUNT = '''#!%s
import collections, sys
args = sys.argv[1:]
def value(name):
    return args[args.index(name) + 1] if name in args else None
assert value('-order') == '1', args
counts = collections.Counter()
if '-no-sos' not in args:
    counts['<s>'] += 1
if '-no-eos' not in args:
    counts['</s>'] += 1
source = sys.stdin.buffer if value('-text') == '-' else open(value('-text'), 'rb')
for line in source:
    counts.update(line.decode('utf-8').split())
for option in ('-write', '-write-vocab'):
    if value(option) is None:
        continue
    lines = [word + '\\t%%d' %% count for word, count in counts.items()]
    if option == '-write-vocab':
        lines = ['<s>', '</s>', '<unk>', '-pau-'] + [w for w in counts if w not in ('<s>', '</s>', '<unk>', '-pau-')]
    target = sys.stdout.buffer if value(option) == '-' else open(value(option), 'wb')
    target.write(''.join(line + '\\n' for line in lines).encode('utf-8'))
    target.flush()
'''
EXCHANGE = RECORD + '''
import gzip
args, options, names = sys.argv[1:], {}, []
while args:
    a = args.pop(0)
    if a.startswith('--'):
        key, equals, value = a[2:].partition('=')
        options[key] = value if equals else args.pop(0)
    else:
        names.append(a)
text, prefix = names
with open(os.environ['VF_RECORD'] + '.options', 'w') as f:
    json.dump(options, f)
def copy(source, kind):
    with open(source) as f, open(os.environ['VF_RECORD'] + kind, 'w') as g:
        g.write(f.read())
init = options.get('class-init')
if init and not init.endswith('.gz'):
    copy(init, '.init')
copy(options['vocabulary'], '.vocabulary')
copy(text, '.text')
mode = os.environ['VF_MODE']
names = {'finished': [''], 'none': [], 'temporary': ['.temp%%d' %% n for n in (2, 10, 9)]}[mode]
for name in names:
    with gzip.open(prefix + name + '.classes.gz', 'wt') as f:
        f.write('classes of exchange' + name + '\\n')
'''


class Bench(object):
    def __init__(self, rng):
        self.root = gen.tmp_path('.recipe')
        bin_path = os.path.join(self.root, 'bin')
        os.makedirs(bin_path)
        for name, content in (('theanolm', RECORD), ('ngram-count', COUNT), ('exchange', EXCHANGE)):
            path = os.path.join(bin_path, name)
            with open(path, 'w') as f:
                f.write(content % sys.executable)
            os.chmod(path, 0o755)
        self.output = os.path.join(self.root, gen.pick(rng, ['out', 'out put', 'out/deep']))
        self.record = os.path.join(self.root, 'record')
        self.mode = 'finished'

    def path(self, name, content=''):
        path = os.path.join(self.root, name)
        with open(path, 'wb') as f:
            f.write(content.encode('utf-8'))
        return path

    def run(self, settings, *functions):
        """Returns the exit code, the output and what was recorded."""
        def quote(value):
            return "'" + str(value).replace("'", "'\\''") + "'"
        lines = ['set -e', 'source ' + quote(FUNCTIONS)]
        for name, value in settings.items():
            if isinstance(value, list):
                lines.append('%s=(%s)' % (name, ' '.join(map(quote, value))))
            else:
                lines.append('%s=%s' % (name, quote(value)))
        lines += functions
        script = self.path('recipe.sh', '\n'.join(lines) + '\n')
        variables = {k: v for k, v in os.environ.items() if k not in ('THEANO_FLAGS',) and not k.startswith('PYTHON')}
        variables.update(PATH=os.path.join(self.root, 'bin') + ':' + os.environ['PATH'], VF_RECORD=self.record, VF_MODE=self.mode,
                         LC_ALL='C.UTF-8')
        process = subprocess.Popen(['bash', script], cwd=self.root, env=variables, stdin=subprocess.DEVNULL, stdout=subprocess.PIPE,
                                   stderr=subprocess.STDOUT)
        try:
            out, _ = process.communicate(timeout=300)
        except subprocess.TimeoutExpired:
            process.kill()
            raise core.Inconclusive('the recipe did not finish in 300 s')
        records = []
        if os.path.exists(self.record):
            with open(self.record) as f:
                records = [json.loads(line) for line in f]
        return process.returncode, out.decode('utf-8', 'replace'), records

    def read(self, name):
        with open(name, 'rb') as f:
            return f.read().decode('utf-8')


def texts(rng, bench):
    """Paths and contents of training files."""
    pool = [w for w in gen.words(rng, 2 + gen.some(rng, 12, 300, 0.05)) if not w.startswith(('<', '-pau-')) and ',' not in w]
    pool = pool or ['a', 'b']
    paths, contents = [], []
    for k in range(1 + rng.randint(3)):
        content = ''.join(' '.join(gen.pick(rng, pool + ['<unk>'] * (rng.rand() < 0.1)) for _ in range(rng.randint(9))) + '\n'
                          for _ in range(rng.randint(1, 8)))
        contents.append(content)
        paths.append(bench.path(gen.pick(rng, ['train%d.txt', 'train %d.txt']) % k, content))
    return pool, paths, contents


def parse(mon, command, argv):
    from theanolm.commands import score, train as train_command
    parser = argparse.ArgumentParser(prog='theanolm')
    saved = sys.stdout
    sys.stdout = io.TextIOWrapper(io.BytesIO(), encoding='utf-8')
    try:
        (train_command if command == 'train' else score).add_arguments(parser)
        return parser.parse_args(argv)
    except SystemExit:
        mon.fail('arguments', 'theanolm %s does not accept %r' % (command, argv))
    finally:
        sys.stdout = saved


def name_of(stream):
    """Names of opened files; other values as they are."""
    if isinstance(stream, (list, tuple)):
        return [name_of(x) for x in stream]
    name = getattr(stream, 'name', stream)
    if hasattr(stream, 'close'):
        stream.close()
    return name


# setting, attribute of the parsed arguments, values
SETTINGS = [('SEQUENCE_LENGTH', 'sequence_length', [1, 20, 50]), ('BATCH_SIZE', 'batch_size', [1, 16, 64]),
            ('OPTIMIZATION_METHOD', 'optimization_method', ['sgd', 'nesterov', 'adadelta', 'rmsprop-sgd', 'rmsprop-nesterov', 'adam']),
            ('STOPPING_CRITERION', 'stopping_criterion', ['epoch-count', 'no-improvement', 'annealing-count']),
            ('COST', 'cost', ['cross-entropy', 'nce', 'blackout']), ('LEARNING_RATE', 'learning_rate', [1.0, 0.001, 20.0]),
            ('GRADIENT_DECAY_RATE', 'gradient_decay_rate', [0.5, 0.95]), ('EPSILON', 'numerical_stability_term', [1e-8, 0.01]),
            ('NUM_NOISE_SAMPLES', 'num_noise_samples', [2, 25]), ('NOISE_DISTRIBUTION', 'noise_distribution', ['uniform', 'log-uniform']),
            ('NOISE_DAMPENING', 'noise_dampening', [0.0, 0.75]), ('VALIDATION_FREQ', 'validation_frequency', [1, 3]),
            ('PATIENCE', 'patience', [0, 1, 7]), ('MAX_GRADIENT_NORM', 'gradient_normalization', [1.0, 15.0]),
            ('L1_REGULARIZATION', 'l1_regularization', [0.01]), ('L2_REGULARIZATION', 'l2_regularization', [0.25]),
            ('NOISE_SHARING', 'noise_sharing', ['seq', 'batch'])]


def train(rng, mon):
    bench = Bench(rng)
    _, paths, contents = texts(rng, bench)
    settings = {'TRAIN_FILES': paths, 'OUTPUT_DIR': bench.output, 'ARCHITECTURE_FILE': bench.path('a.arch', 'x')}
    chosen = {}
    for name, attribute, values in SETTINGS:
        if rng.rand() < 0.5:
            settings[name] = chosen[attribute] = gen.pick(rng, values)
    flags = {}
    for name, attribute in (('EXCLUDE_UNK', 'exclude_unk'), ('DEBUG', 'debug'), ('PROFILE', 'profile')):
        flags[attribute] = bool(rng.rand() < 0.3)
        if flags[attribute]:
            settings[name] = 1
    if rng.rand() < 0.4:
        settings['THEANO_FLAGS'] = 'floatX=float32'
    mon.count('debug settings', flags['debug'])
    devel = None
    if rng.rand() < 0.6:
        devel = settings['DEVEL_FILE'] = bench.path('devel set.txt', 'a\n')
    kind = gen.pick(rng, ['classes', 'classes format', 'words', 'selected', 'kept'])
    vocabulary, fmt = os.path.join(bench.output, 'nnlm.vocab'), 'words'
    if kind in ('classes', 'classes format'):
        vocabulary = settings['CLASSES'] = bench.path('classes', 'a 1\n')
        fmt = 'classes'
        mon.count('class vocabularies')
        if kind == 'classes format':
            fmt = settings['CLASSES_FORMAT'] = 'srilm-classes'
    elif kind == 'words':
        vocabulary = settings['VOCAB'] = bench.path('vocab', 'a\n')
        mon.count('word vocabularies')
    elif kind == 'kept':
        os.makedirs(bench.output)
        with open(vocabulary, 'w') as f:
            f.write('kept\n')
    mon.case({k: v for k, v in settings.items() if not str(v).startswith('/')}, nontrivial=len(chosen) > 1)
    code, out, records = bench.run(settings, 'train')
    mon.check(code == 0 and len(records) == 1, 'exit', 'train: exit code %r, commands %r, output %s' % (code, records, out[-1000:]))
    argv = records[0]['argv']
    mon.check(argv[:1] == ['train'], 'command', 'theanolm %r' % argv)
    args = parse(mon, 'train', argv[1:])
    mon.count('train commands')
    wanted = {'model_path': os.path.join(bench.output, 'nnlm.h5'), 'training_set': paths, 'validation_file': devel, 'vocabulary': vocabulary,
              'vocabulary_format': fmt, 'architecture': settings['ARCHITECTURE_FILE']}
    wanted.update(chosen)
    wanted.update(flags)
    for name, value in wanted.items():
        mon.count('settings compared')
        got = name_of(getattr(args, name))
        if isinstance(value, (int, float)) and not isinstance(value, bool):
            got, value = float(got), float(value)
        mon.check(got == value, 'setting', '%s is %r, setting is %r' % (name, got, value))
    shown = (records[0]['flags'] or '').split(',')
    mon.check(('optimizer=None' in shown) == flags['debug'], 'flags', 'THEANO_FLAGS=%r' % records[0]['flags'])
    mon.check('THEANO_FLAGS' not in settings or 'floatX=float32' in shown, 'flags', 'THEANO_FLAGS=%r' % records[0]['flags'])
    if kind == 'kept':
        mon.count('given vocabularies kept')
        mon.check(bench.read(vocabulary) == 'kept\n', 'replaced', 'an existing vocabulary was replaced')
    elif kind == 'selected':
        words = {w for c in contents for w in c.split()} - {'<unk>'}
        mon.check(sorted(bench.read(vocabulary).split('\n')[:-1]) == sorted(words), 'vocabulary', 'selected vocabulary')


def perplexity(rng, mon):
    bench = Bench(rng)
    settings = {'OUTPUT_DIR': bench.output, 'EVAL_FILE': bench.path('eval set.txt', 'a\n')}
    os.makedirs(bench.output)
    with open(os.path.join(bench.output, 'nnlm.h5'), 'w'):
        pass
    exclude, shortlist = bool(rng.rand() < 0.5), bool(rng.rand() < 0.5)
    if exclude:
        settings['EXCLUDE_UNK'] = 1
    if shortlist:
        settings['SHORTLIST'] = 1
    if rng.rand() < 0.4:
        settings[gen.pick(rng, ['CLASSES', 'VOCAB'])] = 'x'
    mon.case([sorted(settings), bench.output[len(bench.root):]])
    code, out, records = bench.run(settings, 'compute_perplexity')
    mon.check(code == 0 and len(records) == 1, 'exit', 'compute_perplexity: exit code %r, commands %r, output %s' % (code, records, out[-1000:]))
    argv = records[0]['argv']
    mon.check(argv[:1] == ['score'], 'command', 'theanolm %r' % argv)
    args = parse(mon, 'score', argv[1:])
    mon.count('score commands')
    for name, value in (('model_path', os.path.join(bench.output, 'nnlm.h5')), ('input_file', settings['EVAL_FILE']), ('output', 'perplexity'),
                        ('exclude_unk', exclude), ('shortlist', shortlist)):
        mon.count('settings compared')
        got = name_of(getattr(args, name))
        mon.check(got == value, 'setting', '%s is %r, setting is %r' % (name, got, value))


def vocabulary(rng, mon):
    bench = Bench(rng)
    _, paths, contents = texts(rng, bench)
    counts = collections.Counter(w for c in contents for w in c.split() if w != '<unk>')
    settings = {'TRAIN_FILES': paths}
    limit = gen.pick(rng, [None, 1, 2, 3])
    if limit is not None:
        mon.count('minimum counts')
        settings['VOCAB_MIN_COUNT'] = limit
    mon.case([contents, limit], nontrivial=len(counts) > 2)
    path = os.path.join(bench.root, 'the.vocab')
    code, out, _ = bench.run(settings, "select_vocabulary '%s'" % path)
    mon.check(code == 0, 'exit', 'select_vocabulary: exit code %r, output %s' % (code, out[-1000:]))
    words = bench.read(path).split('\n')[:-1]
    mon.count('vocabularies selected')
    mon.check(sorted(words) == sorted(w for w, c in counts.items() if c >= (limit or 0)), 'vocabulary', 'selected %r' % words, counts=dict(counts))
    if limit is not None:
        mon.check([counts[w] for w in words] == sorted((counts[w] for w in words), reverse=True), 'order', 'words are not in the order of counts')


def classes(rng, mon):
    bench = Bench(rng)
    pool, paths, contents = texts(rng, bench)
    counts = collections.Counter(w for c in contents for w in c.split() if w != '<unk>')
    settings = {'TRAIN_FILES': paths, 'OUTPUT_DIR': bench.output}
    number, seconds, threads = 3 + rng.randint(50), 100 + rng.randint(1000), 1 + rng.randint(8)
    for name, value in (('NUM_CLASSES', number), ('EXCHANGE_MAX_SECONDS', seconds), ('NUM_THREADS', threads)):
        settings[name] = value
    bench.mode = gen.pick(rng, ['finished', 'finished', 'temporary', 'none'])
    start = gen.pick(rng, ['nothing', 'classes', 'temporary'])
    given = {w: int(rng.randint(4)) for w in pool}
    if start in ('classes', 'temporary') and rng.rand() < (1.0 if start == 'classes' else 0.3):
        settings['READ_CLASSES'] = bench.path('given classes', ''.join('%s %d\n' % x for x in given.items()))
    if start == 'temporary':
        os.makedirs(bench.output)
        for n in (3, 11, 8):
            with gzip.open(os.path.join(bench.output, 'exchange.temp%d.classes.gz' % n), 'wt') as f:
                f.write('started %d\n' % n)
    mon.case([contents, number, seconds, threads, bench.mode, start], nontrivial=len(counts) > 2)
    code, out, records = bench.run(settings, 'create_classes')
    mon.check(len(records) == 1, 'exit', 'create_classes: commands %r, output %s' % (records, out[-1000:]))
    options = json.loads(bench.read(bench.record + '.options'))
    for name, value in (('num-classes', number), ('max-time', seconds), ('num-threads', threads)):
        mon.count('settings compared')
        mon.check(options.get(name) == str(value), 'setting', '%s is %r, setting is %d' % (name, options.get(name), value))
    mon.check(bench.read(bench.record + '.text') == ''.join(contents), 'text', 'text given to exchange')
    mon.check(sorted(bench.read(bench.record + '.vocabulary').split('\n')[:-1]) == sorted(counts), 'vocabulary', 'vocabulary given to exchange')
    init = options.get('class-init')
    if start == 'temporary':
        mon.count('classes continued')
        mon.check(os.path.basename(init or '') == 'exchange.temp11.classes.gz', 'continued', 'continued from %r' % init)
    elif start == 'classes':
        mon.count('initial classes')
        groups = {}
        for line in bench.read(bench.record + '.init').split('\n')[:-1]:
            label, _, members = line.partition(': ')
            mon.check(label not in groups, 'initial', 'class %s twice' % label)
            groups[label] = members.split(',')
        wanted = collections.defaultdict(list)
        for word, c in given.items():
            wanted[c].append(word)
        expected = sorted([['<s>', '</s>'], ['<unk>']] + [sorted(m) for m in wanted.values()], key=repr)
        expected = sorted([sorted(m) for m in expected])
        mon.check(sorted(sorted(m) for m in groups.values()) == expected, 'initial', 'initial classes %r' % groups, expected=expected)
    else:
        mon.check(init is None, 'initial', 'started from %r' % init)
    result = os.path.join(bench.output, 'classes')
    if bench.mode == 'finished':
        mon.check(code == 0, 'exit', 'exit code %d: %s' % (code, out[-500:]))
        mon.count('classes created')
        mon.check(bench.read(result) == 'classes of exchange\n', 'result', 'classes %r' % bench.read(result))
    elif bench.mode == 'temporary':
        mon.check(code == 0, 'exit', 'exit code %d: %s' % (code, out[-500:]))
        mon.count('unfinished classes')
        latest = 'started 11\n' if start == 'temporary' else 'classes of exchange.temp10\n'
        mon.check(bench.read(result) == latest, 'result', 'classes %r' % bench.read(result))
    elif start != 'temporary':
        mon.check(code != 0 and not os.path.exists(result), 'exit', 'exit code %d although exchange wrote nothing' % code)
    mon.check(code != 0 or not any(n.startswith('exchange.temp') for n in os.listdir(bench.output)), 'left', 'temporary files are left')


def missing(rng, mon):
    bench = Bench(rng)
    function = gen.pick(rng, ['train', 'compute_perplexity', 'create_classes', 'select_vocabulary x'])
    settings = {'TRAIN_FILES': [bench.path('t', 'a\n')], 'OUTPUT_DIR': bench.output, 'ARCHITECTURE_FILE': bench.path('a', 'a\n'), 'EVAL_FILE': bench.path('e', 'a\n')}
    needed = {'train': ['TRAIN_FILES', 'OUTPUT_DIR', 'ARCHITECTURE_FILE'], 'compute_perplexity': ['EVAL_FILE', 'OUTPUT_DIR'],
              'create_classes': ['TRAIN_FILES', 'OUTPUT_DIR']}.get(function, ['TRAIN_FILES'])
    name = gen.pick(rng, needed)
    del settings[name]
    mon.case([function, name])
    code, out, records = bench.run(settings, function)
    mon.count('missing settings')
    mon.check(code != 0 and not records, 'accepted', '%s without %s: exit code %d, commands %r' % (function, name, code, records))


FAMILIES = [
    dict(name='train', fn=train, quick=240, thorough=2000),
    dict(name='perplexity', fn=perplexity, quick=60, thorough=500),
    dict(name='vocabulary', fn=vocabulary, quick=200, thorough=2000),
    dict(name='classes', fn=classes, quick=200, thorough=2000),
    dict(name='missing', fn=missing, quick=60, thorough=300),
]
