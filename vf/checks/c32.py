"""C32: class definition tools keep the classes and estimate probabilities from counts."""

import collections
import contextlib
import importlib.util
import io
import os
import runpy
import sys

from vf import core, gen

COMMON = os.path.join(core.REPO, 'recipes', 'common')
RULE = ('The script fix-class-probabilities.py is run on random class definitions (two and three column formats, several scripts, empty '
        'lines, plain and compressed files) and n-gram count files (with n-grams of higher orders, words without a class, classes '
        'without counts). The classes it writes are compared with the definitions given, their probabilities with the ratios of the '
        'counts, and they are read as the vocabulary of a model. The n-gram counts of random texts are compared with a count of every '
        'window, also after writing, reading with limits, and pruning. Distinct by contents.')
REQUIRED = ['scripts run', 'probabilities compared', 'classes without counts', 'words without counts', 'higher order n-grams',
            'words without a class', 'two column definitions', 'compressed inputs', 'vocabularies read', 'n-gram counts compared',
            'counts read back', 'counts read with limits', 'counts pruned', 'class lookups']
ASSUMPTIONS = ['Each word belongs to one class and each n-gram is listed once.', 'N-grams of a text are counted within one line.']


def load(name):
    spec = importlib.util.spec_from_file_location('vf_recipes_' + name, os.path.join(COMMON, name + '.py'))
    module = importlib.util.module_from_spec(spec)
    spec.loader.exec_module(module)
    return module


def run_script(*argv):
    """Standard output of the script, run in this process."""
    hidden = {name: sys.modules.pop(name) for name in list(sys.modules)
              if name in ('wordclasses', 'ngramcounts') or name.startswith('wordclasses.')}
    saved_argv, saved_path = sys.argv, list(sys.path)
    out = io.StringIO()
    sys.argv = ['fix-class-probabilities.py'] + list(argv)
    sys.path.insert(0, COMMON)
    try:
        with contextlib.redirect_stdout(out):
            runpy.run_path(os.path.join(COMMON, 'fix-class-probabilities.py'), run_name='__main__')
    finally:
        sys.argv, sys.path[:] = saved_argv, saved_path
        for name in ('wordclasses', 'ngramcounts'):
            sys.modules.pop(name, None)
        sys.modules.update(hidden)
    return out.getvalue()


def write(rng, mon, content):
    import gzip
    if rng.rand() < 0.3:
        mon.count('compressed inputs')
        path = gen.tmp_path('.gz')
        with open(path, 'wb') as f:
            f.write(gzip.compress(content.encode('utf-8')))
    else:
        path = gen.tmp_path('.txt')
        with open(path, 'wb') as f:
            f.write(content.encode('utf-8'))
    return path


def definitions(rng, mon):
    """Returns the text, and {class: {word: probability}}."""
    pool = list(dict.fromkeys(gen.words(rng, 1 + gen.some(rng, 20, 600, 0.05))))
    number = 1 + rng.randint(min(len(pool), 8))
    two = rng.rand() < 0.4
    classes = collections.OrderedDict()
    lines = []
    for word in pool:
        c = int(rng.randint(number))
        if two:
            name, prob = 'CLASS-%05d' % c, 0.0
            lines.append('%s%s%d' % (word, gen.pick(rng, ['\t', ' ']), c))
        else:
            name, prob = 'K%d' % c, gen.pick(rng, [0.0, 1.0, 0.25, float(rng.rand())])
            lines.append('%s %r %s' % (name, prob, word))
        classes.setdefault(name, collections.OrderedDict())[word] = prob
        if rng.rand() < 0.05:
            lines.append('')
    mon.count('two column definitions', two)
    return '\n'.join(lines) + gen.pick(rng, ['', '\n']), classes


def parse(mon, text):
    result = {}
    for line in text.splitlines():
        fields = line.split()
        mon.check(len(fields) == 3, 'bad-line', 'line %r' % line)
        members = result.setdefault(fields[0], {})
        mon.check(fields[2] not in members, 'repeated', 'word %r twice' % fields[2])
        members[fields[2]] = float(fields[1])
    return result


def script(rng, mon):
    from theanolm.vocabulary import Vocabulary
    content, classes = definitions(rng, mon)
    counts, lines = {}, []
    for members in classes.values():
        silent = rng.rand() < 0.2
        for word in members:
            if silent or rng.rand() < 0.15:
                mon.count('words without counts')
                continue
            counts[word] = int(gen.pick(rng, [0, 1, 2, 7, 1000, 123456789012]))
            lines.append('%s\t%d' % (word, counts[word]))
    listed = list(counts)
    for _ in range(rng.randint(6)):
        if listed:
            mon.count('higher order n-grams')
            ngram = [gen.pick(rng, listed) for _ in range(2 + rng.randint(2))]
            lines.append('%s\t%d' % (' '.join(ngram), 1 + rng.randint(1000)))
    for word in ('zzzq1', 'zzzq2')[:rng.randint(3)]:
        mon.count('words without a class')
        lines.append('%s\t%d' % (word, 1 + rng.randint(1000)))
    lines = [lines[i] for i in rng.permutation(len(lines))]
    mon.case((content, lines), nontrivial=len(classes) > 1)
    out = run_script(write(rng, mon, content), write(rng, mon, '\n'.join(lines) + ('\n' if lines else '')))
    mon.count('scripts run')
    result = parse(mon, out)
    mon.check({c: set(m) for c, m in result.items()} == {c: set(m) for c, m in classes.items()}, 'membership',
              'the classes written differ from those given', given=classes, written=result)
    for name, members in classes.items():
        weights = {w: counts.get(w, 0) for w in members}
        if not any(weights.values()):
            mon.count('classes without counts')
            weights = members
        total = float(sum(weights.values()))
        for word in members:
            mon.count('probabilities compared')
            expected = weights[word] / total if total > 0 else 0.0
            mon.close(result.get(name, {}).get(word, -1.0), expected, 'probability', 'probability of %r in %s' % (word, name), rtol=1e-9, atol=1e-300)
    if all(any(p > 0 for p in m.values()) for m in result.values()):
        vocab = Vocabulary.from_file(io.StringIO(out), 'srilm-classes')
        mon.count('vocabularies read')
        for name, members in result.items():
            ids = {vocab.word_id_to_class_id[vocab.word_to_id[w]] for w in members}
            mon.check(len(ids) == 1, 'classes-read', 'words of %s are in classes %r' % (name, ids))


def windows(text, order):
    result = collections.Counter()
    words = text.split()
    for n in range(1, order + 1):
        for i in range(len(words) - n + 1):
            result[tuple(words[i:i + n])] += 1
    return result


def same_counts(mon, counts, expected, absent, kind):
    mon.count('n-gram counts compared', len(expected))
    mon.check(counts.num_ngrams() == len(expected), kind, '%d n-grams, expected %d' % (counts.num_ngrams(), len(expected)))
    for ngram, count in expected.items():
        mon.check(ngram in counts and counts[ngram] == count, kind, 'count of %r' % (ngram,))
    for ngram in absent:
        mon.check(ngram in expected or ngram not in counts, kind, '%r is in the counts' % (ngram,))
    for n in range(1, 5):
        mon.check(sorted(counts.level(n)) == sorted(g for g in expected if len(g) == n), kind, 'n-grams of order %d' % n)


def ngrams(rng, mon):
    module = load('ngramcounts')
    pool = gen.words(rng, 1 + rng.randint(8))
    text = ' '.join(gen.pick(rng, pool) for _ in range(gen.some(rng, 30, 2000, 0.05)))
    order = 1 + rng.randint(4)
    expected = windows(text, order)
    mon.case((text, order), nontrivial=len(expected) > 2)
    counts = module.NGramCounts()
    counts.from_text(text, order)
    same_counts(mon, counts, expected, [], 'counts')
    written = io.StringIO()
    counts.write(written)
    again = module.NGramCounts()
    again.read(io.StringIO(written.getvalue()))
    mon.count('counts read back')
    same_counts(mon, again, expected, [], 'read-back')
    max_order = gen.pick(rng, [None, 1, 2, 3])
    min_count = gen.pick(rng, [None, 1, 2, 3])
    limited = module.NGramCounts()
    limited.read(io.StringIO(written.getvalue()), max_order=max_order, min_count=min_count)
    mon.count('counts read with limits')
    kept = {g: c for g, c in expected.items() if (max_order is None or len(g) <= max_order) and (min_count is None or c >= min_count)}
    same_counts(mon, limited, kept, expected, 'limits')
    mon.check(counts.num_contained(limited) == len(kept), 'contained', 'number of n-grams contained')
    limit = rng.randint(4)
    again.prune_count(limit)
    mon.count('counts pruned')
    same_counts(mon, again, {g: c for g, c in expected.items() if c > limit}, expected, 'pruned')


def definitions_module(rng, mon):
    module = load('wordclasses')
    content, classes = definitions(rng, mon)
    mon.case(content, nontrivial=len(classes) > 1)
    loaded = module.WordClasses()
    loaded.read(io.StringIO(content))
    mon.check({c.name(): dict(c) for c in loaded} == {c: dict(m) for c, m in classes.items()}, 'loaded', 'classes loaded')
    mapping = module.WordsToClasses(loaded)
    for name, members in classes.items():
        for word in members:
            mon.count('class lookups')
            found = loaded.find_containing(word)
            mon.check(found is not None and found.name() == name and word in mapping and mapping[word] == name, 'lookup', 'class of %r' % word)
    mon.check(loaded.find_containing('zzzq1') is None and 'zzzq1' not in mapping, 'lookup', 'class of a word that has none')
    names = {c.name() for c in loaded}
    for _ in range(3):
        new = loaded.create()
        mon.check(new.name() not in names, 'created', 'created class %s exists' % new.name())
        names.add(new.name())
    mon.check({c.name() for c in loaded} == names, 'created', 'classes after creating three')


FAMILIES = [
    dict(name='script', fn=script, quick=400, thorough=4000),
    dict(name='ngrams', fn=ngrams, quick=400, thorough=4000),
    dict(name='definitions', fn=definitions_module, quick=300, thorough=3000),
]
