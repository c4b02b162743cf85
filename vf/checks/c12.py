"""C12: the score command reports figures consistent with the model."""

import re

import numpy

from vf import cli, gen, nets
from vf.scores import Reference

RULE = ('The score command is run on saved random models and random texts (words, or subwords with either marking) with every '
        'output level, log base and unknown-word option. Every number it prints is parsed and compared with what the reference '
        'scorer and an independent merging of subwords derive from the text. Non-trivial: at least two sentences. Distinct by '
        'model, text and options.')
REQUIRED = ['word lines', 'summaries', 'utterance lines', 'merged words', 'excluded words', 'zero probabilities',
            'marking word-boundary', 'marking prefix-affix', 'log base', 'out-of-shortlist words', 'empty lines',
            'sentences without scored words', 'more than one batch', 'default output file', 'unknown subwords', 'large inputs', 'more than one batch of subwords']
ASSUMPTIONS = ['When <unk> is excluded it is alone in its class; the output layer documents that as a restriction.',
               'A word boundary belongs to the word it ends; a boundary before the first word belongs to no word.']
TOLERANCE = dict(rtol=1e-7, atol=1e-8)


def merge(tokens, logprobs, marking):
    """Words (as token lists) and their log probabilities, first word without."""
    if marking is None:
        return [[t] for t in tokens], list(logprobs)
    groups = []          # indices into tokens[1:]
    if marking == 'word-boundary':
        current, filled = [], False
        for i, token in enumerate(tokens[1:]):
            current.append(i)
            if token == '<w>':
                if filled:
                    groups.append(current)
                current, filled = [], False
            else:
                filled = True
        if filled:
            groups.append(current)
    else:
        for i, token in enumerate(tokens[1:]):
            if groups and tokens[1:][i - 1].endswith('+') and token.startswith('+'):
                groups[-1].append(i)
            else:
                groups.append([i])
    words, scores = [[tokens[0]]], []
    for group in groups:
        parts = [tokens[1:][i] for i in group]
        if marking == 'word-boundary':
            parts = [p for p in parts if p != '<w>']
            if '<unk>' in parts:
                parts = ['<unk>']
        words.append(parts)
        values = [logprobs[i] for i in group]
        scores.append(None if any(v is None for v in values) else float(sum(values)))
    return words, scores


def subword_sentence(rng, pool, marking, words=5):
    tokens = []
    for _ in range(rng.randint(words)):
        parts = [gen.pick(rng, pool) if rng.rand() < 0.85 else gen.pick(rng, ['oov1', '<unk>']) for _ in range(1 + rng.randint(3))]
        if marking == 'word-boundary':
            tokens += parts + ['<w>'] * (1 + (rng.rand() < 0.05))
        else:
            tokens += parts
    if marking == 'word-boundary':
        if rng.rand() < 0.4:
            tokens.insert(0, '<w>')
        if rng.rand() < 0.3 and tokens and tokens[-1] == '<w>':
            tokens.pop()
    return tokens


def score(rng, mon, unscorable=False, large=None):
    marking = 'word-boundary' if unscorable else gen.pick(rng, [None, None, 'word-boundary', 'prefix-affix'])
    include = []
    if marking == 'word-boundary':
        include = ['<w>'] if rng.rand() < 0.9 else []
    elif marking == 'prefix-affix':
        base = ['ka', 'la', 'ö']
        include = [gen.pick(rng, ['', '+']) + b + gen.pick(rng, ['', '+']) for b in base] + ['ab+', '+cd', '+e+', '+']
    vocab, spec = gen.vocab(rng, size=2 + rng.randint(7), positive=rng.rand() < 0.4, include=sorted(set(include)), simple=rng.rand() < 0.5)
    exclude = bool(rng.rand() < 0.5 or unscorable) and len(spec.members('<unk>')) == 1 and vocab.num_classes() > 2
    use_shortlist = bool(rng.rand() < 0.4)
    description = gen.architecture_text(rng, max_hidden=1, output='softmax' if exclude else None)
    network = gen.network(rng, description, vocab, scale=1.0, exclude_unk=exclude)
    path = gen.save_model(network, gen.tmp_path('.h5'))
    reference = Reference(nets.output_function(network), vocab, use_shortlist, exclude)
    pool = [w for w in spec.all_words if w not in gen.SPECIALS and w != '<w>'] or ['oov1']
    if large and marking is None:
        number, length = large
        content, lines = gen.text(rng, pool, number, max_len=length)
        mon.count('large inputs')
    elif marking is None:
        content, lines = gen.text(rng, pool, rng.randint(1, 8) if rng.rand() < 0.8 else 17 + rng.randint(5), max_len=6)
    else:
        if large:
            lines = [subword_sentence(rng, pool, marking, 1 + large[1] // 2) for _ in range(1 + rng.randint(large[0]))]
            mon.count('large inputs')
        else:
            lines = [subword_sentence(rng, pool, marking) for _ in range(1 + rng.randint(6) if rng.rand() < 0.8 else 17 + rng.randint(30))]
        mon.count('more than one batch of subwords', sum(map(bool, lines)) > 16)
        if unscorable:
            lines = lines[:rng.randint(3)]
            lines.insert(rng.randint(len(lines) + 1), gen.pick(rng, [['oov1'], ['<unk>', 'oov2'], ['oov1', 'oov2', '</s>']]))
        content = ''.join(' '.join(tokens) + '\n' for tokens in lines)
        mon.count('marking ' + marking)
    mon.count('empty lines', sum(not tokens for tokens in lines))
    utterances = [gen.expected_utterance(tokens) for tokens in lines if tokens]
    mon.count('more than one batch', len(utterances) > 16)
    unk = vocab.word_to_id['<unk>']
    ids = [[vocab.word_to_id.get(w, unk) for w in u] for u in utterances]
    mon.count('out-of-shortlist words', sum(i >= vocab.num_shortlist_words() for s in ids for i in s))
    logprobs = [reference.sequence(s) for s in ids]
    output = gen.pick(rng, ['perplexity', 'word-scores', 'word-scores', 'utterance-scores'])
    log_base = gen.pick(rng, [None, 10, 2])
    scale = 1.0 if log_base is None else numpy.log(log_base)
    arguments = ['--output', output] if output != 'perplexity' or rng.rand() < 0.5 else []
    if log_base is not None:
        arguments += ['--log-base', log_base]
        mon.count('log base')
    if exclude:
        arguments.append('--exclude-unk')
    if use_shortlist:
        arguments.append('--shortlist')
    if marking is not None:
        arguments += ['--subwords', marking]
    mon.case({'architecture': description, 'vocabulary': spec.describe(), 'text': content, 'arguments': [str(a) for a in arguments]},
             nontrivial=len(utterances) > 1)
    arguments += ['--log-file', gen.tmp_path('.log')]
    output_path = None
    if rng.rand() < 0.7:
        output_path = gen.tmp_path('.out')
        arguments += ['--output-file', output_path]
    result = cli.theanolm('score', path, gen.tmp_file(content), *arguments)
    mon.check(result.code == 0, 'exit', lambda: 'score failed: %r' % result)
    if output_path is None:
        mon.count('default output file')
        printed = result.out
    else:
        with open(output_path, encoding='utf-8') as f:
            printed = f.read()
    lines = printed.split('\n')

    if output == 'utterance-scores':
        values = [float(x) for x in lines if x]
        wanted = [sum(lp for lp in u if lp is not None and not numpy.isneginf(lp)) / scale for u in logprobs]
        mon.check(len(values) == len(wanted), 'utterances', '%d scores for %d utterances' % (len(values), len(wanted)))
        mon.count('utterance lines', len(values))
        mon.close(values, wanted, 'utterance-score', 'utterance scores', **TOLERANCE)
        return

    merged = [merge(u, lp, marking) for u, lp in zip(utterances, logprobs)]
    position = 0
    if output == 'word-scores':
        for number, ((words, scores), utterance) in enumerate(zip(merged, utterances)):
            mon.check(lines[position] == '# Sentence %d' % (number + 1), 'sentence-number', 'line %r for sentence %d'
                      % (lines[position], number + 1))
            position += 1
            for k, (parts, value) in enumerate(zip(words[1:], scores)):
                line = lines[position]
                position += 1
                mon.count('word lines')
                mon.count('merged words', len(parts) > 1)
                predicted = ' '.join(parts)
                history = ' '.join(words[k])
                labels = ' '.join(p + (':OOV' if p not in vocab.word_to_id else
                                       ':shortlist' if vocab.word_to_id[p] < vocab.num_shortlist_words() else ':OOS')
                                  for p in parts)
                mon.check(line.endswith('[%s]' % labels), 'label', '%r for words %r' % (line, labels))
                if value is None:
                    mon.count('excluded words')
                    mon.check(line.startswith('p(%s | ' % predicted) and 'is not predicted' in line, 'word-line',
                              '%r for the excluded word %r' % (line, predicted))
                    continue
                mon.count('zero probabilities', bool(numpy.isneginf(value)))
                match = re.search(r'\)\) = (\S+)  \[', line)
                mon.check(line.startswith('log(p(%s | ' % predicted) and match is not None, 'word-line',
                          '%r for word %r' % (line, predicted))
                mon.check((history + ')) = ') in line, 'history', '%r for history %r' % (line, history))
                mon.close(float(line[line.rindex(')) = ') + 5:].split(' ')[0]), value / scale, 'word-score',
                          'log probability in %r' % line, **TOLERANCE)
            usable = [v for v in scores if v is not None and not numpy.isneginf(v)]
            if usable:
                mon.check(lines[position].startswith('Sentence perplexity: '), 'sentence', 'line %r' % lines[position])
                mon.close(float(lines[position].split(' ')[-1]), numpy.exp(-sum(usable) / len(usable)), 'sentence-perplexity',
                          'perplexity of sentence %d' % (number + 1), rtol=1e-7, atol=0)
            else:
                mon.count('sentences without scored words')
            while lines[position] and not lines[position].startswith('#') and not lines[position].startswith('Number of'):
                position += 1
            while position < len(lines) and not lines[position]:
                position += 1
    else:
        mon.count('sentences without scored words', sum(not [v for v in s if v is not None and not numpy.isneginf(v)]
                                                         for _, s in merged))
    mon.count('unknown subwords', marking is not None and sum(t == '<unk>' or t not in vocab.word_to_id
                                                               for u in utterances for t in u))
    fields = {}
    for line in lines[position:]:
        if line:
            name, value = line.rsplit(': ', 1)
            mon.check(name not in fields, 'summary', '%r is reported twice' % name)
            fields[name] = float(value)
    scores = [v for _, s in merged for v in s]
    usable = [v for v in scores if v is not None and not numpy.isneginf(v)]
    wanted = {'Number of sentences': len(utterances),
              'Number of words': sum(len(words) for words, _ in merged),
              'Number of tokens': sum(map(len, utterances)),
              'Number of predicted probabilities': len(usable),
              'Number of excluded (OOV) words': sum(v is None for v in scores),
              'Number of zero probabilities': sum(v is not None and bool(numpy.isneginf(v)) for v in scores)}
    mon.count('summaries')
    for name, value in wanted.items():
        mon.check(fields.get(name) == value, 'count', '%s: %r, should be %r' % (name, fields.get(name), value))
    if usable:
        entropy = -sum(usable) / len(usable)
        wanted = {'Cross entropy (base e)': entropy, 'Perplexity': numpy.exp(entropy)}
        if log_base is not None:
            wanted['Cross entropy (base %d)' % log_base] = entropy / scale
        for name, value in wanted.items():
            mon.check(name in fields, 'summary', '%s is not reported' % name)
            mon.close(fields[name], value, 'figure', name, rtol=1e-7, atol=1e-9)


def large(rng, mon):
    score(rng, mon, large=gen.pick(rng, [(1500, 3), (300, 6), (3, 700), (40, 60)]))


def unscorable(rng, mon):
    score(rng, mon, unscorable=True)


FAMILIES = [
    dict(name='unscorable', fn=unscorable, quick=60, thorough=300),
    dict(name='large', fn=large, quick=16, thorough=200),
    dict(name='score', fn=score, quick=300, thorough=3000),
]
