"""C18: interpolation of log probabilities is numerically faithful."""

import numpy

from vf import gen

RULE = ('Pairs of log probabilities drawn over the whole range (0, tiny, ordinary, around the underflow limit -708..-746, '
        'thousands, hundreds of thousands, minus infinity) and weights over [0, 1] including the end points and values '
        'next to them; the reference is the log-sum-exp formula. Non-trivial: the two log probabilities differ.')
REQUIRED = ['linear', 'log-linear', 'underflow region', 'minus infinity', 'weight 0 or 1', 'numpy scalars']
ASSUMPTIONS = ['Log probabilities are at most zero and above -1e6 or minus infinity.']


def logprob(rng):
    kind = rng.randint(8)
    if kind == 0:
        return 0.0
    if kind == 1:
        return -float(rng.rand()) * 1e-6
    if kind in (2, 3):
        return -float(rng.rand()) * 20
    if kind == 4:
        return -700.0 - float(rng.rand()) * 50
    if kind == 5:
        return -float(rng.rand()) * 5000
    if kind == 6:
        return -float(rng.rand()) * 5e5
    return -numpy.inf


def weight(rng):
    kind = rng.randint(6)
    if kind == 0:
        return 0.0
    if kind == 1:
        return 1.0
    if kind == 2:
        return gen.pick(rng, [1e-12, 1e-6, 1 - 1e-12, 1 - 1e-6, 0.5, 0.25])
    return float(rng.rand())


def reference(a, b, w):
    terms = []
    if w > 0:
        terms.append(numpy.log(w) + a)
    if w < 1:
        terms.append(numpy.log1p(-w) + b)
    top = max(terms)
    if top == -numpy.inf:
        return top
    return top + numpy.log(sum(numpy.exp(t - top) for t in terms))


def note(mon, a, b, w):
    if any(-750 < x < -700 for x in (a, b)):
        mon.count('underflow region')
    if -numpy.inf in (a, b):
        mon.count('minus infinity')
    if w in (0.0, 1.0):
        mon.count('weight 0 or 1')


def linear(rng, mon):
    from theanolm.backend import interpolate_linear
    for _ in range(40):
        a, b, w = logprob(rng), logprob(rng), weight(rng)
        args = (a, b, w)
        if rng.rand() < 0.5:
            mon.count('numpy scalars')
            args = tuple(numpy.float64(x) for x in args)
        mon.case((a, b, w), nontrivial=a != b)
        got = interpolate_linear(*args)
        mon.count('linear')
        note(mon, a, b, w)
        expected = reference(a, b, w)
        mon.close(got, expected, 'linear', 'interpolate_linear(%r, %r, %r)' % (a, b, w), rtol=1e-9, atol=1e-9)
        mon.check(got <= max(a, b) + 1e-9 and got >= min(a, b) - 1e-9 * max(1.0, abs(min(a, b)) if numpy.isfinite(min(a, b)) else 1.0),
                  'not-between', 'interpolation of %r and %r with weight %r is %r' % (a, b, w, got))
        other = interpolate_linear(b, a, 1.0 - w)
        if w in (0.0, 1.0, 0.5, 0.25):
            mon.close(other, got, 'symmetry', 'swapping the models', rtol=1e-9, atol=1e-9)


def loglinear(rng, mon):
    from theanolm.backend import interpolate_loglinear
    for _ in range(40):
        a, b = logprob(rng), logprob(rng)
        w = weight(rng)
        v = 1.0 - w if rng.rand() < 0.7 else gen.pick(rng, [0.0, 1.0, 2.5, float(rng.rand()) * 20])
        args = (a, b, w, v)
        if rng.rand() < 0.5:
            mon.count('numpy scalars')
            args = tuple(numpy.float64(x) for x in args)
        mon.case(args, nontrivial=a != b)
        got = interpolate_loglinear(*args)
        mon.count('log-linear')
        note(mon, a, b, w)
        expected = (w * a if w else 0.0) + (v * b if v else 0.0)
        mon.close(got, expected, 'log-linear', 'interpolate_loglinear%r' % (args,), rtol=1e-9, atol=1e-9)


def token_total(rng, mon):
    """The combined score of a decoder hypothesis."""
    from theanolm.scoring.latticedecoder import LatticeDecoder
    for _ in range(10):
        ac, lat, nn = -float(rng.rand()) * 5000, logprob(rng), logprob(rng)
        w, scale, penalty = weight(rng), gen.pick(rng, [0.0, 1.0, 8.5, float(rng.rand()) * 20]), float(rng.randn())
        linear = bool(rng.rand() < 0.5)
        length = 1 + rng.randint(6)
        token = LatticeDecoder.Token(history=list(range(length)), ac_logprob=ac, lat_lm_logprob=lat, nn_lm_logprob=nn)
        lm = reference(nn, lat, w) if linear else (w * nn if w else 0.0) + ((1.0 - w) * lat if w != 1 else 0.0)
        if scale == 0.0 and not numpy.isfinite(lm):
            continue
        token.recompute_total(w, scale, penalty, linear)
        expected = ac + scale * lm + penalty * (length - 1)
        mon.count('totals')
        mon.case((ac, lat, nn, w, scale, penalty, linear))
        mon.close(token.total_logprob, expected, 'total', 'score of a hypothesis', rtol=1e-9, atol=1e-7)


FAMILIES = [
    dict(name='linear', fn=linear, quick=3600, thorough=12000),
    dict(name='loglinear', fn=loglinear, quick=2160, thorough=7200),
    dict(name='total', fn=token_total, quick=2160, thorough=7200),
]
