"""C23: effective sample size obeys its autocorrelation definition."""
import numpy as np
from zsmon import stats as zst
from zsmon.core import subseed

RULE = ('Each evaluation is one chain (or chain matrix) whose effective sample size is compared with a direct float64 '
        'evaluation of the definition, and with its values after shifting, rescaling, reflecting, permuting or '
        'duplicating dimensions and changing the samples inside the burn-in. Independent, AR(1) of any correlation, '
        'moving-average, periodic, trending, heavy-tailed, discrete and Metropolis-like chains of 2 to 14000 samples, '
        'with up to thousands of counting lags. '
        'Distinct: (kind, length, seed).')
ASSUMPTIONS = ['chains whose first negative autocorrelation is within 1e-9 of 0 are not judged (rounding decides)',
               'chains are not constant']
REQUIRED = {'1d definition': 500, 'several lags': 130, 'representation': 400, 'matrix definition': 150, 'invariance': 600,
            'independent chains': 10, 'more than 1000 lags': 8, 'burn-in': 100, 'AR law': 6}


def items(tier, seed):
    n, reps = (60, 16) if tier == 'quick' else (600, 32)
    return [('definition', {'n': n, 'seed': subseed('c23', seed, r)}) for r in range(reps)] + \
        [('sticky', {'n': 3 if tier == 'quick' else 20, 'seed': subseed('c23s', seed, r)}) for r in range(reps)] + \
        [('law', {'seed': subseed('c23l', seed, r), 'n': 20000 if tier == 'quick' else 60000}) for r in range(16)]


def run(name, prm, rec):
    globals()['do_' + name](np.random.RandomState(prm['seed']), prm, rec)


def reference(x, eps=1e-9):
    """n / (1 + 2 sum of rho_t up to the first negative one); Stan's estimate
    rho_t = 1 - (W - autocov_t) / var+ of a single chain. Also whether rounding
    could decide where the sum stops."""
    x = np.asarray(x, np.float64)
    n = len(x)
    d = x - x.mean()
    vp = float(d.dot(d)) / n
    w = vp * n / (n - 1)
    s, k, close = 0., 0, False
    for t in range(1, n):
        c = float(d[:n - t].dot(d[t:])) / (n - t)
        rho = 1 - (w - c) / vp
        close |= abs(rho) < eps
        if rho < 0:
            break
        s += rho
        k += 1
    return n / (1 + 2 * s), k, close


def chain(rng, n):
    k = rng.randint(10)
    e = rng.normal(size=n)
    if k == 0:
        x = e
    elif k in (1, 2, 3):
        r = float(rng.choice([-.9, -.3, .3, .6, .9, .99, .999]))
        x = np.zeros(n)
        x[0] = e[0]
        for i in range(1, n):
            x[i] = r * x[i - 1] + np.sqrt(1 - r * r) * e[i]
    elif k == 4:
        w = int(rng.randint(1, 6))
        x = np.convolve(np.concatenate([e, rng.normal(size=w)]), np.ones(w), 'valid')[:n]
    elif k == 5:
        x = np.sin(np.arange(n) * rng.uniform(.05, 3.)) + .1 * e
    elif k == 6:
        x = np.linspace(0, rng.uniform(.5, 5), n) + e
    elif k == 7:
        x = rng.standard_t(3, n)
    elif k == 8:                         # Metropolis: repeated values
        x = np.zeros(n)
        for i in range(1, n):
            y = x[i - 1] + rng.normal(0, 2.)
            x[i] = y if rng.rand() < np.exp(min(0, (x[i - 1] ** 2 - y ** 2) / 2)) else x[i - 1]
    else:
        x = rng.randint(0, 3, n).astype(float)
    return 'k%d' % k, x


def close_to(a, b, tol=1e-6):
    return np.ndim(a) == 0 and abs(float(a) - float(b)) <= tol * abs(float(b))


def do_sticky(rng, prm, rec):
    """Long chains that hardly move: hundreds or thousands of lags count."""
    from zhusuan.diagnostics import effective_sample_size, effective_sample_size_1d
    for _ in range(prm['n']):
        n = int(rng.choice([1500, 5000, 9000, 14000]))
        e = rng.normal(size=n)
        kind = rng.randint(3)
        if kind == 0:
            x = np.cumsum(e) + rng.normal(size=n) * float(rng.choice([0., .5]))
        elif kind == 1:
            x = np.repeat(rng.permutation([-1., 1., 3.]), n // 3 + 1)[:n] + .01 * e
        else:
            x = np.linspace(0, 3, n) ** float(rng.choice([1., 2.])) + .3 * e
        ref, lags, amb = reference(x)
        if amb:
            continue
        ctx = {'kind': 'sticky%d' % kind, 'n': n, 'lags': lags}
        got = effective_sample_size_1d(x)
        rec.check(close_to(got, ref), 'definition', 'effective sample size %r, definition gives %r' % (got, ref), **ctx)
        rec.event('sticky chains')
        if lags > 1000:
            rec.event('more than 1000 lags')
        k = int(rng.choice([0, 100, n // 3]))
        refs = [reference(v[k:]) for v in (x, e)]
        if not any(r[2] for r in refs):
            g = effective_sample_size(np.stack([x, e], -1), burn_in=k)
            want = min(r[0] for r in refs)
            rec.check(close_to(g, want), 'matrix', 'effective sample size %r, definition gives %r' % (g, want), **ctx)
        rec.case(('sticky', kind, n, x.tobytes()), sample=dict(ctx, ess=float(got)))


def do_definition(rng, prm, rec):
    from zhusuan.diagnostics import effective_sample_size, effective_sample_size_1d
    for _ in range(prm['n']):
        n = int(rng.choice([2, 3, 5, 20, 100, 300, 1000]))
        kind, x = chain(rng, n)
        if np.ptp(x) == 0:
            continue
        ref, lags, amb = reference(x)
        ctx = {'kind': kind, 'n': n, 'lags': lags}
        if not amb and np.isfinite(ref) and ref > 0:
            keep = x.copy()
            got = effective_sample_size_1d(x)
            rec.check(close_to(got, ref), 'definition', 'effective sample size %r, definition gives %r' % (got, ref),
                      **ctx)
            rec.check(np.array_equal(x, keep), 'input-modified', 'the chain was modified', **ctx)
            rec.event('1d definition')
            if lags > 1:
                rec.event('several lags')
            for what, y in (('shift', x + float(rng.choice([-50., 3.]))), ('scale', x * float(rng.choice([1e-3, -7.]))),
                            ('reverse', x[::-1].copy())):
                r2, _, amb2 = reference(y)
                if not amb2:
                    g2 = effective_sample_size_1d(y)
                    rec.check(close_to(g2, ref, 1e-5), 'invariance', '%s changes the effective sample size from %r to %r'
                              % (what, ref, g2), **ctx)
                    rec.event('invariance')
            # the same chain kept another way
            how = ('int32', 'int64', 'int8', 'float32', 'view', 'read only', 'subclass')[rng.randint(7)]
            tol, eps = 1e-6, 1e-9
            if how.startswith('int'):
                y = np.round(x * (5 if how == 'int8' else 1000 * 10 ** rng.uniform(-3, 1)))
                y = np.clip(y, -120, 120).astype(how) if how == 'int8' else y.astype(how)
            elif how == 'float32':
                y, tol, eps = x.astype(how), 1e-2, 1e-4
            elif how == 'view':
                y = np.stack([x, -x], -1)[:, 0]
            elif how == 'read only':
                y = x.copy()
                y.setflags(write=False)
            else:
                y = x.view(type('Chain', (np.ndarray,), {}))
            if np.ptp(np.asarray(y, np.float64)) > 0:
                r2, _, amb2 = reference(y, eps)
                if not amb2 and np.isfinite(r2) and r2 > 0:
                    g2 = effective_sample_size_1d(y)
                    rec.check(close_to(g2, r2, tol), 'representation', 'effective sample size %r of a chain kept as %s, '
                              'definition gives %r' % (g2, how, r2), **ctx)
                    rec.event('representation')
            rec.case((kind, n, x.tobytes()), nontrivial=n > 3, sample=dict(ctx, ess=float(got)))
        # matrices
        n = int(rng.choice([30, 150, 400]))
        d = int(rng.choice([1, 2, 4]))
        X = np.stack([chain(rng, n)[1] for _ in range(d)], -1)
        b = [None, 0, 1, 10, n // 2][rng.randint(5)]
        if b is None and n <= 110:
            b = 5
        kw = {} if b is None else {'burn_in': b}
        bb = 100 if b is None else b
        if np.any(np.ptp(X[bb:], axis=0) == 0):
            continue
        refs = [reference(X[bb:, i]) for i in range(d)]
        if any(r[2] for r in refs) or not all(r[0] > 0 for r in refs):
            continue
        got = effective_sample_size(X, **kw)
        want = min(r[0] for r in refs)
        ctx = {'n': n, 'd': d, 'burn_in': b}
        rec.check(close_to(got, want), 'matrix', 'effective sample size %r, definition gives %r' % (got, want), **ctx)
        Y = X.copy()
        Y[:bb] = rng.normal(0, 1e3, (bb, d))
        rec.check(close_to(effective_sample_size(Y, **kw), want), 'burn-in', 'samples in the burn-in matter', **ctx)
        p = rng.permutation(d)
        rec.check(close_to(effective_sample_size(X[:, p] * rng.choice([-2., .5], d), **kw), want, 1e-5), 'permute',
                  'order or scale of the dimensions matters', **ctx)
        rec.event('matrix definition')
        rec.event('burn-in')
        rec.case(('matrix', n, d, b, X.tobytes()), sample=ctx)


def do_law(rng, prm, rec):
    """Asymptotic values: n for independent draws, n(1-r)/(1+r) for AR(1)."""
    from zhusuan.diagnostics import effective_sample_size_1d
    n = prm['n']
    r = float(rng.choice([0., 0., .3, .6]))
    e = rng.normal(size=n)
    if r:
        from scipy.signal import lfilter
        e = lfilter([np.sqrt(1 - r * r)], [1, -r], e)
    got = effective_sample_size_1d(e)
    want = n * (1 - r) / (1 + r)
    rec.check(.75 * want < got < 1.25 * want, 'law', 'effective sample size %g of %d draws with autocorrelation %g'
              % (got, n, r))
    rec.event('AR law' if r else 'independent chains')
    rec.event('independent chains' if r else 'AR law')
    rec.case(('law', r, n, e[:3].tobytes()), sample={'r': r, 'n': n, 'ess': float(got)})
