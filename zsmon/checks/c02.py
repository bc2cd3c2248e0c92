"""C02: the law and independence of samples."""
import numpy as np
import tensorflow as tf
from scipy import special as sp
from scipy import stats as st
from zsmon import dists as ds, shapes as sh, laws
from zsmon.core import subseed
from zsmon.stats import P1, P2, corr_p
from zsmon.tfu import session, Feeder

RULE = ('Each evaluation is one hypothesis test on samples drawn by the real code: the samples '
        'are mapped by the Rosenblatt transform of the reference law (randomised for discrete '
        'laws) to values that are iid uniform exactly when the law and independence hold, then '
        'tested per batch position, pooled, in the tails, per component, and for correlation between '
        'components, batch positions, sample indices, two sample() calls and two runs. '
        'A further family draws with parameters at the ends of what the dtype represents and compares '
        'the share of samples below pilot quantiles with the exact distribution function. '
        'Violations need p < 1e-6 and then p < 1e-9 on a fresh sample four times as large. '
        'Distinct: (distribution, dtypes, parameter regime, batch layout, n_samples form, '
        'reparameterised or not, shape knowledge, test).')
ASSUMPTIONS = [
    'law deviations below the statistical resolution (Kolmogorov distance about 0.006 in quick, '
    '0.002 in thorough) are not visible', 'float16 laws are judged with a slack of 0.03',
    'TensorFlow random kernels are judged only unsharded (one intra-op thread): the Multinomial '
    'kernel of this TensorFlow reuses random numbers between rows when it shards a batch over '
    'threads, see DESIGN.md']
REQUIRED = {'samples judged': 1000000, 'independence tests': 500, 'n_samples None': 20,
            'n_samples tensor': 20, 'extreme tests': 700}
SLACK = {'float64': 2e-6, 'float32': 5e-4, 'float16': 3e-2}


def items(tier, seed):
    reps = 2 if tier == 'quick' else 12
    size = 90000 if tier == 'quick' else 1200000
    return [(s.name, {'size': size, 'seed': subseed('c02', seed, s.name, r), 'rep': r})
            for r in range(reps) for s in ds.SPECS if s.samples] + \
        [('extreme', {'n': 8 if tier == 'quick' else 40, 'seed': subseed('c02x', seed, r), 'rep': r})
         for r in range(len(EXTREME) * (1 if tier == 'quick' else 4))]


def _s(rng, a, b):
    return float(10 ** rng.uniform(a, b))


def _loc(rng):
    sc = _s(rng, -20, 20)
    return np.float64(rng.choice([-1, 1]) * sc * _s(rng, -3, 3)), np.float64(sc)


def _soft(v):
    e = np.exp(v - v.max())
    return e / e.sum()


def _x_scale(cdf):
    def f(zs, rng, pd):
        m, s = (v.astype(pd) for v in _loc(rng))
        D, pd_ = zs.distributions, np.dtype(pd).type
        kw = {'std': s} if rng.randint(2) else {'logstd': np.log(s)}
        if 'logstd' in kw:
            s = np.exp(np.float64(kw['logstd']))
        d = {'norm': lambda: D.Normal(m, **kw), 'laplace': lambda: D.Laplace(m, pd_(s)),
             'fold': lambda: D.FoldNormal(m, **kw), 'uniform': lambda: D.Uniform(m, pd_(m + s))}[cdf]()
        m, w = np.float64(m), np.float64(s)
        if cdf == 'uniform':
            w = np.float64(pd_(np.asarray(m, pd) + s)) - m
        F = {'norm': lambda t: st.norm.cdf((t - m) / w), 'laplace': lambda t: st.laplace.cdf((t - m) / w),
             'fold': lambda t: np.where(t < 0, 0., st.norm.cdf((t - m) / w) - st.norm.cdf((-t - m) / w)),
             'uniform': lambda t: np.clip((t - m) / w, 0, 1)}[cdf]
        return d, {'mean': m, 'scale': w}, [(lambda x: x, F, abs(m) + w, None)]
    return f


def _x_gamma(inverse):
    def f(zs, rng, pd):
        a, b = np.asarray(_s(rng, -2.5, 5), pd), np.asarray(_s(rng, -8, 8), pd)
        A, B = np.float64(a), np.float64(b)
        # the unscaled gamma sample cannot go below the smallest normal number of the dtype
        tiny = np.float64(np.finfo(pd).tiny) / min(B, 1.) * 16
        if inverse:
            return zs.distributions.InverseGamma(a, b), {'alpha': A, 'beta': B}, [
                (lambda x: x, lambda t: sp.gammaincc(A, B / np.maximum(t, 1e-300)), 0., (1 / tiny, np.inf))]
        return zs.distributions.Gamma(a, b), {'alpha': A, 'beta': B}, [
            (lambda x: x, lambda t: sp.gammainc(A, B * np.maximum(t, 0.)), 0., (0., tiny))]
    return f


def _beta_cdf(a, b):
    return lambda t: sp.betainc(a, b, np.clip(t, 0., 1.))


def _x_beta(zs, rng, pd):
    a, b = np.asarray(_s(rng, -3, 4), pd), np.asarray(_s(rng, -3, 4), pd)
    if rng.randint(2):
        a, b = np.asarray(_s(rng, -3, -1), pd), np.asarray(_s(rng, -3, -1), pd)
    A, B = np.float64(a), np.float64(b)
    return zs.distributions.Beta(a, b), {'alpha': A, 'beta': B}, [(lambda x: x, _beta_cdf(A, B), 0., None)]


def _x_dirichlet(zs, rng, pd):
    k = int(rng.choice([2, 3, 5, 30]))
    a = (10 ** (rng.uniform(-3, 3) + rng.uniform(-1, 1, k))).astype(pd)
    A = a.astype(np.float64)
    return zs.distributions.Dirichlet(a), {'alpha': A[:5], 'k': k}, [
        (lambda x, i=i: x[..., i], _beta_cdf(A[i], A.sum() - A[i]), 0., None) for i in rng.permutation(k)[:3]]


def _x_poisson(zs, rng, pd):
    r = np.asarray(_s(rng, -3, 6), pd)
    return zs.distributions.Poisson(r), {'rate': np.float64(r)}, [
        (lambda x: x.astype(np.float64), lambda t: st.poisson.cdf(t, np.float64(r)), 'discrete', None)]


def _x_binomial(zs, rng, pd):
    n, l = int(rng.choice([1, 2, 50, 300])), np.asarray(rng.uniform(-9, 9), pd)
    pr = sp.expit(np.float64(l))
    return zs.distributions.Binomial(l, n), {'n_experiments': n, 'logits': np.float64(l)}, [
        (lambda x: x.astype(np.float64), lambda t: st.binom.cdf(t, n, pr), 'discrete', None)]


def _x_bernoulli(zs, rng, pd):
    l = np.asarray(rng.uniform(-9, 9), pd)
    return zs.distributions.Bernoulli(l), {'logits': np.float64(l)}, [
        (lambda x: x.astype(np.float64), lambda t: st.binom.cdf(t, 1, sp.expit(np.float64(l))), 'discrete', None)]


def _x_logits(rng, pd, top=400):
    k = int(rng.choice([2, 5, 40, top]))
    l = (rng.normal(0, 1, k) * _s(rng, -1, 2) + rng.choice([0., 300., -300.])).astype(pd)
    return k, l, _soft(l.astype(np.float64))


def _x_categorical(zs, rng, pd):
    k, l, pr = _x_logits(rng, pd)
    c = np.cumsum(pr)
    return zs.distributions.Categorical(l), {'k': k, 'logits': l[:5]}, [
        (lambda x: x.astype(np.float64), lambda t: c[np.clip(np.int64(t), 0, k - 1)], 'discrete', None)]


def _x_onehot(zs, rng, pd):
    k, l, pr = _x_logits(rng, pd)
    c = np.cumsum(pr)
    return zs.distributions.OnehotCategorical(l), {'k': k, 'logits': l[:5]}, [
        (lambda x: np.argmax(x, -1).astype(np.float64), lambda t: c[np.clip(np.int64(t), 0, k - 1)], 'discrete', None)]


def _x_multinomial(zs, rng, pd):
    k, l, pr = _x_logits(rng, pd, 12)
    n = int(rng.choice([1, 30, 100]))
    return zs.distributions.Multinomial(l, n), {'k': k, 'n_experiments': n, 'logits': l[:5]}, [
        (lambda x, i=i: x[..., i].astype(np.float64), lambda t, i=i: st.binom.cdf(t, n, min(pr[i], 1.)), 'discrete',
         None) for i in list(rng.permutation(k)[:2]) + [int(np.argmax(pr))]]


def _x_binconcrete(zs, rng, pd):
    l, t0 = np.asarray(rng.uniform(-8, 8), pd), np.asarray(_s(rng, -2, 2), pd)
    L, T = np.float64(l), np.float64(t0)
    return zs.distributions.BinConcrete(t0, l), {'logits': L, 'temperature': T}, [
        (lambda x: x, lambda t: sp.expit(T * sp.logit(np.clip(t, 0., 1.)) - L), 0., None)]


def _x_concrete(exp):
    def f(zs, rng, pd):
        k, t0 = int(rng.choice([2, 3, 8])), np.asarray(_s(rng, -2, 2), pd)
        l = (rng.normal(0, 1, k) * _s(rng, -1, .7)).astype(pd)
        L, T = l.astype(np.float64), np.float64(t0)
        c = np.cumsum(_soft(L))
        d = (zs.distributions.ExpConcrete if exp else zs.distributions.Concrete)(t0, l)
        fs = [(lambda x: np.argmax(x, -1).astype(np.float64), lambda t: c[np.clip(np.int64(t), 0, k - 1)], 'discrete',
               None)]
        if exp:
            i, j = rng.permutation(k)[:2]
            fs.append((lambda x: x[..., i].astype(np.float64) - x[..., j].astype(np.float64),
                       lambda t: sp.expit(T * t - (L[i] - L[j])), 40. * (1 + 1 / T), None))
        return d, {'logits': L, 'temperature': T}, fs
    return f


def _x_mvn(zs, rng, pd):
    k = int(rng.choice([1, 2, 6]))
    m, s = _loc(rng)
    L = np.tril(rng.normal(0, 1, (k, k))) * s
    L[np.arange(k), np.arange(k)] = s * 10 ** rng.uniform(-3, 0, k)
    mean, L = (m * rng.normal(0, 1, k)).astype(pd), L.astype(pd)
    M, W = mean.astype(np.float64), np.sqrt((L.astype(np.float64) ** 2).sum(-1))
    return zs.distributions.MultivariateNormalCholesky(mean, L), {'mean': M, 'std': W}, [
        (lambda x, i=i: x[..., i], lambda t, i=i: st.norm.cdf((t - M[i]) / W[i]), abs(M[i]) + 8 * k * s, None)
        for i in rng.permutation(k)[:3]]


def _x_matrix(zs, rng, pd):
    r, c = int(rng.choice([1, 2, 4])), int(rng.choice([1, 3]))
    su, sv = _s(rng, -8, 8), _s(rng, -8, 8)
    tri = lambda k, s: (np.tril(rng.normal(0, 1, (k, k)), -1) * s + np.diag(s * 10 ** rng.uniform(-2, 0, k))).astype(pd)
    U, V = tri(r, su), tri(c, sv)
    mean = (rng.normal(0, 1, (r, c)) * su * sv * _s(rng, -3, 3)).astype(pd)
    nu, nv = (np.sqrt((a.astype(np.float64) ** 2).sum(-1)) for a in (U, V))
    i, j = rng.randint(r), rng.randint(c)
    m, w = np.float64(mean[i, j]), nu[i] * nv[j]
    return zs.distributions.MatrixVariateNormalCholesky(mean, U, V), {'mean': m, 'std': w}, [
        (lambda x: x[..., i, j], lambda t: st.norm.cdf((t - m) / w), abs(m) + 8 * r * c * su * sv, None)]


EXTREME = [_x_scale('norm'), _x_scale('laplace'), _x_scale('fold'), _x_scale('uniform'), _x_gamma(False),
           _x_gamma(True), _x_beta, _x_dirichlet, _x_poisson, _x_binomial, _x_bernoulli, _x_categorical, _x_onehot,
           _x_multinomial, _x_binconcrete, _x_concrete(False), _x_concrete(True), _x_mvn, _x_matrix, _x_beta,
           _x_dirichlet]


def do_extreme(prm, rec):
    """Parameters at the ends of what the dtypes can represent: the share of samples up to thresholds
    taken from an earlier sample is compared with the exact distribution function of a scalar
    feature (thresholds are known up to rounding only)."""
    import zhusuan as zs
    rng = np.random.RandomState(prm['seed'])
    make = EXTREME[prm['rep'] % len(EXTREME)]
    for it in range(prm['n']):
        tf.reset_default_graph()
        pd = ('float32', 'float64')[it % 2]
        d, c, feats = make(zs, rng, pd)
        N = 4000 if 'n_experiments' in c or c.get('k', 0) > 100 else 20000
        ctx = {'dist': type(d).__name__, 'dtype': pd, 'params': c}
        n_ph = tf.placeholder(tf.int32, [])
        x = d.sample(n_ph)
        with session(1, 1) as sess, np.errstate(all='ignore'):
            pilot = sess.run(x, {n_ph: 200})
            rec.check(not np.any(np.isnan(np.asarray(pilot, np.float64))), 'nan', 'a sample is NaN', **ctx)
            big = None
            first = sess.run(x, {n_ph: N})
            for f, F, scale, unresolved in feats:
                q = np.sort(np.asarray(f(pilot)).ravel())
                ts = np.unique(q[[0, 5, 20, 60, 100, 140, 180, 195, 199]])
                for t in ts:
                    if scale == 'discrete':
                        tol = 0.
                    else:
                        tol = 16 * np.float64(np.spacing(np.asarray(max(abs(t), scale), pd))) + \
                            4 * np.float64(np.finfo(pd).tiny)
                    T = np.float64(t)
                    lo, hi = T - tol, T + tol
                    if unresolved and unresolved[0] <= T <= unresolved[1]:
                        lo, hi = unresolved
                    lo, hi = float(F(lo)), float(F(hi))
                    lo, hi = min(max(lo - 1e-7, 0.), 1.), min(max(hi + 1e-7, 0.), 1.)

                    def pv(v):
                        k, n = int(np.sum(np.asarray(f(v)).ravel() <= t)), np.asarray(f(v)).size
                        return 2 * min(st.binom.cdf(k, n, lo), st.binom.sf(k - 1, n, hi)), k / n
                    p1, k1 = pv(first)
                    rec.event('extreme tests')
                    if not p1 < P1:
                        continue
                    if big is None:
                        big = sess.run(x, {n_ph: 4 * N})
                    p2, k2 = pv(big)
                    rec.check(not p2 < P2, 'law: extreme parameters', 'P(x <= %r) is %.5g and %.5g in samples, %.5g..%.5g '
                              'by the density' % (T, k1, k2, lo, hi), **ctx)
            rec.event('samples judged', first.size)
        rec.event('extreme ' + ctx['dist'])
        rec.case(('extreme', ctx['dist'], pd, str(c)), sample=ctx)


def ks_p(u, slack):
    """u: (lower, upper) bounds of each value (they differ where rounding of the
    sample to its dtype leaves the value undetermined)"""
    lo, hi = (np.sort(np.asarray(v, np.float64).ravel()) for v in u)
    n = len(lo)
    if n < 5:
        return 1.
    if not (np.all(np.isfinite(lo)) and np.all(np.isfinite(hi))):
        return 0.
    k = np.arange(1, n + 1)
    d = max(np.max(k / n - hi), np.max(lo - (k - 1) / n)) - slack
    return float(st.kstwobign.sf(max(d, 0.) * np.sqrt(n)))


def tail_p(u, t, slack):
    """p-values of the number of values in the lowest and highest fraction t
    (whose probability is only known up to the slack)"""
    l, h = (v.ravel() for v in u)
    n = l.size
    for most, least in ((np.sum(l < t), np.sum(h < t)), (np.sum(h > 1 - t), np.sum(l > 1 - t))):
        lo = st.binom.cdf(int(most), n, max(t - slack, 0.))
        hi = st.binom.sf(int(least) - 1, n, t + slack)
        yield float(min(1., 2 * min(lo, hi)))


def wide(spec, rng, shapes, pd, ev):
    """Parameters over a wide range whose samples still determine the noise."""
    p = spec.gen(rng, shapes, 'mod', pd, ev)
    hi = pd == 'float64'
    n = spec.name
    if n in ('Normal', 'FoldNormal', 'Laplace'):
        sc = ds.loguniform(rng, 1e-5, 1e5, ())
        p = {k: v * sc for k, v in p.items()}
    elif n == 'Uniform':
        sc = ds.loguniform(rng, 1e-5, 1e5, ())
        p = {k: v * sc for k, v in p.items()}
    elif n in ('Gamma', 'InverseGamma'):
        p = {'alpha': ds.loguniform(rng, .5, 60., shapes['alpha']),
             'beta': ds.loguniform(rng, 1e-3, 1e3, shapes['beta'])}
    elif n in ('Beta', 'Dirichlet'):
        p = {k: ds.loguniform(rng, .5 if hi else .8, 40., shapes[k]) for k in p}
    elif n == 'Poisson':
        p = {'rate': ds.loguniform(rng, .02, 150., shapes['rate'])}
    elif n in ('Bernoulli', 'Binomial', 'Categorical', 'Multinomial', 'OnehotCategorical'):
        p = {k: v * 3. for k, v in p.items()}
    elif n in ('BinConcrete', 'ExpConcrete', 'Concrete'):
        p['temperature'] = np.array(ds.loguniform(rng, .4 if hi else .6, 4., ()))
        p['logits'] = p['logits'] * 2
    return p


def tests(us, slack, rng):
    """us: list of sample blocks, each {tag: u of shape (N, positions, comps)}.
    Yields (test name, p-value)."""
    u, iv = us['main'], us['bounds']
    N, B, K = u.shape
    yield 'pooled', ks_p(iv, slack)
    if slack < (1e-2 if us['tails'] else 1e-4):
        for t in (1e-2, 3e-3, 1e-3, 3e-4):
            for side, pv in zip(('lower', 'upper'), tail_p(iv, t, slack)):
                yield '%s tail %g' % (side, t), pv
    for b in range(min(B, 12)):
        yield 'position', ks_p([v[:, b] for v in iv], slack)
    for k in range(K):
        if K > 1:
            yield 'component', ks_p([v[:, :, k] for v in iv], slack)
    # variance-type dependence is looked at through |u - 1/2|
    for f, nm in ((lambda v: v, 'value'), (lambda v: np.abs(v - .5), 'spread')):
        w = f(u)
        if K > 1:
            for _ in range(3):
                i, j = rng.choice(K, 2, replace=False)
                yield 'dependence between components (%s)' % nm, corr_p(w[:, :, i], w[:, :, j])
        if B > 1 and N > 100:
            for _ in range(6):
                i, j = rng.choice(B, 2, replace=False)
                yield 'dependence between batch positions (%s)' % nm, corr_p(w[:, i], w[:, j])
        if B > 3:
            yield 'dependence between neighbours (%s)' % nm, corr_p(w[:, 1:], w[:, :-1])
        if N > 100:
            for lag in (1, 2):
                yield 'dependence between samples (%s)' % nm, corr_p(w[lag:], w[:-lag])
            h = N // 2
            yield 'dependence between halves (%s)' % nm, corr_p(w[:h], w[h:2 * h])
        yield 'dependence between runs (%s)' % nm, corr_p(w, f(us['rerun']))
        yield 'dependence between sample() calls (%s)' % nm, corr_p(w, f(us['second']))


def run(name, prm, rec):
    import zhusuan as zs
    if name == 'extreme':
        return do_extreme(prm, rec)
    spec = ds.BY_NAME[name]
    rng = np.random.RandomState(prm['seed'])
    plans = []
    for pd in spec.param_dtypes:
        for regime in ('mod', 'wide') if pd != 'float16' else ('mod',):
            for nform in ('int', 'tensor', 'none') if pd != 'float16' else ('int',):
                plans.append((pd, regime, nform))
    for pd, regime, nform in plans:
        sds = spec.sample_dtypes if spec.discrete else (pd,)
        sd = sds[rng.randint(len(sds))]
        if sd == 'float16' and regime == 'wide':
            sd = 'float32'
        cfg = sh.config(rng, spec)
        slack = SLACK[pd]
        if nform == 'none':
            n0 = prm['size'] // 10
            b = (n0, 2) if rng.randint(2) else (n0,)
            cfg.update(batch=b, shapes={k: () if k in spec.scalar_params else b for k in spec.params})
        es = ds.shapes_for(spec, cfg['shapes'], cfg['ev'])
        p = wide(spec, rng, es, pd, cfg['ev']) if regime == 'wide' else \
            spec.gen(rng, es, 'mod', pd, cfg['ev'])
        p = {k: ds.rnd(v, pd) for k, v in p.items()}
        rep = bool(rng.randint(2))
        how = sh.HOWS[rng.randint(4)]
        kw, ekw = {}, {}
        if spec.discrete:
            kw['dtype'] = tf.as_dtype(sd)
        if spec.reparam:
            kw['is_reparameterized'] = rep
        tf.reset_default_graph()
        fd = Feeder()
        if 'n_experiments' in spec.extra:
            n_exp = int(rng.choice([1, 4, 9]))
            ekw['n_experiments'] = n_exp
            kw['n_experiments'] = n_exp if rng.rand() < .7 else fd.tensor(n_exp, 'int32', 'unknown')
        if spec.name in ('Normal', 'FoldNormal') and rng.randint(2):
            p['logstd'] = ds.rnd(np.log(p.pop('std')), pd)
        pt = {k: fd.tensor(v, pd, how, rng) for k, v in p.items()}
        d = spec.ctor(zs.distributions, pt, **kw)
        B = int(np.prod(cfg['batch'])) if nform != 'none' else 1
        vs = int(np.prod(spec.value_shape(cfg['ev']))) if spec.vrank else 1
        nexp = ekw.get('n_experiments', 1)
        base = max(400, prm['size'] // max(1, B * max(1, vs // 2)))
        if nexp > 1:
            base = max(400, base // 2)
        nph = tf.placeholder(tf.int32, ())
        arg = {'none': None, 'int': base, 'tensor': nph}[nform]
        arg_big = {'none': None, 'int': 4 * base, 'tensor': nph}[nform]
        s1, s2 = d.sample(arg), d.sample(arg)
        b1, b2 = d.sample(arg_big), d.sample(arg_big)
        ctx = {'dist': name, 'dtypes': [pd, sd], 'regime': regime, 'n_samples': nform,
               'batch': list(cfg['batch'])[:3], 'reparameterized': rep, 'shape_info': how,
               'event': list(cfg['ev'])}
        ctx.update(ekw)

        def to_u(x):
            with np.errstate(all='ignore'):
                u = laws.pit(spec, p, x, rng, **ekw)
            if nform == 'none':
                return u.reshape((1, -1, u.shape[-1]))
            return u.reshape((u.shape[0], -1, u.shape[-1]))

        def bounds(x):
            """PIT bounds of scalar continuous samples: the exact sample is within
            8 units in the last place of the reported one"""
            if spec.discrete or spec.vrank:
                u = to_u(x)
                return u, u
            xd = x.astype(np.float64)
            e = 8 * np.spacing(np.abs(x)).astype(np.float64)
            if name == 'BinConcrete':
                xs = np.clip(xd - e, 0, 1), np.clip(xd + e, 0, 1)
            elif name in ('FoldNormal', 'Gamma', 'InverseGamma', 'Beta'):
                xs = np.maximum(xd - e, 1e-320), xd + e
            else:
                xs = xd - e, xd + e
            a, b = to_u(xs[0]), to_u(xs[1])
            return np.minimum(a, b), np.maximum(a, b)

        def draw(big):
            feed = dict(fd.feed)
            a, b = (b1, b2) if big else (s1, s2)
            if nform == 'tensor':
                feed[nph] = 4 * base if big else base
            x1, x2 = sess.run([a, b], feed)
            x3 = sess.run(a, feed)
            return x1, x2, x3

        with session(1, 1) as sess:
            x1, x2, x3 = draw(False)
            want = (() if nform == 'none' else (base,)) + tuple(cfg['batch']) + \
                tuple(spec.value_shape(cfg['ev']))
            if x1.shape != want:
                rec.violation('sample-shape', 'samples have shape %s, expected %s' % (x1.shape, want), **ctx)
                continue
            rec.check(laws.in_support(spec, p, x1, **ekw), 'support',
                      'sample outside the support', **ctx)
            seed2 = rng.randint(1 << 30)
            def pvals(xs):
                r2 = np.random.RandomState(seed2)
                u = {'main': to_u(xs[0]), 'second': to_u(xs[1]), 'rerun': to_u(xs[2]),
                     'bounds': bounds(xs[0]),
                     'tails': spec.discrete or spec.vrank == 0}
                return list(tests(u, slack, r2))
            first = pvals((x1, x2, x3))
            rec.event('samples judged', x1.size)
            sus = [i for i, (t, pv) in enumerate(first) if pv < P1]
            if sus:
                rec.event('suspicions re-examined', len(sus))
                second = pvals(draw(True))
                for i in sus:
                    if i < len(second) and second[i][1] < P2:
                        rec.violation('law: ' + first[i][0],
                                      'p = %.2g, then %.2g on a fresh sample' % (first[i][1], second[i][1]),
                                      params={k: v.ravel()[:6] for k, v in p.items()}, **ctx)
                        break
        dep = sum('dependence' in t for t, _ in first)
        rec.event('independence tests', dep)
        rec.event('law tests', len(first) - dep)
        if nform == 'none':
            rec.event('n_samples None')
        if nform == 'tensor':
            rec.event('n_samples tensor')
        for t, pv in first:
            rec.case((name, pd, sd, regime, nform, tuple(cfg['batch'])[:3] if nform != 'none' else len(cfg['batch']), rep, how, t),
                     sample=dict(ctx, test=t, p=pv))
