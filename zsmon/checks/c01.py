"""C01: log_prob/prob against an independent float64 reference."""
import numpy as np
import tensorflow as tf
from zsmon import dists as ds
from zsmon.core import subseed
from zsmon.tfu import session, Feeder

RULE = ('Each evaluation is one (distribution, parameters, value) point fed to the real log_prob '
        'and prob and compared with a float64 reference of the documented density, tolerance '
        'proportional to dtype epsilon times the magnitude of the terms. Non-trivial: the case '
        'builds a new (distribution, dtypes, parameterisation, regime, static-shape knowledge, '
        'event size) combination; trivial repetitions of points inside one combination are '
        'counted as evaluations only.')
ASSUMPTIONS = [
    'TensorFlow kernels (log, exp, lgamma, triangular solve) are accurate to a few ulp',
    'parameters are kept in the range where intermediate quantities such as the precision are representable in the dtype',
    'values exactly on the boundary of Gamma/Beta/Dirichlet/Concrete supports are not judged']
REQUIRED = {'log_prob points': 20000, 'prob points': 20000, 'outside support points': 500,
            'wide event points': 1000}


def variants(spec):
    """Constructor variants: list of (tag, param renames, ctor kwargs, ref kwargs)."""
    out = [('default', {}, {}, {})]
    if spec.name in ('Normal', 'FoldNormal'):
        out.append(('logstd', {'std': 'logstd'}, {}, {}))
    if spec.name == 'Binomial':
        out = [('n=%d' % n, {}, {'n_experiments': n}, {'n_experiments': n}) for n in (1, 7, 40)]
    if spec.name == 'Multinomial':
        out = [('n=%s,norm=%s' % (n, nl), {}, {'n_experiments': n, 'normalize_logits': nl},
                {'n_experiments': n, 'normalize_logits': nl})
               for n, nl in ((1, True), (6, False), (25, True), (None, True), (None, False))]
    if spec.name == 'UnnormalizedMultinomial':
        out = [('norm=%s' % nl, {}, {'normalize_logits': nl}, {'normalize_logits': nl})
               for nl in (True, False)]
    if spec.check_numerics:
        t, r, k, e = out[-1]
        out.append((t + ',check', r, dict(k, check_numerics=True), e))
    if spec.path:
        t, r, k, e = out[0]
        out.append((t + ',path', r, dict(k, use_path_derivative=True), e))
    return out


def items(tier, seed):
    reps = 4 if tier == 'quick' else 24
    n = 150 if tier == 'quick' else 600
    return [(s.name, {'rep': r, 'n': n, 'seed': subseed('c01', seed, s.name, r)})
            for s in ds.SPECS for r in range(reps)]


def judge(rec, got, ref, scale, dtype, mech, ctx, prob=False):
    """Compare one array of log densities (or densities) with the reference."""
    got = np.asarray(got, np.float64)
    if got.shape != ref.shape:
        rec.violation(mech + '-shape', 'shape %s instead of %s' % (got.shape, ref.shape), **ctx)
        return
    t = ds.tol(dtype, scale)
    fi = np.finfo(dtype)
    judged = scale < fi.max / 1e3
    if prob:
        with np.errstate(over='ignore'):
            want = np.exp(ref)
            err = want * np.expm1(np.minimum(t, 50.)) + 8 * fi.tiny
        judged &= ref + t < np.log(fi.max)
        # subnormal results may be flushed to zero
        bad = ~(np.abs(got - want) <= err)
    else:
        fin = np.isfinite(ref)
        bad = np.where(fin, ~(np.abs(got - np.where(fin, ref, 0)) <= t), got != ref)
    bad &= judged
    rec.event(('prob' if prob else 'log_prob') + ' points', int(judged.sum()))
    if bad.any():
        i = tuple(int(v) for v in np.argwhere(bad)[0])
        rec.violation(mech, 'got %r, reference %r (tolerance %.3g) at %s' % (
            float(got[i]), float(np.exp(ref[i]) if prob else ref[i]), float(t[i]), i),
            n_bad=int(bad.sum()), of=int(judged.sum()), **ctx)


def outside(spec, rng, p, x, kw):
    """Values outside the support, where the density must be zero."""
    if spec.name == 'FoldNormal':
        return -np.abs(x) - 1e-3 * (1 + np.abs(x))
    if spec.name == 'Uniform':
        a, b = p['minval'], p['maxval']
        w = b - a
        ch = rng.randint(0, 3, x.shape)
        return np.where(ch == 0, a - .3 * w, np.where(ch == 1, b + .2 * w, b))
    if spec.name == 'Poisson':
        return -1. - rng.randint(0, 4, x.shape)
    if spec.name == 'Binomial':
        n = kw['n_experiments']
        return np.where(rng.randint(2, size=x.shape), -1. - rng.randint(0, 3, x.shape),
                        n + 1. + rng.randint(0, 3, x.shape))


def run(name, prm, rec):
    import zhusuan as zs
    D = zs.distributions
    spec = ds.BY_NAME[name]
    rng = np.random.RandomState(prm['seed'])
    for pd in spec.param_dtypes:
        sds = spec.sample_dtypes if spec.discrete else (pd,)
        vs = variants(spec)
        for regime in ('mod', 'ext', 'wide'):
            if regime == 'wide' and (pd == 'float16' or ds.wide_ev(spec, rng) is None):
                continue
            N = prm['n'] if regime != 'wide' else prm['n'] // 5
            for vi, (tag, ren, kw, ekw) in enumerate(vs):
                sd = sds[rng.randint(len(sds))]
                ev = spec.ev(rng) if regime != 'wide' else ds.wide_ev(spec, rng)
                gr = 'ext' if regime == 'wide' else regime
                if regime == 'wide' and sd == 'float16':
                    sd = 'float32'
                how = ('static', 'unknown', 'rank', 'partial')[rng.randint(4)]
                tf.reset_default_graph()
                p = ds.gen_params(spec, rng, (N,), gr, pd, ev)
                for a, b in ren.items():
                    p[b] = ds.rnd(np.log(p.pop(a)), pd)
                vkw = {k: v for k, v in ekw.items() if k == 'n_experiments'}
                shape = (N,) + tuple(spec.value_shape(ev))
                x = spec.values(rng, p, shape, gr, ev, **vkw)
                x = ds.rnd(x, sd)
                if spec.name in ('Beta', 'BinConcrete'):
                    x = np.clip(x, ds.EPS[pd], 1 - ds.EPS[pd])
                if spec.name == 'FoldNormal':
                    x = np.abs(x)
                if spec.name == 'Uniform':
                    x = ds.rnd(np.where((x >= p['minval']) & (x < p['maxval']), x, p['minval']), sd)
                fd = Feeder()
                pt = {k: fd.tensor(v, pd, how if k not in spec.scalar_params else 'static', rng)
                      for k, v in p.items()}
                xt = fd.tensor(x, sd, how, rng)
                ckw = dict(kw)
                if spec.discrete:
                    ckw['dtype'] = tf.as_dtype(sd)
                d = spec.ctor(D, pt, **ckw)
                fetch = [d.log_prob(xt), d.prob(xt)]
                xo = None
                if spec.support_edge and 'check' not in tag:
                    xo = outside(spec, rng, p, x, ekw)
                    if sd == 'float16' and spec.name == 'Uniform':
                        xo = None
                if xo is not None:
                    xo = ds.rnd(xo, sd)
                    fetch += [d.log_prob(fd.tensor(xo, sd, how, rng)),
                              d.prob(fd.tensor(xo, sd, how, rng))]
                with session() as sess:
                    out = sess.run(fetch, fd.feed)
                with np.errstate(all='ignore'):
                    ref, sc = spec.logp(p, x, **ekw)
                ref, sc = np.broadcast_arrays(ref, sc)
                ctx = {'dist': name, 'variant': tag, 'param_dtype': pd, 'sample_dtype': sd,
                       'regime': regime, 'shape_info': how, 'event': list(ev)}
                ok = np.isfinite(np.asarray(ref)) & np.all(
                    np.isfinite(np.asarray(x).reshape(N, -1)), -1)
                # points whose rounded value left the support are not judged
                sc = np.where(ok, sc, np.inf)
                n0 = len(rec.violations)
                if regime == 'wide':
                    rec.event('wide event points', N)
                judge(rec, out[0], ref, sc, pd, 'log_prob', ctx)
                judge(rec, out[1], ref, sc, pd, 'prob', ctx, prob=True)
                if xo is not None:
                    with np.errstate(all='ignore'):
                        ro, _ = spec.logp(p, xo, **ekw)
                    sel = np.isneginf(np.broadcast_to(ro, out[2].shape))
                    rec.event('outside support points', int(sel.sum()))
                    rec.check(np.all(np.isneginf(out[2][sel])) and np.all(out[3][sel] == 0),
                              'outside-support', 'density is not 0 outside the support', **ctx)
                if len(rec.violations) > n0:
                    w = rec.violations[-1]['witness']
                    w['params_head'] = {k: v.ravel()[:3].tolist() for k, v in p.items()}
                rec.case((name, tag, pd, sd, regime, how, tuple(ev)),
                         sample=dict(ctx, log_prob=out[0].ravel()[:3], reference=ref.ravel()[:3]))
                rec.evaluations += 2 * N - 1
