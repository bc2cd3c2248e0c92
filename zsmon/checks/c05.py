"""C05: gradient flow through samples and log densities."""
import numpy as np
import tensorflow as tf
from scipy import special as sp
from zsmon import dists as ds, shapes as sh, stats
from zsmon.core import subseed
from zsmon.tfu import session, Feeder

RULE = ('Each evaluation is one vector-Jacobian product taken from the real graph: (a) of a sample '
        'with respect to every parameter, judged against the pathwise derivative implied by the '
        'drawn value, or against "no gradient" when is_reparameterized is false; (b) of log_prob '
        'with respect to every parameter and the value, judged against directional differences of '
        'the float64 reference density, or against "no gradient to parameters" under '
        'use_path_derivative. Distinct: (distribution, parameterisation, dtype, shapes, flags, '
        'n_samples form, quantity).')
ASSUMPTIONS = ['gradients with respect to the strictly upper triangle of Cholesky factors and in '
               'directions leaving the simplex are not judged (they are not defined)',
               'pathwise derivatives are those of the location-scale, inverse-cdf and '
               'Gumbel-softmax constructions the library documents']
REQUIRED = {'pathwise': 200, 'blocked': 300, 'log_prob param gradient': 400,
            'log_prob value gradient': 200, 'path derivative blocked': 150,
            'path derivative total': 100, 'fold sign draws': 10000}


def items(tier, seed):
    reps, n = (3, 12) if tier == 'quick' else (16, 30)
    out = [(s.name, {'n': n, 'seed': subseed('c05', seed, s.name, r)})
           for r in range(reps) for s in ds.SPECS]
    out += [('fold-sign', {'seed': subseed('c05', seed, 'fold', r)})
            for r in range(2 if tier == 'quick' else 8)]
    return out


def to_logstd(rng, spec, p):
    if 'std' in p and rng.rand() < .5:
        p = dict(p)
        p['logstd'] = np.log(p.pop('std'))
    return p


def unbroadcast(g, shape):
    g = np.asarray(g)
    while g.ndim > len(shape):
        g = g.sum(0)
    for i, s in enumerate(shape):
        if s == 1 and g.shape[i] != 1:
            g = g.sum(i, keepdims=True)
    return g


def pathwise(name, p, x, w):
    """{param: (vjp, magnitude)} of sum(w * x) for the value x drawn."""
    out = {}
    if name in ('Normal', 'Laplace'):
        loc = p['mean'] if name == 'Normal' else p['loc']
        out['mean' if name == 'Normal' else 'loc'] = w + 0 * x
        z = x - loc
        if 'logstd' in p:
            out['logstd'] = w * z
        else:
            s = p['std'] if name == 'Normal' else p['scale']
            out['std' if name == 'Normal' else 'scale'] = w * z / s
    elif name == 'Uniform':
        a, b = p['minval'], p['maxval']
        out['minval'] = w * (b - x) / (b - a)
        out['maxval'] = w * (x - a) / (b - a)
    elif name == 'BinConcrete':
        t = p['temperature']
        xs = np.clip(x, 1e-300, 1 - 1e-16)
        d = x * (1 - x) / t
        out['logits'] = w * d
        out['temperature'] = -w * d * (np.log(xs) - np.log1p(-xs))
    elif name in ('ExpConcrete', 'Concrete'):
        t = p['temperature']
        lx = x if name == 'ExpConcrete' else np.log(np.maximum(x, 1e-300))
        pr = np.exp(lx)
        v = w if name == 'ExpConcrete' else w * x       # cotangent of log x
        sv = np.sum(v, -1, keepdims=True)
        out['logits'] = (v - pr * sv) / t
        c = lx - np.sum(pr * lx, -1, keepdims=True)
        out['temperature'] = -np.sum(v * c, -1) / t
    elif name == 'MultivariateNormalCholesky':
        z = np.linalg.solve(p['cov_tril'] + np.zeros(x.shape[:-1] + (1, 1)),
                            (x - p['mean'])[..., None])[..., 0]
        out['mean'] = w + 0 * x
        out['cov_tril'] = np.tril(w[..., :, None] * z[..., None, :])
    elif name == 'MatrixVariateNormalCholesky':
        U, V = p['u_tril'], p['v_tril']
        t = lambda a: np.swapaxes(a, -1, -2)
        z = np.linalg.inv(U) @ (x - p['mean']) @ t(np.linalg.inv(V))
        out['mean'] = w + 0 * x
        out['u_tril'] = np.tril(w @ t(z @ t(V)))
        out['v_tril'] = np.tril(t(w) @ U @ z)
    return out


def blocked(grads, sess=None):
    return all(g is None for g in grads)


TRIL = ('cov_tril', 'u_tril', 'v_tril')


def run(name, prm, rec):
    if name == 'fold-sign':
        return fold_sign(prm, rec)
    import zhusuan as zs
    spec = ds.BY_NAME[name]
    rng = np.random.RandomState(prm['seed'])
    for it in range(prm['n']):
        cfg = sh.config(rng, spec)
        pd = ('float64', 'float64', 'float32')[rng.randint(3)]
        p = ds.gen_params(spec, rng, cfg['shapes'], 'mod', pd, cfg['ev'])
        p = {k: ds.rnd(v, pd) for k, v in to_logstd(rng, spec, p).items()}
        kw = {}
        if spec.discrete:
            fl = [d for d in spec.sample_dtypes if d in ('float32', 'float64')]
            kw['dtype'] = tf.as_dtype(fl[rng.randint(len(fl))])
        re_flag = bool(rng.randint(2))
        path = bool(rng.randint(2))
        if spec.reparam:
            if not (re_flag and rng.rand() < .3):      # True is the default
                kw['is_reparameterized'] = re_flag
        if spec.path and path:
            kw['use_path_derivative'] = True
        if name == 'Multinomial' and rng.rand() < .3:
            kw['normalize_logits'] = True
        tf.reset_default_graph()
        fd = Feeder()
        how = {k: sh.HOWS[rng.randint(4)] for k in p}
        pt = {k: fd.tensor(v, pd, how[k], rng) for k, v in p.items()}
        g = int(rng.randint(0, len(cfg['batch']) + 1))
        d = spec.ctor(zs.distributions, pt, group_ndims=g, **kw)
        ctx = {'dist': name, 'params': sorted(p), 'dtype': pd, 'flags': sorted(
            '%s=%s' % kv for kv in kw.items()), 'param_shapes': {k: list(v.shape) for k, v in p.items()},
            'group_ndims': g}
        want_re = re_flag if spec.reparam else False
        rec.check(d.is_reparameterized == want_re, 'flag', 'is_reparameterized is %s' %
                  d.is_reparameterized, **ctx)
        names = sorted(pt)
        if spec.samples:
            sample_gradients(spec, d, pt, p, names, fd, pd, cfg, want_re, path and spec.path, rng, rec, ctx)
        logp_gradients(spec, d, pt, p, names, fd, pd, cfg, path and spec.path, kw, g, rng, rec, ctx)


def tolerance(pd):
    return 1e-9 if pd == 'float64' else 3e-4


def sample_gradients(spec, d, pt, p, names, fd, pd, cfg, want_re, path, rng, rec, ctx):
    nform = ('none', 'int', 'feed')[rng.randint(3)]
    ns = int(rng.randint(1, 4))
    nt = None if nform == 'none' else ns if nform == 'int' else fd.tensor(ns, 'int32')
    lead = () if nform == 'none' else (ns,)
    x = d.sample(nt)
    shape = lead + cfg['batch'] + tuple(spec.value_shape(cfg['ev']))
    w = rng.normal(0, 1, shape)
    wd = x.dtype.as_numpy_dtype
    grads = tf.gradients(x, [pt[k] for k in names], grad_ys=tf.constant(w.astype(wd)))
    ctx = dict(ctx, n_samples=nform)
    rec.case((spec.name, ctx['params'], pd, ctx['param_shapes'], ctx['flags'], nform, 'sample'),
             sample=ctx)
    if not want_re:
        with session() as sess:
            vals = sess.run([gg for gg in grads if gg is not None] or [x], fd.feed)
        leak = any(gg is not None for gg in grads) and any(np.any(v != 0) for v in vals)
        rec.check(not leak, 'sample-leak', 'gradient reaches a parameter through a sample that is '
                  'not reparameterised', **ctx)
        rec.event('blocked')
        return
    if not rec.check(all(gg is not None for gg in grads), 'sample-blocked',
                     'no gradient to %s through a reparameterised sample' %
                     [k for k, gg in zip(names, grads) if gg is None], **ctx):
        return
    fetch = {'x': x, 'g': grads}
    if spec.path:
        lp = d.log_prob(x)
        v = rng.normal(0, 1, np.shape(np.zeros(lead + cfg['batch'][:len(cfg['batch']) - ctx['group_ndims']])))
        gl = tf.gradients(lp, x, grad_ys=tf.constant(v.astype(pd)))[0]
        total = tf.gradients(lp, [pt[k] for k in names], grad_ys=tf.constant(v.astype(pd)))
        if path:
            via = tf.gradients(x, [pt[k] for k in names], grad_ys=tf.stop_gradient(gl))
            ok = all((a is None) == (b is None) for a, b in zip(total, via))
            if rec.check(ok, 'path-total', 'path derivative: gradient missing', **ctx):
                fetch['total'] = [t for t in total if t is not None]
                fetch['via'] = [t for t in via if t is not None]
    with session() as sess:
        out = sess.run(fetch, fd.feed)
    xv = out['x'].astype(np.float64)
    if spec.name == 'FoldNormal':
        # sign of the unfolded draw is not observable: judged in fold-sign
        rec.event('pathwise')
        fold_vjp(p, xv, w, {k: v for k, v in zip(names, out['g'])}, pd, rec, ctx)
    else:
        ref = pathwise(spec.name, p, xv, w)
        for k, gv in zip(names, out['g']):
            r = unbroadcast(ref[k], p[k].shape)
            m = unbroadcast(np.abs(ref[k]), p[k].shape)
            gv = np.tril(gv) if k in TRIL else gv
            scale = m + np.sum(np.abs(w)) * (1 if spec.name != 'Uniform' else 2)
            rec.check(np.shape(gv) == p[k].shape and
                      np.all(np.abs(gv - r) <= tolerance(pd) * scale), 'pathwise-' + k,
                      'd sample/d %s is not the pathwise derivative' % k,
                      got=gv, want=r, x=xv, **ctx)
            rec.event('pathwise')
    if 'total' in out:
        for a, b in zip(out['total'], out['via']):
            s = np.abs(a) + np.abs(b) + 1e-3
            rec.check(np.all(np.abs(a - b) <= 1e3 * tolerance(pd) * s.max()), 'path-total',
                      'log_prob of an own sample under use_path_derivative is not differentiated '
                      'through the sample only', got=a, want=b, **ctx)
            rec.event('path derivative total')


def fold_vjp(p, x, w, got, pd, rec, ctx):
    """With an unbroadcast batch of at most 2**12 sign patterns the gradient of
    every single element identifies its sign; here only the range is checked."""
    m = unbroadcast(np.abs(w) + 0 * x, p['mean'].shape)
    rec.check(np.all(np.abs(got['mean']) <= m * (1 + 1e-4) + 1e-6), 'pathwise-mean',
              'd sample/d mean of FoldNormal exceeds 1 in magnitude', **ctx)


def fold_sign(prm, rec):
    """dx/dmean = s and dx/dstd = (x - s mean)/std with s = +-1 and
    P(s = 1 | x) the posterior probability that the folded draw was x."""
    import zhusuan as zs
    rng = np.random.RandomState(prm['seed'])
    n = 20000
    tf.reset_default_graph()
    mean = tf.placeholder(tf.float64, [None])
    std = tf.placeholder(tf.float64, [None])
    ls = tf.placeholder(tf.float64, [None])
    x1 = zs.distributions.FoldNormal(mean, std=std).sample()
    x2 = zs.distributions.FoldNormal(mean, logstd=ls).sample()
    g1 = tf.gradients(x1, [mean, std])
    g2 = tf.gradients(x2, [mean, ls])
    with session() as sess:
        for rep in range(2):
            m = rng.normal(0, 1.2, n)
            s = np.exp(rng.uniform(-1, 1, n))
            for x, g, kind in ((x1, g1, 'std'), (x2, g2, 'logstd')):
                def draw(k):
                    xs, gm, gs, mm, ss = [], [], [], [], []
                    for _ in range(k):
                        a, (b, c) = sess.run([x, g], {mean: m, std: s, ls: np.log(s)})
                        xs.append(a), gm.append(b), gs.append(c), mm.append(m), ss.append(s)
                    return [np.concatenate(v) for v in (xs, gm, gs, mm, ss)]

                a, b, c, mm, ss = first = draw(1)
                rec.check(np.all(np.abs(np.abs(b) - 1) < 1e-9), 'fold-sign',
                          'd sample/d mean is not +-1', values=b[:10])
                want = (a - b * mm) / ss * (ss if kind == 'logstd' else 1.)
                rec.check(np.allclose(c, want, rtol=1e-7, atol=1e-7), 'fold-std',
                          'd sample/d %s wrong' % kind, got=c[:5], want=want[:5])
                state = [first]

                def pv(v):
                    a, b, c, mm, ss = v
                    q = sp.expit(2 * mm * a / ss ** 2)     # P(s=+1 | x)
                    ps = []
                    for lo, hi in ((0, .1), (.1, .35), (.35, .65), (.65, .9), (.9, 1)):
                        sel = (q >= lo) & (q <= hi)
                        if sel.sum() > 200:
                            k, mu, var = (b[sel] > 0).sum(), q[sel].sum(), (q * (1 - q))[sel].sum()
                            z = (k - mu) / np.sqrt(max(var, 1e-9))
                            if var > 20:
                                ps.append(float(2 * sp.ndtr(-abs(z))))
                    return min(ps) if ps else 1.

                bad, p1, p2 = stats.two_stage(lambda k: state.pop() if state else draw(k), pv, 1, 5)
                rec.check(not bad, 'fold-sign-law', 'sign of d sample/d mean does not follow its '
                          'conditional law given the sample (p=%s, %s)' % (p1, p2), kind=kind)
                rec.event('fold sign draws', n)
                rec.case(('fold', prm['seed'], rep, kind))


def tangent(spec, x, rng):
    d = rng.normal(0, 1, x.shape)
    if spec.name in ('Dirichlet', 'Concrete'):
        d = d * x
        d -= x * np.sum(d, -1, keepdims=True)
        return d
    if spec.name == 'ExpConcrete':
        e = np.exp(x)
        return d - np.sum(e * d, -1, keepdims=True) / np.sum(e, -1, keepdims=True)
    if spec.name in ('BinConcrete', 'Beta'):
        return d * x * (1 - x)
    if spec.name in ('Gamma', 'InverseGamma', 'FoldNormal'):
        return d * x * .3
    return d


def fd_dir(f, z0, dz, h):
    """Richardson-extrapolated central difference of f along dz and its
    magnitude scale."""
    e = lambda hh: (f(z0 + hh * dz) - f(z0 - hh * dz)) / (2 * hh)
    a, b, c = e(h), e(h / 2), e(h / 4)
    r1, r2 = (4 * b - a) / 3, (4 * c - b) / 3
    return (16 * r2 - r1) / 15


def logp_gradients(spec, d, pt, p, names, fd, pd, cfg, path, kw, g, rng, rec, ctx):
    x = sh.grid_values(spec, rng, p if 'logstd' not in p else p, cfg, 'mod')
    xd = kw['dtype'].as_numpy_dtype if spec.discrete else pd
    x = ds.rnd(x, xd)
    if spec.name == 'Laplace':
        # keep away from the kink
        lo = p['loc']
        gap = np.abs(x - lo)
        if np.min(gap) < .05:
            x = x + .11
            if np.min(np.abs(x - lo)) < .02:
                return
            x = ds.rnd(x, xd)
    if spec.name == 'FoldNormal':
        x = ds.rnd(x + .05, xd)
    if spec.name == 'Uniform' and np.any((x - np.max(p['minval']) < .02) | (np.min(p['maxval']) - x < .02)):
        return
    how = sh.HOWS[rng.randint(4)]
    xt = fd.tensor(x, xd, how, rng)
    lp = d.log_prob(xt)
    full = np.broadcast_shapes(cfg['batch'], cfg['given'])
    w = rng.normal(0, 1, full[:len(full) - g])
    wt = tf.constant(w.astype(pd))
    keys = names + ([] if spec.discrete else ['x'])
    # weight through tf.stop so unknown shapes work
    grads = tf.gradients(lp * wt, [pt[k] if k != 'x' else xt for k in keys])
    fetch = {k: gg for k, gg in zip(keys, grads) if gg is not None}
    ctx = dict(ctx, given_shape=list(x.shape), path=path)
    rec.case((spec.name, ctx['params'], pd, ctx['param_shapes'], ctx['flags'], list(x.shape), 'logp'))
    rec.evaluations += len(keys) - 1
    wfull = np.broadcast_to(w.reshape(w.shape + (1,) * g), full)

    def total(q, xx):
        with np.errstate(all='ignore'):
            v, sc = spec.logp(q, xx)
        return np.sum(wfull * v)

    with np.errstate(all='ignore'):
        _, sc = spec.logp(p, x)
    with session() as sess:
        out = sess.run([fetch, lp], fd.feed)[0]
    for k in keys:
        if path and k != 'x':
            rec.check(k not in out or not np.any(out[k] != 0), 'path-leak',
                      'use_path_derivative: gradient of log_prob reaches %s' % k, **ctx)
            rec.event('path derivative blocked')
            continue
        z0 = x if k == 'x' else p[k]
        gv = out.get(k)
        if spec.name == 'Uniform' and k == 'x':
            rec.check(gv is None or not np.any(gv != 0), 'logp-grad-x', 'Uniform density not flat', **ctx)
            rec.event('log_prob value gradient')
            continue
        if not rec.check(gv is not None and np.shape(gv) == z0.shape, 'logp-grad-missing',
                         'log_prob has no gradient with respect to %s' % k, **ctx):
            continue
        for r in range(2):
            dz = tangent(spec, x, rng) if k == 'x' else rng.normal(0, 1, z0.shape)
            if k in ('std', 'scale', 'alpha', 'beta', 'rate', 'temperature'):
                dz = dz * z0 * .3
            if k in TRIL:
                dz = np.tril(dz) * .3
            f = (lambda z: total(p, z)) if k == 'x' else \
                (lambda z, k=k: total(dict(p, **{k: z}), x))
            want = fd_dir(f, z0, dz, 2e-2 if spec.name != 'Uniform' else 1e-3)
            want2 = fd_dir(f, z0, dz, 5e-3 if spec.name != 'Uniform' else 5e-4)
            got = float(np.sum(np.asarray(gv, np.float64) * dz))
            mag = np.sum(np.abs(np.asarray(gv, np.float64) * dz)) + \
                np.sum(np.abs(wfull) * np.broadcast_to(sc, full)) * (1e-2 if pd == 'float64' else .3) + 1e-2
            err = 20 * abs(want - want2) + (1e-6 if pd == 'float64' else 2e-4) * mag
            rec.check(abs(got - want2) <= err, 'logp-grad-' + ('value' if k == 'x' else k),
                      'directional derivative of log_prob wrt %s is %.9g, true %.9g' % (k, got, want2),
                      x=x, **{kk: vv for kk, vv in ctx.items()})
        rec.event('log_prob value gradient' if k == 'x' else 'log_prob param gradient')
