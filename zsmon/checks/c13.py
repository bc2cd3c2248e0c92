"""C13: REINFORCE is an unbiased score function estimator with any baseline."""
import numpy as np
import tensorflow as tf
from zsmon.core import subseed
from zsmon.tfu import session
from zsmon.vmodels import VModel, mean, axes, fd_grads, grad_close, configs

RULE = ('Each evaluation is (a) one run of a reinforce() surrogate in a multi-run history: cost, baseline cost and '
        'all gradients compared with the float64 shadow at the fetched samples, with the moving mean the shadow '
        'tracked over the earlier runs; schedules with 1-8 inter-op threads, slow (delay-injected) log joints and '
        'different fetch sets; or (b) one exact expectation over all configurations of Bernoulli latents (samples '
        'fed, estimator state restored before every configuration) compared with the gradient of the exact ELBO; '
        'or (c) the same history with all log densities fed directly (any shape, dtype and magnitude). Distinct: '
        '(kind of item, variance reduction, baseline form, axis, decay, threads, K, group, latent kinds, run).')
ASSUMPTIONS = ['interleavings of the runtime are sampled (thread counts, delays), not enumerated',
               'the moving mean is the zero-debiased exponential average of TensorFlow (which rounds the decay to float32)']
REQUIRED = {'shapes unknown': 12, 'run': 150, 'gradient': 1000, 'moving mean subtracted': 150, 'baseline cost': 60, 'exact expectation': 60,
            'direct run': 300, 'direct run after 50 earlier runs': 200, 'delayed': 30, 'score gradient not zero': 200}


def items(tier, seed):
    n, reps = (3, 16) if tier == 'quick' else (12, 48)
    return [('history', {'n': n, 'seed': subseed('c13', seed, r)}) for r in range(reps)] + \
        [('exact', {'n': 2 * n, 'seed': subseed('c13e', seed, r)}) for r in range(reps)] + \
        [('direct', {'n': 3 * n, 'seed': subseed('c13d', seed, r)}) for r in range(reps)]


def run(name, prm, rec):
    import zhusuan as zs
    rng = np.random.RandomState(prm['seed'])
    for it in range(prm['n']):
        tf.reset_default_graph()
        globals()['do_' + name](zs, rng, rec)


class MovingMean(object):
    """m before the t-th run = decayed mean of the signals of runs < t"""

    def __init__(self, decay):
        self.d, self.b, self.t = decay, 0., 0

    @property
    def value(self):
        return self.b / (1 - self.d ** self.t) if self.t else 0.

    def update(self, x):
        self.b = self.d * self.b + (1 - self.d) * x
        self.t += 1


def slow(x, rng):
    """identity with an injected delay"""
    import time
    d = float(rng.choice([0., .002, .01]))

    def f(v):
        time.sleep(d)
        return v
    y = tf.py_func(f, [x], x.dtype, stateful=True)
    y.set_shape(x.shape)
    return x + tf.stop_gradient(y - x)


def make_baseline(rng, shape_full, batch, dtype=tf.float64):
    """(kind, tensor, variable, function of the variable)"""
    k = rng.randint(4)
    if k == 0:
        return 'none', None, None, None
    if k == 1:
        v = tf.Variable(rng.normal(0, 1), dtype=dtype, name='bl')
        return 'scalar', v * 2., v, lambda b: b * 2.
    if k == 2:
        x = rng.normal(0, 1, batch)
        v = tf.Variable(rng.normal(0, 1), dtype=dtype, name='bl')
        return 'function', v * tf.constant(x, dtype), v, lambda b: b * x
    v = tf.Variable(rng.normal(0, 1, shape_full), dtype=dtype, name='bl')
    return 'full', tf.identity(v), v, lambda b: b


def do_history(zs, rng, rec):
    K = [1, 2, 4][rng.randint(3)]
    group = int(rng.randint(2))
    m = VModel(rng, int(rng.randint(1, 4)), int(rng.randint(1, 3)), group, K, aux=bool(rng.randint(2)),
               reparam=False)
    opts = [0, 0, None, [0]]
    axis = opts[rng.randint(len(opts))]
    ax = axes(axis)
    shapes = m.unknown(rng)
    if shapes != 'static':
        rec.event('shapes unknown')
    tv = m.variables()
    q = m.variational(zs, tv)
    form = ('meta', 'function')[rng.randint(2)]
    delayed = False
    if form == 'meta':
        model = m.meta(zs, tv, rng=rng)
        if rng.rand() < .4:
            delayed = True
            model.log_joint = lambda bn: slow(sum(bn.cond_log_prob([n.name for n in m.p])), rng)
    else:
        lj0 = m.tf_log_joint(zs, tv)
        model = lj0
        if rng.rand() < .4:
            delayed = True
            model = lambda o: slow(lj0(o), rng)
    vr = rng.rand() < .8
    decay = float(rng.choice([.8, .5, .9, .99]))
    full = (K,) if group else (K, m.batch)
    bk, bt, bv, bf = make_baseline(rng, full, full[1:])
    if not vr and bk != 'none':
        bk, bt, bv, bf = 'none', None, None, None
    obj = zs.variational.elbo(model, m.observed(), axis=axis, variational=q)
    kw = {}
    if not vr:
        kw['variance_reduction'] = False
    if bt is not None:
        kw['baseline'] = bt
    if decay != .8:
        kw['decay'] = decay
    res = obj.reinforce(**kw)
    cost, bcost = res if bt is not None else (res, None)
    names = sorted(tv)
    vs = [tv[n] for n in names] + ([bv] if bv is not None else [])
    zero = lambda g, v: tf.zeros_like(v) if g is None else g
    fetch = {'z': {n: q[n] for n in m.latent}, 'cost': cost,
             'g': [zero(g, v) for g, v in zip(tf.gradients(cost, vs), vs)]}
    if bcost is not None:
        fetch['bcost'] = bcost
        fetch['bg'] = [zero(g, v) for g, v in zip(tf.gradients(bcost, vs), vs)]
    inter = int(rng.choice([1, 2, 4, 8]))
    mm = MovingMean(decay)
    ctx = {'shapes': shapes, 'form': form, 'axis': axis, 'K': K, 'group': group, 'baseline': bk, 'variance_reduction': vr,
           'decay': decay, 'threads': inter, 'delayed': delayed,
           'q': [(n.name, n.kind, n.parents) for n in m.q]}
    with session(inter, 1) as sess:
        sess.run(tf.global_variables_initializer())
        bval = sess.run(bv) if bv is not None else None
        for t in range(4):
            f = fetch
            if t == 2:        # gradients only
                f = {k: v for k, v in fetch.items() if k in ('z', 'g')}
            out = sess.run(f)
            z = out['z']
            lj, lq = m.log_joint(z), m.log_q(z)
            lw = lj - lq
            base = 0. if bf is None else bf(bval)
            sig = lw - base if vr else lw
            raw = np.mean(sig)
            if vr:
                sig = sig - mm.value
                if t:
                    rec.event('moving mean subtracted')
                mm.update(raw)
            c = dict(ctx, run=t, moving_mean=mm.value)
            if 'cost' in out:
                want = mean(-lj - sig * lq, ax)
                rec.check(np.shape(out['cost']) == np.shape(want) and
                          np.allclose(out['cost'], want, rtol=1e-6, atol=1e-6), 'cost',
                          'surrogate value is not that of the score function estimator', got=out['cost'],
                          want=want, **c)
            F = lambda th: mean(-m.log_joint(z, th) - sig * m.log_q(z, th), ax)
            wg = fd_grads(F, m.theta, names)
            for n, g in zip(names, out['g']):
                ok = grad_close(g, wg[n], np.abs(wg[n]).max())
                if not ok:
                    wg[n] = fd_grads(F, m.theta, [n], h=1e-7)[n]
                    ok = grad_close(g, wg[n], np.abs(wg[n]).max(), 1e-3)
                rec.check(ok, 'gradient', 'gradient is not minus model gradient minus signal times score',
                          parameter=n, got=g, want=wg[n], **c)
                rec.event('gradient')
                if n.startswith('q:') and np.abs(wg[n]).max() > 1e-3:
                    rec.event('score gradient not zero')
            if bv is not None:
                rec.check(not np.any(out['g'][-1]), 'baseline-trained-by-cost',
                          'the main cost trains the baseline', got=out['g'][-1], **c)
            if 'bcost' in out:
                wb = mean(.5 * (lw - base) ** 2, ax)
                rec.check(np.shape(out['bcost']) == np.shape(wb) and np.allclose(out['bcost'], wb, rtol=1e-8),
                          'baseline-cost', 'baseline cost is not half the squared error', got=out['bcost'], want=wb,
                          **c)
                rec.check(all(not np.any(g) for g in out['bg'][:-1]), 'baseline-cost-gradient',
                          'the baseline cost trains model or variational parameters', **c)
                w2 = fd_grads(lambda th: mean(.5 * (lw - bf(th['b'])) ** 2, ax), {'b': np.asarray(bval)}, ['b'])
                rec.check(grad_close(out['bg'][-1], w2['b'], np.abs(w2['b']).max(), 1e-5), 'baseline-gradient',
                          'gradient of the baseline cost is wrong', got=out['bg'][-1], want=w2['b'], **c)
                rec.event('baseline cost')
            rec.event('run')
            if delayed:
                rec.event('delayed')
            rec.case(('history', form, axis, K, group, bk, vr, decay, inter, delayed, t,
                      [x.kind for x in m.q]), sample=c)


def do_exact(zs, rng, rec):
    n = int(rng.randint(1, 4))
    m = VModel(rng, n, int(rng.randint(1, 3)), 0, None, pkinds=('bernoulli',))
    for x in m.q:
        x.n_samples = None
    tv = m.variables()
    q = m.variational(zs, tv)
    before = set(tf.global_variables())
    vr = bool(rng.rand() < .7)
    bk, bt, bv, bf = make_baseline(rng, (m.batch,), (m.batch,)) if vr else ('none', None, None, None)
    model = m.meta(zs, tv) if rng.randint(2) else m.tf_log_joint(zs, tv)
    obj = zs.variational.elbo(model, m.observed(), variational=q)
    kw = {'baseline': bt} if bt is not None else {}
    res = obj.reinforce(variance_reduction=vr, **kw)
    cost = res[0] if bt is not None else res
    state = [v for v in tf.global_variables() if v not in before and v is not bv]
    names = sorted(tv)
    g = [tf.zeros_like(v) if gi is None else gi for gi, v in
         zip(tf.gradients(cost, [tv[k] for k in names]), [tv[k] for k in names])]
    tot = {k: 0. for k in names}
    inter = int(rng.choice([1, 4]))
    with session(inter, 1) as sess:
        sess.run(tf.global_variables_initializer())
        for _ in range(int(rng.randint(0, 4))):     # a history that moved the mean
            sess.run(cost)
        keep = sess.run(state)
        for cf in configs((0., 1.), n):
            z = {k: np.full((m.batch,), v) for k, v in zip(m.latent, cf)}
            for v, val in zip(state, keep):
                v.load(val, sess)
            gv = sess.run(g, {q[k].tensor: z[k] for k in z})
            w = np.exp(m.log_q(z))
            for k, a in zip(names, gv):
                # per-element parameters: gradient of element b comes from element b only,
                # scalars sum over elements, so weight configurations per element
                tot[k] = tot[k] + (a * w if np.shape(a) == w.shape else np.nan)

    def elbo(th):
        r = 0.
        for cf in configs((0., 1.), n):
            z = {k: np.full((m.batch,), v) for k, v in zip(m.latent, cf)}
            lq = m.log_q(z, th)
            r = r + np.exp(lq) * (m.log_joint(z, th) - lq)
        return -r
    vec = [k for k in names if np.shape(m.theta[k]) == (m.batch,)]
    want = fd_grads(elbo, m.theta, vec)
    ctx = {'n_latent': n, 'variance_reduction': vr, 'baseline': bk, 'state': len(state)}
    for k in vec:
        rec.check(grad_close(tot[k], want[k], np.abs(want[k]).max(), 1e-5), 'biased',
                  'expected surrogate gradient is not minus the gradient of the expected ELBO', parameter=k,
                  got=tot[k], want=want[k], **ctx)
    rec.event('exact expectation')
    rec.case(('exact', n, vr, bk, inter, [x.parents for x in m.q]), sample=ctx)


def do_direct(zs, rng, rec):
    """Signals of any shape, dtype and magnitude; fed anew in every run."""
    rank = int(rng.randint(0, 4))
    shape = tuple(int(v) for v in rng.randint(1, 5, rank))
    dt = ('float64', 'float32')[rng.randint(2)]
    n = int(rng.randint(1, 3))
    mag = float(rng.choice([1., 10., 1e3]))
    ax = [None] + list(range(-rank, rank))
    axis = ax[rng.randint(len(ax))]
    lj_p = tf.placeholder(dt, shape if rng.randint(2) else None)
    lq_p = [tf.placeholder(dt, shape) for _ in range(n)]
    obj = zs.variational.elbo(lambda o: tf.identity(lj_p), {}, latent={
        'v%d' % i: (tf.zeros(shape, dt), lq_p[i]) for i in range(n)}, axis=axis)
    vr = bool(rng.rand() < .8)
    decay = float(rng.choice([.8, .3, .95]))
    bt, base = None, 0.
    if vr and rng.rand() < .5:
        base = rng.normal(0, mag, shape if rng.randint(2) else ()).astype(dt)
        bt = tf.constant(base)
    with tf.variable_scope('r%d' % rng.randint(100)):
        res = obj.reinforce(variance_reduction=vr, decay=decay, **({'baseline': bt} if bt is not None else {}))
    cost = res[0] if bt is not None else res
    gq = tf.gradients(cost, lq_p)
    gj = tf.gradients(cost, lj_p)[0]
    inter = int(rng.choice([1, 2, 8]))
    mm = MovingMean(decay)
    tol = (1e-7 if dt == 'float64' else 3e-5) * (1 + mag) * 10
    count = np.prod([shape[a] for a in ([axis] if axis is not None else [])]) if axis is not None else 1.
    ctx = {'shape': shape, 'dtype': dt, 'axis': axis, 'variance_reduction': vr, 'decay': decay, 'threads': inter,
           'magnitude': mag, 'baseline': bt is not None}
    # a moving mean is a history: some items run long enough for its debiasing to saturate
    runs = 80 if rng.rand() < .34 else 6
    with session(inter, 1) as sess:
        sess.run(tf.global_variables_initializer())
        for t in range(runs):
            lj = rng.normal(mag * rng.normal(), mag, shape).astype(dt)
            lq = [rng.normal(0, mag, shape).astype(dt) for _ in range(n)]
            fd = dict(zip(lq_p, lq))
            fd[lj_p] = lj
            which = int(rng.randint(3))
            gv, gjv, cv = None, None, None
            if which == 0:
                gv, gjv, cv = sess.run([gq, gj, cost], fd)
            elif which == 1:
                gv = sess.run(gq, fd)
            else:
                cv, gv = sess.run([cost, gq], fd)
            f = np.float64
            lqs = sum(f(v) for v in lq)
            sig = f(lj) - lqs
            if vr:
                sig = sig - f(base)
                raw = sig.mean()
                sig = sig - mm.value
                mm.update(raw)
                if t:
                    rec.event('moving mean subtracted')
            c = dict(ctx, run=t, which=which)
            for g in gv:
                rec.check(np.all(np.abs(g + sig / count) <= tol), 'signal',
                          'score weight is not the learning signal minus baseline and earlier mean', got=g,
                          want=-sig / count, **c)
            if gjv is not None:
                rec.check(np.allclose(gjv, -np.ones(shape) / count, rtol=1e-5), 'model-gradient',
                          'model gradient is not that of the log joint', got=gjv, **c)
            rec.event('direct run')
            if t >= 50:
                rec.event('direct run after 50 earlier runs')
            rec.case(('direct', shape, dt, axis, vr, decay, inter, t, which), sample=c)
