"""C14: VIMCO is unbiased with leave-one-out control variates."""
import numpy as np
import tensorflow as tf
from zsmon.core import subseed
from zsmon.tfu import session
from zsmon.vmodels import VModel, lme, fd_grads, grad_close, configs

RULE = ('Each evaluation is (a) all gradients of one vimco() surrogate at the drawn samples of a random model and '
        'variational net, against differences of the float64 shadow with the leave-one-out signals held fixed; (b) '
        'the gradients with respect to log densities handed in directly, for log weights of rank 1-4, every sample '
        'axis, K from 2, magnitudes up to 1e6 (closed form); (c) one exact expectation over all K-sample '
        'configurations of Bernoulli latents against the gradient of the exact expected objective; or (d) a '
        'rejection of K < 2. Distinct: (kind, axis, shape or K, static or dynamic K, magnitude, dtype, latents).')
ASSUMPTIONS = ['log densities of the shadow are judged by C01']
REQUIRED = {'shapes unknown': 15, 'gradient': 500, 'direct': 400, 'exact expectation': 25, 'rejected': 60, 'dynamic K': 60,
            'inner axis': 40, 'huge weights': 80}


def items(tier, seed):
    n, reps = (4, 16) if tier == 'quick' else (16, 48)
    return [('nets', {'n': n, 'seed': subseed('c14', seed, r)}) for r in range(reps)] + \
        [('direct', {'n': 8 * n, 'seed': subseed('c14d', seed, r)}) for r in range(reps)] + \
        [('exact', {'n': n // 2, 'seed': subseed('c14e', seed, r)}) for r in range(reps)]


def run(name, prm, rec):
    import zhusuan as zs
    rng = np.random.RandomState(prm['seed'])
    for it in range(prm['n']):
        tf.reset_default_graph()
        globals()['do_' + name](zs, rng, rec)


def signals(lw, axis):
    """objective minus the objective with log weight k replaced by the mean of
    the others, along axis"""
    x = np.moveaxis(np.asarray(lw, np.float64), axis, 0)
    K = x.shape[0]
    out = np.empty_like(x)
    full = lme(x, 0)
    for k in range(K):
        y = x.copy()
        y[k] = np.delete(x, k, 0).mean(0)
        out[k] = full - lme(y, 0)
    return np.moveaxis(out, 0, axis)


def do_nets(zs, rng, rec):
    K = int(rng.choice([2, 3, 6]))
    group = int(rng.randint(2))
    m = VModel(rng, int(rng.randint(1, 4)), int(rng.randint(1, 3)), group, K, aux=bool(rng.randint(2)),
               reparam=False)
    shapes = m.unknown(rng, rank=False)
    if shapes != 'static':
        rec.event('shapes unknown')
    tv = m.variables()
    dyn = bool(rng.randint(2))
    q = m.variational(zs, tv, K=tf.placeholder_with_default(np.int32(K), []) if dyn else 'own')
    form = ('meta', 'function')[rng.randint(2)]
    model = m.meta(zs, tv, rng=rng) if form == 'meta' else m.tf_log_joint(zs, tv)
    kw = {'variational': q}
    if rng.rand() < .3:
        kw = {'latent': dict(zip(m.latent, q.query(m.latent, outputs=True, local_log_prob=True)))}
    cost = zs.variational.importance_weighted_objective(model, m.observed(), axis=0, **kw).vimco()
    names = sorted(tv)
    g = tf.gradients(cost, [tv[n] for n in names])
    with session() as sess:
        sess.run(tf.global_variables_initializer())
        z, gv = sess.run([{n: q[n] for n in m.latent},
                          [tf.zeros_like(tv[n]) if gi is None else gi for n, gi in zip(names, g)]])
    lw = m.log_joint(z) - m.log_q(z)
    sig = signals(lw, 0)

    def F(th):
        lq = m.log_q(z, th)
        return -np.sum(sig * lq) - np.sum(lme(m.log_joint(z, th) - lq, 0))
    want = fd_grads(F, m.theta, names)
    ctx = {'shapes': shapes, 'form': form, 'K': K, 'group': group, 'dynamic': dyn,
           'p': [(n.name, n.kind, n.parents) for n in m.p], 'q': [(n.name, n.kind, n.parents) for n in m.q]}
    for n, a in zip(names, gv):
        ok = grad_close(a, want[n], np.abs(want[n]).max())
        if not ok:
            want[n] = fd_grads(F, m.theta, [n], h=1e-7)[n]
            ok = grad_close(a, want[n], np.abs(want[n]).max(), 1e-3)
        rec.check(ok, 'gradient', 'surrogate gradient is not the VIMCO estimator', parameter=n, got=a, want=want[n],
                  **ctx)
        rec.event('gradient')
        rec.case(('nets', form, K, group, dyn, [x.kind for x in m.q], n.split('/')[1:2]), sample=ctx)
    if dyn:
        rec.event('dynamic K')


def do_direct(zs, rng, rec):
    rank = int(rng.randint(1, 5))
    axis = int(rng.randint(rank))
    shape = [int(v) for v in rng.randint(1, 4, rank)]
    K = int(rng.choice([1, 2, 2, 3, 5, 8]))
    shape[axis] = K
    shape = tuple(shape)
    dt = ('float64', 'float32')[rng.randint(2)]
    mag = float(rng.choice([1., 30., 1e3, 1e6 if dt == 'float64' else 1e4]))
    n = int(rng.randint(1, 3))
    know = ('static', 'rank', 'axis')[rng.randint(3)]
    st = {'static': list(shape), 'rank': [None] * rank,
          'axis': [None if i == axis else s for i, s in enumerate(shape)]}[know]
    lj_p = tf.placeholder(dt, st)
    lq_p = [tf.placeholder(dt, st) for _ in range(n)]
    ctx = {'shape': shape, 'axis': axis, 'dtype': dt, 'magnitude': mag, 'known': know}

    def build():
        obj = zs.variational.importance_weighted_objective(
            lambda o: tf.identity(lj_p), {},
            latent={'v%d' % i: (tf.zeros(shape, dt), lq_p[i]) for i in range(n)}, axis=axis)
        return obj.vimco()
    if rng.rand() < .3:
        lj = rng.normal(0, 1, shape[:axis] + (1,) + shape[axis + 1:]) + np.zeros(shape)   # equal along the axis
    else:
        lj = rng.normal(0, mag, shape)
    lj = (lj + rng.normal(0, mag)).astype(dt)
    lq = [rng.normal(0, mag * rng.randint(2) + 1e-3, shape).astype(dt) for _ in range(n)]
    fd = dict(zip(lq_p, lq))
    fd[lj_p] = lj
    if K < 2:
        try:
            cost = build()
            if know != 'static':
                with session() as sess:
                    sess.run(cost, fd)
            rec.violation('K1-accepted', 'VIMCO accepted a single sample', **ctx)
        except (ValueError if know == 'static' else tf.errors.InvalidArgumentError):
            pass
        rec.event('rejected')
        rec.case(('reject', shape, axis, know), sample=ctx)
        return
    cost = build()
    with session() as sess:
        gq, gj = sess.run([tf.gradients(cost, lq_p), tf.gradients(cost, lj_p)[0]], fd)
    lw = lj.astype(np.float64) - sum(v.astype(np.float64) for v in lq)
    sig = signals(lw, axis)
    w = np.exp(lw - lw.max(axis, keepdims=True))
    w = w / w.sum(axis, keepdims=True)
    top = np.abs(lw).max() + 1
    eps = 1e-15 if dt == 'float64' else 6e-8
    tol = 60 * K * eps * top + 1e-6
    # relative error of a normalised weight is the absolute error of the log weight
    rec.check(np.all(np.abs(gj + w) <= 60 * K * eps * top * np.maximum(w, 1e-3) + 1e-6), 'model-gradient',
              'gradient with respect to the log joint is not minus the normalised weight', got=gj, want=-w, **ctx)
    for g in gq:
        rec.check(np.all(np.abs(g - (w - sig)) <= tol), 'signal',
                  'score weight is not the leave-one-out learning signal', got=g, want=w - sig, log_w=lw, **ctx)
        rec.event('direct')
    rec.case(('direct', shape, axis, dt, mag, know), sample=ctx)
    if axis and axis < rank - 1:
        rec.event('inner axis')
    if mag >= 1e3:
        rec.event('huge weights')
    if know != 'static':
        rec.event('dynamic K')


def do_exact(zs, rng, rec):
    n, K = [(1, 2), (1, 3), (1, 4), (2, 2), (2, 3)][rng.randint(5)]
    m = VModel(rng, n, int(rng.randint(1, 3)), 0, K, pkinds=('bernoulli',))
    tv = m.variables()
    q = m.variational(zs, tv)
    model = m.meta(zs, tv) if rng.randint(2) else m.tf_log_joint(zs, tv)
    cost = zs.variational.importance_weighted_objective(model, m.observed(), axis=0, variational=q).vimco()
    names = [k for k in sorted(tv) if np.shape(m.theta[k]) == (m.batch,)]
    g = [tf.zeros_like(tv[k]) if gi is None else gi for gi, k in
         zip(tf.gradients(cost, [tv[k] for k in names]), names)]
    tot = {k: 0. for k in names}

    def samples(cf):
        a = np.asarray(cf).reshape(n, K)
        return {k: np.repeat(a[i][:, None], m.batch, 1) for i, k in enumerate(m.latent)}
    with session() as sess:
        sess.run(tf.global_variables_initializer())
        for cf in configs((0., 1.), n * K):
            z = samples(cf)
            gv = sess.run(g, {q[k].tensor: z[k] for k in z})
            w = np.exp(m.log_q(z).sum(0))
            for k, a in zip(names, gv):
                tot[k] = tot[k] + a * w

    def objective(th):
        r = 0.
        for cf in configs((0., 1.), n * K):
            z = samples(cf)
            lq = m.log_q(z, th)
            r = r + np.exp(lq.sum(0)) * lme(m.log_joint(z, th) - lq, 0)
        return -r
    want = fd_grads(objective, m.theta, names)
    for k in names:
        rec.check(grad_close(tot[k], want[k], np.abs(want[k]).max(), 1e-5), 'biased',
                  'expected surrogate gradient is not minus the gradient of the expected objective', parameter=k,
                  got=tot[k], want=want[k], n_latent=n, K=K)
    rec.event('exact expectation')
    rec.case(('exact', n, K, [x.parents for x in m.q]), sample={'n_latent': n, 'K': K})
