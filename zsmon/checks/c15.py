"""C15: klpq.importance()/rws() weight score gradients by normalised weights."""
import numpy as np
import tensorflow as tf
from zsmon.core import subseed
from zsmon.tfu import session
from zsmon.vmodels import VModel, axes, fd_grads, grad_close

RULE = ('Each evaluation is the gradient of one importance()/rws() surrogate at the drawn samples: with respect to '
        'the parameters of random models and variational nets (against differences of the float64 shadow with the '
        'weights held fixed), or with respect to every log density handed in directly for random shapes, axes and '
        'log-weight magnitudes up to 1e8 including -inf (closed form: minus the self-normalised weight). Distinct: '
        '(method, form, axis, shape or K, magnitude, dtype, latent kinds).')
ASSUMPTIONS = ['log densities of the shadow are judged by C01']
REQUIRED = {'shapes unknown': 25, 'parameter gradient': 300, 'direct': 300, 'huge weights': 100, 'no axis': 40, 'model gradient zero': 100,
            'rws': 80, 'zero weight': 40}


def items(tier, seed):
    n, reps = (6, 16) if tier == 'quick' else (24, 48)
    return [('nets', {'n': n, 'seed': subseed('c15', seed, r)}) for r in range(reps)] + \
        [('direct', {'n': 5 * n, 'seed': subseed('c15d', seed, r)}) for r in range(reps)]


def run(name, prm, rec):
    import zhusuan as zs
    rng = np.random.RandomState(prm['seed'])
    for it in range(prm['n']):
        tf.reset_default_graph()
        globals()[name](zs, rng, rec)


def weights(lw, ax):
    m = np.max(lw, axis=ax, keepdims=True)
    w = np.exp(lw - m)
    return w / w.sum(axis=ax, keepdims=True)


def nets(zs, rng, rec):
    K = [1, 2, 5][rng.randint(3)]
    group = int(rng.randint(2))
    m = VModel(rng, int(rng.randint(1, 4)), int(rng.randint(1, 3)), group, K, aux=bool(rng.randint(2)),
               reparam=False)
    opts = [0, 0, None, [0]] + ([[0, 1]] if not group else [])
    axis = opts[rng.randint(len(opts))]
    shapes = m.unknown(rng)
    if shapes != 'static':
        rec.event('shapes unknown')
    tv = m.variables()
    q = m.variational(zs, tv)
    form = ('meta', 'function')[rng.randint(2)]
    model = m.meta(zs, tv, rng=rng) if form == 'meta' else m.tf_log_joint(zs, tv)
    kw = {'variational': q}
    if rng.rand() < .3:
        kw = {'latent': dict(zip(m.latent, q.query(m.latent, outputs=True, local_log_prob=True)))}
    obj = zs.variational.klpq(model, m.observed(), axis=axis, **kw)
    meth = ('importance', 'rws')[rng.randint(2)]
    cost = getattr(obj, meth)()
    names = sorted(tv)
    g = tf.gradients(cost, [tv[n] for n in names])
    fetch = {'z': {n: q[n] for n in m.latent},
             'g': [tf.zeros_like(tv[n]) if gi is None else gi for n, gi in zip(names, g)]}
    with session() as sess:
        sess.run(tf.global_variables_initializer())
        out = sess.run(fetch)
    z = out['z']
    lw = m.log_joint(z) - m.log_q(z)
    w = np.ones_like(lw) if axis is None else weights(lw, axes(axis))
    want = fd_grads(lambda th: -(w * m.log_q(z, th)), m.theta, names)
    ctx = {'shapes': shapes, 'form': form, 'axis': axis, 'K': K, 'group': group, 'method': meth,
           'p': [(n.name, n.kind, n.parents) for n in m.p], 'q': [(n.name, n.kind, n.parents) for n in m.q]}
    for n, gv in zip(names, out['g']):
        t = want[n]
        ok = grad_close(gv, t, np.abs(t).max())
        if not ok:
            t = fd_grads(lambda th: -(w * m.log_q(z, th)), m.theta, [n], h=1e-7)[n]
            ok = grad_close(gv, t, np.abs(t).max(), 1e-3)
        rec.check(ok, 'parameter-gradient', 'gradient is not minus the weighted score', parameter=n, got=gv, want=t,
                  **ctx)
        rec.event('parameter gradient')
        if n.startswith('p:'):
            rec.event('model gradient zero')
        rec.case(('nets', meth, form, axis, K, group, [x.kind for x in m.q], n.split('/')[1:2]), sample=ctx)
    if axis is None:
        rec.event('no axis')
    if meth == 'rws':
        rec.event('rws')


def direct(zs, rng, rec):
    rank = int(rng.randint(1, 4))
    shape = tuple(int(v) for v in rng.randint(1, 6, rank))
    n = int(rng.randint(1, 4))
    dt = ('float64', 'float32')[rng.randint(2)]
    mag = [1., 30., 1e3, 1e4 if dt == 'float32' else 1e8][rng.randint(4)]
    ax = [None] + 2 * list(range(-rank, rank))
    axis = ax[rng.randint(len(ax))]
    if rank > 1 and rng.rand() < .2:
        axis = [int(v) for v in rng.permutation(rank)[:rng.randint(1, rank + 1)]]
    lps = [tf.constant(rng.normal(0, mag, shape).astype(dt)) for _ in range(n)]
    cj = rng.normal(0, mag, shape).astype(dt)
    if rng.rand() < .3:
        bad = rng.rand(*shape) < .3
        if axis is None or not np.any(np.all(bad, axis=axes(axis))):
            cj[bad] = -np.inf
            rec.event('zero weight')
    c = tf.constant(cj)
    lat = {'v%d' % i: (tf.constant(rng.normal(0, 1, shape).astype(dt)), lps[i]) for i in range(n)}
    obj = zs.variational.klpq(lambda o: c + 0. * o['x'], {'x': tf.constant(np.zeros(shape, dt))}, latent=lat,
                              axis=axis)
    meth = ('importance', 'rws')[rng.randint(2)]
    cost = getattr(obj, meth)()
    g = tf.gradients(cost, lps + [c])
    with session() as sess:
        lv = sess.run(lps)
        gv = sess.run([tf.zeros_like(t) if gi is None else gi for t, gi in zip(lps + [c], g)])
        cv = sess.run(cost)
    lw = cj.astype(np.float64) - sum(v.astype(np.float64) for v in lv)
    w = np.ones(shape) if axis is None else weights(lw, axes(axis))
    rel = (1e-13 if dt == 'float64' else 1e-6) * 20 * max(mag, 1.)
    ctx = {'axis': axis, 'shape': shape, 'dtype': dt, 'magnitude': mag, 'method': meth}
    for i in range(n):
        rec.check(np.all(np.abs(gv[i] + w) <= w * rel + 1e-6), 'direct-gradient',
                  'gradient with respect to log q is not minus the normalised weight', got=gv[i], want=-w, log_w=lw,
                  **ctx)
        rec.event('direct')
        rec.case(('direct', meth, axis, shape, dt, mag), sample=ctx)
    rec.check(not np.any(gv[-1]), 'weights-not-constant', 'weights are differentiated', got=gv[-1], **ctx)
    rec.check(np.all(np.isfinite(cv)), 'unstable', 'surrogate is not finite', got=cv, log_w=lw, **ctx)
    if mag >= 1e3:
        rec.event('huge weights')
    if axis is None:
        rec.event('no axis')
    if meth == 'rws':
        rec.event('rws')
