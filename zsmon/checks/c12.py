"""C12: SGVB surrogates differentiate the objective pathwise."""
import numpy as np
import tensorflow as tf
from zsmon.core import subseed
from zsmon.tfu import session
from zsmon.vmodels import VModel, layout, lme, mean, axes, fd_grads, grad_close

RULE = ('Each evaluation is the gradient of one sgvb() surrogate with respect to one model or variational '
        'parameter array, compared with fourth-order central differences of the float64 shadow objective in which '
        'the noise recovered from the fetched samples is held fixed. Random models and hierarchical '
        'reparameterised q (Normal by std or logstd, Laplace), 1-4 latents, K none or 1-5, axis None/int/list, batch '
        'shapes of rank 0-2, group_ndims 0-2, latents with and without the sample axis, model as net or function, latents by net or by pairs. Distinct: (objective, form, axis, K, group, '
        'latent kinds, parameter role).')
ASSUMPTIONS = ['location-scale reparameterisation x = loc + scale * noise of Normal and Laplace (judged by C05)',
               'finite differences resolve relative errors above 2e-6']
REQUIRED = {'shapes unknown': 30, 'elbo gradient': 400, 'iw gradient': 400, 'model parameter': 300, 'variational parameter': 300,
            'not constant': 200, 'scalar or mixed layout': 300}


def items(tier, seed):
    n, reps = (5, 24) if tier == 'quick' else (20, 64)
    return [('random', {'n': n, 'seed': subseed('c12', seed, r)}) for r in range(reps)]


def run(name, prm, rec):
    import zhusuan as zs
    rng = np.random.RandomState(prm['seed'])
    for it in range(prm['n']):
        one(zs, rng, rec)


def one(zs, rng, rec):
    tf.reset_default_graph()
    batch, group, K, mixed, opts = layout(rng, [1, 2, 5][rng.randint(3)])
    m = VModel(rng, int(rng.randint(1, 4)), int(rng.randint(1, 3)), group, K, path=True, aux=bool(rng.randint(2)),
               reparam=None if rng.randint(2) else True, batch=batch, mixed=mixed)
    axis = opts[rng.randint(len(opts))]
    shapes = m.unknown(rng)
    if shapes != 'static':
        rec.event('shapes unknown')
    tv = m.variables()
    q = m.variational(zs, tv)
    form = ('meta', 'function')[rng.randint(2)]
    model = m.meta(zs, tv, rng=rng) if form == 'meta' else m.tf_log_joint(zs, tv)
    kw = {'variational': q}
    if rng.rand() < .3:
        kw = {'latent': dict(zip(m.latent, q.query(m.latent, outputs=True, local_log_prob=True)))}
    objs = {'elbo': zs.variational.elbo(model, m.observed(), axis=axis, **kw)}
    if axis is not None:
        objs['iw'] = zs.variational.importance_weighted_objective(model, m.observed(), axis=axis, **kw)
    fetch = {'z': {n: q[n] for n in m.latent}}
    names = sorted(tv)
    for k, o in objs.items():
        g = tf.gradients(o.sgvb(), [tv[n] for n in names])
        fetch[k] = [tf.zeros_like(tv[n]) if gi is None else gi for n, gi in zip(names, g)]
    with session() as sess:
        sess.run(tf.global_variables_initializer())
        out = sess.run(fetch)
    z = out['z']
    eps = m.noise(z)
    ax = axes(axis)
    red = {'elbo': mean, 'iw': lme}
    ctx = {'shapes': shapes, 'form': form, 'axis': axis, 'K': K, 'group': group, 'batch': batch, 'mixed': mixed,
           'p': [(n.name, n.kind, n.parents) for n in m.p], 'q': [(n.name, n.kind, n.parents) for n in m.q]}
    for k in objs:
        def f(th):
            zz = m.push(eps, th)
            return -red[k](m.log_joint(zz, th) - m.log_q(zz, th), ax)
        want = fd_grads(f, m.theta, names)
        for n, g in zip(names, out[k]):
            w = want[n]
            if not grad_close(g, w, np.abs(w).max()):
                # next to a kink of a Laplace density: smaller differences
                w = fd_grads(f, m.theta, [n], h=1e-7)[n]
                ok = grad_close(g, w, np.abs(w).max(), 1e-3)
            else:
                ok = True
            role = 'model parameter' if n.startswith('p:') else 'variational parameter'
            rec.check(ok, '%s-sgvb' % k, 'gradient of the sgvb surrogate is not the pathwise derivative',
                      parameter=n, got=g, want=w, **ctx)
            rec.event(k + ' gradient')
            rec.event(role)
            if mixed or batch == ():
                rec.event('scalar or mixed layout')
            if np.abs(w).max() > 1e-3:
                rec.event('not constant')
            rec.case((k, form, axis, K, group, batch, mixed, [x.kind for x in m.q], n.split('/')[1:2], role), sample=ctx)
