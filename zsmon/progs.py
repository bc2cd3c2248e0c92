"""Small complete programs using each part of the library, for the checks of
program-wide guarantees (reproducibility, which variables change).

A program is built by ``PROGRAMS[name](zs, rng, mark)`` in the default graph. It
calls mark(variables) once all of the user's own variables exist and before the
library is used, and returns a Program.
"""
import numpy as np
import tensorflow as tf
from zsmon import dists as ds
from zsmon import hmcmon as hm
from zsmon.vmodels import VModel


class Program(object):
    kind = 'pure'            # pure: changes nothing; state: own state; sampler: own state and latents; flow
    latent = ()              # variables handed to a sampler
    args = ()                # dictionaries handed to the library
    loss = None              # something to minimise
    random = True            # results depend on random numbers
    params = ()              # variables a flow has to expose to training (None: any new one)

    def __init__(self, step, **kw):
        self.step = step     # step(sess, t) -> results
        self.__dict__.update(kw)


def user_vars(rng):
    """variables of the user that no program touches"""
    return [tf.Variable(rng.normal(0, 1, [3]).astype(np.float32), name='weights'),
            tf.Variable(np.arange(4), name='counter', trainable=False),
            tf.get_variable('shared', initializer=tf.constant(rng.normal(0, 1, [2, 2])))]


def snapshot(d):
    return d, dict(d)


def dist(zs, rng, mark):
    uv = user_vars(rng)
    spec = [s for s in ds.SPECS if s.samples][rng.randint(len([s for s in ds.SPECS if s.samples]))]
    ev = spec.ev(rng)
    es = spec.event_shape(ev)
    shapes = {p: (() if p in spec.scalar_params else (3,)) + tuple(es[p]) for p in spec.params}
    p = spec.gen(rng, shapes, 'mild', 'float32', ev)
    pv = {k: tf.Variable(np.asarray(v, np.float32)) for k, v in p.items()}
    mark(uv + list(pv.values()))
    d = spec.ctor(zs.distributions, {k: tf.convert_to_tensor(v) for k, v in pv.items()})
    x = d.sample(4)
    x2 = d.sample()
    fetch = {'x': x, 'x2': x2, 'lp': d.log_prob(x), 'p': d.prob(x2)}
    if spec.name == 'Empirical':
        raise ValueError()
    return Program(lambda sess, t: sess.run(fetch), label=spec.name,
                   loss=tf.reduce_sum(d.log_prob(tf.stop_gradient(x))))


def _vmodel(zs, rng, mark, K=2, **kw):
    uv = user_vars(rng)
    m = VModel(rng, int(rng.randint(1, 4)), int(rng.randint(1, 3)), int(rng.randint(2)), K, **kw)
    tv = m.variables()
    obs = {k: tf.Variable(v, trainable=False) for k, v in m.obs.items()}
    mark(uv + list(tv.values()) + list(obs.values()))
    q = m.variational(zs, tv)
    model = m.meta(zs, tv, rng=rng) if rng.randint(2) else m.tf_log_joint(zs, tv)
    obs = {k: tf.convert_to_tensor(v) for k, v in obs.items()}
    return m, tv, q, model, obs


def net(zs, rng, mark):
    uv = user_vars(rng)
    m = VModel(rng, 3, 2, int(rng.randint(2)), None)
    tv = m.variables()
    mark(uv + list(tv.values()))
    meta = m.meta(zs, tv, rng=rng)
    obs, o0 = snapshot(m.observed())
    a, b = meta.observe(**obs), meta.observe()
    fetch = {'lj': a.log_joint(), 'lj2': b.log_joint()}
    for n in m.p:
        fetch['a' + n.name] = a[n.name].tensor
        fetch['b' + n.name] = b[n.name].tensor
        fetch['l' + n.name] = b.cond_log_prob(n.name)
    return Program(lambda sess, t: sess.run(fetch), label='net', loss=-tf.reduce_sum(a.log_joint()), args=[(obs, o0)])


def objective(zs, rng, mark):
    kind = ('elbo', 'iw', 'klpq', 'vimco', 'is')[rng.randint(5)]
    path = kind in ('elbo', 'iw')
    m, tv, q, model, obs = _vmodel(zs, rng, mark, K=3, path=path)
    obs, o0 = snapshot(obs)
    pairs = rng.randint(2)
    if pairs:
        names = m.latent
        outs = q.query(names, outputs=True, local_log_prob=True)
        lat = {n: list(o) for n, o in zip(names, outs)}
    else:
        lat = None
    l0 = dict(lat) if lat else None
    kw = {'latent': lat} if lat else {'variational': q}
    cost, fetch = None, {}
    if kind == 'elbo':
        obj = zs.variational.elbo(model, obs, axis=0, **kw)
        cost = obj.sgvb()
    elif kind == 'iw':
        obj = zs.variational.iw_objective(model, obs, axis=0, **kw)
        cost = obj.sgvb()
    elif kind == 'vimco':
        obj = zs.variational.iw_objective(model, obs, axis=0, **kw)
        cost = obj.vimco()
    elif kind == 'klpq':
        obj = zs.variational.klpq(model, obs, axis=0, **kw)
        cost = obj.importance()
        obj = None
    else:
        obj = zs.is_loglikelihood(model, obs, axis=0, proposal=q) if not lat else \
            zs.is_loglikelihood(model, obs, latent=lat, axis=0)
    if obj is not None:
        fetch['obj'] = tf.convert_to_tensor(obj)
    if cost is not None:
        fetch['cost'] = cost
        vs = [tv[k] for k in sorted(tv)]
        fetch['grads'] = [g for g in tf.gradients(cost, vs) if g is not None]
    return Program(lambda sess, t: sess.run(fetch), label=kind, args=[(obs, o0)] + ([(lat, l0)] if lat else []),
                   loss=None if cost is None else tf.reduce_sum(cost))


def reinforce(zs, rng, mark):
    m, tv, q, model, obs = _vmodel(zs, rng, mark, reparam=False)
    obs, o0 = snapshot(obs)
    cost = zs.variational.elbo(model, obs, axis=0, variational=q).reinforce()
    vs = [tv[k] for k in sorted(tv)]
    fetch = {'cost': cost, 'grads': [g for g in tf.gradients(cost, vs) if g is not None]}
    return Program(lambda sess, t: sess.run(fetch), kind='state', label='reinforce', loss=tf.reduce_sum(cost),
                   args=[(obs, o0)])


def _latents(rng, tg, flag):
    init = tg.init(rng, 1.)
    return {k: tf.Variable(init[k], name=k, trainable=flag) for k in tg.names}


def _target(rng):
    chain = [(), (3,), (2, 2)][rng.randint(3)]
    tg = hm.Target(rng, chain, n=int(rng.randint(1, 4)))
    scale = tf.Variable(1., name='scale')
    data = tf.Variable(np.float32(tg.obs), name='data', trainable=False)
    return chain, tg, scale, data


def hmc(zs, rng, mark):
    uv = user_vars(rng)
    chain, tg, scale, data = _target(rng)
    lat = _latents(rng, tg, False)
    mark(uv + [scale, data] + list(lat.values()))
    kw = {'step_size': .2, 'n_leapfrogs': 3}
    ad = int(rng.randint(3))
    if ad:
        kw['adapt_step_size'] = True
    if ad == 2:
        kw.update(adapt_mass=True, mass_collect_iters=5)
    obs, o0 = snapshot({'data': tf.convert_to_tensor(data)})
    arg, l0 = snapshot(dict(lat))
    op, info = zs.HMC(**kw).sample(lambda o: scale * tg.tf_log_joint(o), obs, arg)
    fetch = {'op': op, 'info': {k: getattr(info, k) for k in (
        'samples', 'acceptance_rate', 'updated_step_size', 'init_momentum', 'orig_hamiltonian', 'hamiltonian',
        'orig_log_prob', 'log_prob')}}
    loss = -tf.reduce_sum(scale * tg.tf_log_joint(dict({k: tf.stop_gradient(v) for k, v in lat.items()}, data=data)))
    return Program(lambda sess, t: dict(sess.run(fetch)['info'], state=sess.run(lat)), kind='sampler', label='HMC',
                   latent=list(lat.values()), args=[(obs, o0), (arg, l0)], loss=loss)


def sgmcmc(zs, rng, mark):
    algo = ('SGLD', 'PSGLD', 'SGHMC', 'SGNHT')[rng.randint(4)]
    uv = user_vars(rng)
    chain, tg, scale, data = _target(rng)
    lat = _latents(rng, tg, False)
    mark(uv + [scale, data] + list(lat.values()))
    kw = {'learning_rate': .02}
    if algo == 'SGHMC':
        kw.update(n_iter_resample_v=3, second_order=bool(rng.randint(2)))
    if algo == 'SGNHT':
        kw.update(variance_extra=.1, second_order=bool(rng.randint(2)), use_vector_alpha=bool(rng.randint(2)))
    obs, o0 = snapshot({'data': tf.convert_to_tensor(data)})
    arg, l0 = snapshot(dict(lat))
    op, info = getattr(zs, algo)(**kw).sample(lambda o: scale * tg.tf_log_joint(o), obs, arg)
    fetch = {'op': op, 'info': info._asdict()}
    loss = -tf.reduce_sum(scale * tg.tf_log_joint(dict({k: tf.stop_gradient(v) for k, v in lat.items()}, data=data)))
    return Program(lambda sess, t: dict(sess.run(fetch)['info'], state=sess.run(lat)), kind='sampler', label=algo,
                   latent=list(lat.values()), args=[(obs, o0), (arg, l0)], loss=loss)


def ais(zs, rng, mark):
    from zhusuan.evaluation import AIS
    uv = user_vars(rng)
    scale = tf.Variable(1.3)
    lat = {k: tf.Variable(np.zeros([4, 2], np.float32), trainable=False) for k in ('a', 'b')}
    mark(uv + [scale] + list(lat.values()))

    @zs.meta_bayesian_net()
    def proposal():
        bn = zs.BayesianNet()
        for k in ('a', 'b'):
            bn.normal(k, tf.zeros([2]), std=scale, n_samples=4)
        return bn
    obs, o0 = snapshot({})
    arg, l0 = snapshot(dict(lat))
    run = AIS(lambda o: -tf.square(o['a'] - .5) - tf.square(o['b'] + o['a']), proposal(),
              zs.HMC(step_size=.3, n_leapfrogs=2, adapt_step_size=True), obs, arg, n_temperatures=4, n_adapt=2)

    def step(sess, t):
        return {'value': run.run(sess, {}), 'state': sess.run(lat)}
    return Program(step, kind='sampler', label='AIS', latent=list(lat.values()), args=[(obs, o0), (arg, l0)])


def flow(zs, rng, mark):
    uv = user_vars(rng)
    from zhusuan import transform as tr
    mean = tf.Variable(np.zeros([3], np.float32))
    mark(uv + [mean])
    d = zs.distributions.Normal(mean, std=1., group_ndims=1)
    x = d.sample(5)
    lp = d.log_prob(x)
    if rng.randint(2):
        z, l2 = tr.planar_normalizing_flow(x, lp, 3)
        label = 'planar'
    else:
        z, l2 = tr.inv_autoregressive_flow(x, None, lp, tr.linear_ar, 2, update=('normal', 'gru')[rng.randint(2)])
        label = 'iaf'
    fetch = {'x': x, 'z': z, 'lp': l2}
    return Program(lambda sess, t: sess.run(fetch), kind='flow', label=label,
                   loss=tf.reduce_sum(l2) + tf.reduce_sum(tf.square(z)))


PROGRAMS = {'dist': dist, 'net': net, 'objective': objective, 'reinforce': reinforce, 'hmc': hmc, 'sgmcmc': sgmcmc,
            'ais': ais, 'flow': flow}


def flat(x, prefix=''):
    """nested results -> {path: array}"""
    out = {}
    if isinstance(x, dict):
        for k in sorted(x):
            out.update(flat(x[k], prefix + '/' + str(k)))
    elif isinstance(x, (list, tuple)):
        for i, v in enumerate(x):
            out.update(flat(v, prefix + '/' + str(i)))
    elif x is not None:
        out[prefix] = np.asarray(x)
    return out


def execute(name, pseed, gseed, inter=1, steps=3, sessions=1):
    """Results of a program under a graph-level seed: one dict per session."""
    import zhusuan as zs
    from zsmon.tfu import session
    tf.reset_default_graph()
    tf.set_random_seed(gseed)
    pr = PROGRAMS[name](zs, np.random.RandomState(pseed), lambda v: None)
    out = []
    for _ in range(sessions):
        with session(inter, 1) as sess:
            sess.run(tf.global_variables_initializer())
            r = {}
            for t in range(steps):
                r.update(flat(pr.step(sess, t), '%d' % t))
            out.append(r)
    return pr, out


def main(argv):
    """executes [[name, pseed, gseed, inter], ...] and writes an .npz file"""
    import json
    np.random.seed()
    out = {}
    for i, (name, pseed, gseed, inter) in enumerate(json.loads(argv[0])):
        for k, v in execute(name, pseed, gseed, inter)[1][0].items():
            out['%d|%s' % (i, k)] = v
    np.savez(argv[1], **out)
