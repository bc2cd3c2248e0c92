"""C27: only documented state changes."""
import numpy as np
import tensorflow as tf
from zsmon import progs
from zsmon.core import subseed
from zsmon.tfu import session

RULE = ('Each evaluation is one execution of a complete program (distribution, net, objectives and surrogates, '
        'reinforce, HMC, SGMCMC, AIS, flows) next to parameters, observed values and unrelated variables of the user: '
        'all variables of the graph are snapshotted around every run and every training step, and compared bit for '
        'bit with the set that may change (nothing; the object\'s own state; its own state and the latents). New '
        'variables are sorted into own state, which must be absent from the trainable variables, and parameters of '
        'flows, which must be present and receive gradients. Dictionaries, lists and arrays handed over are '
        'compared with copies. '
        'Distinct: (program, model seed, run).')
ASSUMPTIONS = []
REQUIRED = {'run': 500, 'own state': 300, 'latent changed': 100, 'untouched variables': 3000, 'training step': 200,
            'flow parameter': 60, 'arguments': 150, 'pure run': 200,
            'containers': 200}


def items(tier, seed):
    n, reps = (8, 32) if tier == 'quick' else (24, 96)
    return [('frame', {'n': n, 'seed': subseed('c27', seed, r), 'r': r}) for r in range(reps)] + \
        [('containers', {'n': n, 'seed': subseed('c27c', seed, r)}) for r in range(reps // 4)]


def run(name, prm, rec):
    rng = np.random.RandomState(prm['seed'])
    if name == 'containers':
        return containers(prm, rec, rng)
    names = sorted(progs.PROGRAMS)
    for i in range(prm['n']):
        tf.reset_default_graph()
        frame(names[(prm['r'] + i) % len(names)], rng, rec)


def frame(name, rng, rec):
    import zhusuan as zs
    user = []
    ps = int(rng.randint(2 ** 31))

    def mark(vs):
        user.extend(vs)
        rec.check(set(map(id, vs)) == set(map(id, tf.global_variables())), 'harness', 'user variables')
    pr = progs.PROGRAMS[name](zs, np.random.RandomState(ps), mark)
    uid = set(map(id, user))
    every = {id(v): v for c in (tf.GraphKeys.GLOBAL_VARIABLES, tf.GraphKeys.LOCAL_VARIABLES,
                                tf.GraphKeys.TRAINABLE_VARIABLES, tf.GraphKeys.MODEL_VARIABLES)
             for v in tf.get_collection(c)}
    own = [v for i, v in every.items() if i not in uid]
    train = set(map(id, tf.trainable_variables()))
    glob = set(map(id, tf.global_variables()))
    ctx = {'program': name, 'label': pr.label, 'model seed': ps}
    if pr.kind == 'flow':
        rec.check(len(own) > 0 and all(id(v) in train for v in own), 'flow-parameter',
                  'a flow has parameters that are not trainable', got=[v.name for v in own if id(v) not in train], **ctx)
        gs = tf.gradients(pr.loss, own)
        rec.check(all(g is not None for g in gs), 'flow-parameter', 'a parameter of a flow gets no gradient',
                  got=[v.name for v, g in zip(own, gs) if g is None], **ctx)
        rec.event('flow parameter', len(own))
    else:
        rec.check(not any(id(v) in train for v in own), 'trainable-state',
                  'internal state is among the trainable variables', got=[v.name for v in own if id(v) in train], **ctx)
        rec.event('own state', len(own))
    if pr.kind == 'pure':
        rec.check(not own, 'hidden-state', 'evaluation created variables', got=[v.name for v in own], **ctx)
    rec.check(all(id(v) in glob for v in own), 'not-global', 'internal state is not among the global variables',
              got=[v.name for v in own if id(v) not in glob], **ctx)
    opt = None
    if pr.loss is not None and any(g is not None for g in tf.gradients(pr.loss, tf.trainable_variables())):
        opt = tf.train.GradientDescentOptimizer(1e-4).minimize(pr.loss)
    allv = list(tf.global_variables())
    lat = set(map(id, pr.latent))
    with session(int(rng.choice([1, 4])), 1) as sess:
        sess.run(tf.global_variables_initializer())
        for t in range(4):
            for what in ('run', 'training step'):
                if what == 'training step' and opt is None:
                    continue
                before = sess.run(allv)
                if what == 'run':
                    pr.step(sess, t)
                else:
                    sess.run(opt)
                after = sess.run(allv)
                bad = []
                for v, a, b in zip(allv, before, after):
                    same = np.asarray(a).tobytes() == np.asarray(b).tobytes()
                    if what == 'run':
                        may = id(v) in lat or id(v) not in uid and pr.kind in ('state', 'sampler')
                    else:
                        # sampler runs and surrogates may be part of the step; the latents are not
                        may = id(v) in train or id(v) not in uid and pr.kind == 'state'
                    if not same and not may:
                        bad.append(v.name)
                    if same:
                        rec.event('untouched variables')
                    elif id(v) in lat:
                        rec.event('latent changed')
                rec.check(not bad, 'frame', 'a %s of %s changed variables it does not own: %s' % (what, pr.label, bad),
                          run=t, **ctx)
                rec.event(what)
                if pr.kind == 'pure' and what == 'run':
                    rec.event('pure run')
                rec.case((name, pr.label, ps, t, what), sample=ctx)
    for d, copy in pr.args:
        ok = list(d) == list(copy) and all(d[k] is copy[k] for k in copy)
        rec.check(ok, 'argument-modified', 'a dictionary handed over was modified', got=sorted(d), want=sorted(copy),
                  **ctx)
        rec.event('arguments')


def containers(prm, rec, rng):
    """Lists, dictionaries and arrays handed over come back as they were."""
    import zhusuan as zs
    from zhusuan.diagnostics import effective_sample_size, effective_sample_size_1d
    from zhusuan.framework.utils import get_backward_ops
    from zhusuan.utils import log_mean_exp, log_sum_exp, merge_dicts
    from zsmon.vmodels import VModel
    for it in range(prm['n']):
        tf.reset_default_graph()
        ps = int(rng.randint(2 ** 31))
        r = np.random.RandomState(ps)
        held = []

        def keep(what, x):
            """x, compared with a copy at the end; arrays by value, other things by identity"""
            if isinstance(x, np.ndarray):
                held.append((what, x, x.copy()))
            elif isinstance(x, dict):
                held.append((what, x, (list(x), [x[k] for k in x])))
                for k, v in x.items():
                    if isinstance(v, np.ndarray):
                        keep('%s[%s]' % (what, k), v)
            else:
                held.append((what, x, list(x)))
            return x
        V = zs.variational
        K = 3
        m = VModel(r, int(r.randint(1, 4)), int(r.randint(1, 3)), int(r.randint(2)), K)
        tv = m.variables()
        q = m.variational(zs, tv)
        model = m.meta(zs, tv)
        fn = m.tf_log_joint(zs, tv)
        obs = keep('observed', {k: np.asarray(v) for k, v in m.obs.items()})
        names = keep('names', [m.latent[i] for i in r.permutation(len(m.latent))])
        lat = keep('latent', dict(zip(names, q.query(names, outputs=True, local_log_prob=True))))
        axis = keep('axis', [0])
        q.get(names), q.cond_log_prob(names), q.outputs(names)
        fetch = [V.elbo(model, obs, variational=q, axis=axis), V.iw_objective(model, obs, latent=lat, axis=axis),
                 V.elbo(fn, keep('observed', {k: tf.constant(v) for k, v in m.obs.items()}), latent=lat, axis=0).sgvb(),
                 V.klpq(model, obs, variational=q, axis=axis).importance(),
                 V.iw_objective(model, obs, variational=q, axis=0).vimco(),
                 zs.is_loglikelihood(model, obs, proposal=q, axis=axis), model.observe(**obs).log_joint()]
        kw = keep('model arguments', {'a': np.ones(3)})
        ar = keep('model arguments', [np.zeros(3)])
        mb = zs.MetaBayesianNet(lambda *a, **k: zs.BayesianNet(), args=ar, kwargs=kw)
        mb.observe(), mb.observe(x=np.ones(2))
        fetch.append(tf.no_op() if r.randint(2) else tf.zeros([]))
        # samplers
        z = {k: tf.Variable(r.normal(0, 1, (4, 2)).astype(np.float32)) for k in ('z0', 'z1')}
        lj = lambda o: -.5 * tf.reduce_sum(o['z0'] ** 2 + (o['z1'] - o['z0']) ** 2 + o['x'] ** 2, -1)
        lz = keep('latent', dict(z))
        ox = keep('observed', {'x': tf.zeros([4, 2])})
        which = r.randint(5)
        if which == 0:
            op, info = zs.HMC(step_size=.1, n_leapfrogs=2, adapt_step_size=tf.constant(True)).sample(lj, ox, lz)
            fetch.append(info.samples)
        else:
            s = [None, zs.SGLD(.01), zs.PSGLD(.01), zs.SGHMC(.01, n_iter_resample_v=2), zs.SGNHT(.01)][which]
            op, info = s.sample(lj, ox, lz)
        fetch.append(op)
        # graph utilities
        x = tf.constant(r.normal(0, 1, (3, 4)))
        y = log_mean_exp(x, keep('axis', [0, 1])) + log_sum_exp(x, keep('axis', [1]))
        get_backward_ops(keep('seeds', [y, x]), treat_as_inputs=keep('inputs', [x]))
        merge_dicts(keep('dict', {'a': 1, 'b': 2}), keep('dict', {'b': 3}))
        ch = keep('samples', r.normal(0, 1, (150, 2)))
        effective_sample_size(ch, burn_in=50)
        effective_sample_size_1d(keep('samples', np.cumsum(r.normal(0, 1, 60))))
        p = keep('parameter', r.normal(0, 1, (3,)))
        sd = keep('parameter', r.uniform(.5, 1, (3,)))
        g = keep('given', r.normal(0, 1, (3,)))
        d = zs.distributions.Normal(p, std=sd)
        fetch += [d.log_prob(g), d.sample(2), d.prob(g)]
        ph = tf.placeholder(tf.float64, [3])
        feed = keep('feed_dict', {ph: keep('fed value', r.normal(0, 1, (3,)))})
        fetch.append(zs.BayesianNet().normal('n', ph, std=ph ** 2 + 1.))
        with session(1, 1) as sess:
            sess.run(tf.global_variables_initializer())
            for t in range(2):
                sess.run(fetch, feed)
        for what, v, c in held:
            if isinstance(v, np.ndarray):
                ok = v.shape == c.shape and v.tobytes() == c.tobytes()
            elif isinstance(v, dict):
                ok = list(v) == c[0] and all(a is b for a, b in zip([v[k] for k in v], c[1]))
            else:
                ok = len(v) == len(c) and all(a is b for a, b in zip(v, c))
            rec.check(ok, 'argument-modified', '%s handed over to the library was modified' % what, model_seed=ps)
        rec.event('containers', len(held))
        rec.case(('containers', ps))
