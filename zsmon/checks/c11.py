"""C11: values of variational objectives and importance sampling estimates."""
import numpy as np
import tensorflow as tf
from scipy import special as sp
from zsmon.core import subseed
from zsmon.models import close, B
from zsmon.tfu import session
from zsmon.vmodels import VModel, layout, lme, mean, axes

RULE = ('Each evaluation is one objective value (elbo, importance_weighted_objective or its alias, '
        'is_loglikelihood) read from a session run and recomputed in float64 from the latent samples fetched in '
        'the same run, for random models and variational nets (1-4 latents of 8 kinds, hierarchical q, auxiliary '
        'observed q inputs, deterministic nodes), model given as MetaBayesianNet, with custom log joint or as a '
        'function, latents given by variational net or (sample, log prob) pairs, axis None/int/list; exact '
        'posteriors must give the log evidence; incomplete posteriors must be rejected. Distinct: (form, axis, K, '
        'number of latents and observations, group_ndims, node kinds).')
ASSUMPTIONS = ['the per-node log densities are those of the NumPy shadow (judged by C01)']
REQUIRED = {'shapes unknown': 50, 'elbo': 300, 'iw': 200, 'is_loglikelihood': 150, 'exact posterior': 40, 'jensen': 70,
            'function model': 100, 'latent pairs': 150, 'incomplete rejected': 60, 'incomplete custom rejected': 100, 'huge weights': 80,
            'custom log joint': 20, 'net samples': 100}


def items(tier, seed):
    n, reps = (12, 16) if tier == 'quick' else (30, 48)
    out = [('random', {'n': n, 'seed': subseed('c11', seed, r)}) for r in range(reps)]
    out += [('pairs', {'n': 4 * n, 'seed': subseed('c11p', seed, r)}) for r in range(reps // 2)]
    out += [('exact', {'n': n, 'seed': subseed('c11e', seed, r)}) for r in range(reps // 2)]
    out += [('reject', {'n': n, 'seed': subseed('c11r', seed, r)}) for r in range(reps // 2)]
    return out


def run(name, prm, rec):
    import zhusuan as zs
    rng = np.random.RandomState(prm['seed'])
    for it in range(prm['n']):
        tf.reset_default_graph()
        globals()['do_' + name](zs, rng, rec)


def do_random(zs, rng, rec):
    batch, group, K, mixed, ax_opts = layout(rng, [1, 2, 5][rng.randint(3)])
    m = VModel(rng, int(rng.randint(1, 5)), int(rng.randint(1, 4)), group, K, aux=bool(rng.randint(2)), batch=batch,
               mixed=mixed)
    axis = ax_opts[rng.randint(len(ax_opts))]
    shapes = m.unknown(rng)
    if shapes != 'static':
        rec.event('shapes unknown')
    tv = m.variables()
    q = m.variational(zs, tv, extra_det=bool(rng.randint(2)))
    form = ('meta', 'function', 'custom')[rng.randint(3)]
    lat = None
    obs = m.observed()
    if rng.randint(2):
        obs = {k: np.asarray(v) for k, v in m.obs.items()}
    if form == 'function':
        model = m.tf_log_joint(zs, tv)
        obs = m.observed()
        rec.event('function model')
    else:
        model = m.meta(zs, tv, rng=rng)
        if form == 'custom':
            # a custom log joint that weights one term differently
            model.log_joint = lambda bn: 2. * sum(bn.cond_log_prob([n.name for n in m.p])) + 1.
            rec.event('custom log joint')
    by_pairs = rng.rand() < .4
    if by_pairs:
        outs = q.query(m.latent, outputs=True, local_log_prob=True)
        lat = dict(zip(m.latent, outs))
        kw = {'latent': lat}
        rec.event('latent pairs')
    else:
        kw = {'variational': q}
    iw = (zs.variational.importance_weighted_objective, zs.variational.iw_objective)[rng.randint(2)]
    e = zs.variational.elbo(model, obs, axis=axis, **kw)
    fetch = {'z': {n: q[n] for n in m.latent}, 'elbo': e}
    if form != 'function':
        fetch['bn'] = {n.name: e.bn[n.name] for n in m.p}
    if axis is not None:         # multi-sample objectives need an axis
        w = iw(model, obs, axis=axis, **kw)
        ikw = dict(kw)
        if 'variational' in ikw:
            ikw['proposal'] = ikw.pop('variational')
        fetch['iw'] = w
        fetch['is'] = zs.is_loglikelihood(model, obs, axis=axis, **ikw)
        if form != 'function':
            fetch['bnw'] = {n.name: w.bn[n.name] for n in m.p}
    if form == 'function':
        rec.check(e.bn is None and e.meta_bn is None, 'bn', 'bn of a function model is not None')
    with session() as sess:
        sess.run(tf.global_variables_initializer())
        o = sess.run(fetch)
    z = o['z']
    lj = m.log_joint(z)
    if form == 'custom':
        lj = 2. * lj + 1.
    lw = lj - m.log_q(z)
    ax = axes(axis)
    want = {'elbo': mean(lw, ax), 'iw': lme(lw, ax), 'is': lme(lw, ax)}
    ctx = {'shapes': shapes, 'form': form, 'pairs': by_pairs, 'axis': axis, 'K': K, 'group': group, 'batch': batch, 'mixed': mixed,
           'p': [(n.name, n.kind, n.parents) for n in m.p], 'q': [(n.name, n.kind, n.parents) for n in m.q]}
    for k, ev in (('elbo', 'elbo'), ('iw', 'iw'), ('is', 'is_loglikelihood')):
        if k not in o:
            continue
        rec.check(close(o[k], want[k], 1e-8), k, '%s is not its definition at the drawn samples' % ev,
                  got=o[k], want=want[k], **ctx)
        rec.event(ev)
        rec.case((k, form, by_pairs, axis, K, group, batch, mixed, len(m.latent), len(m.obs), [n.kind for n in m.p]), sample=ctx)
    if 'iw' in o:
        rec.check(np.all(o['iw'] >= o['elbo'] - 1e-9 * (1 + np.abs(o['elbo']))), 'jensen',
                  'importance weighted value below the ELBO at the same samples', elbo=o['elbo'], iw=o['iw'], **ctx)
        rec.event('jensen')
    for b in ('bn', 'bnw'):
        if b in o:
            for n in m.p:
                v = o[b][n.name]
                t = z[n.name] if n.name in z else m.obs[n.name]
                rec.check(np.array_equal(v, t), 'net-values', 'the objective\'s net does not carry the variational '
                          'samples and observations', node=n.name, **ctx)
            rec.event('net samples')


def do_pairs(zs, rng, rec):
    """(sample, log prob) pairs of any shape and magnitude with function models."""
    rank = int(rng.randint(1, 4))
    shape = tuple(int(v) for v in rng.randint(1, 5, rank))
    n = int(rng.randint(1, 4))
    dt = ('float64', 'float32')[rng.randint(2)]
    mag = [1., 30., 1e3, 1e4 if dt == 'float32' else 1e8][rng.randint(4)]
    ax = [None] + list(range(-rank, rank))
    axis = ax[rng.randint(len(ax))]
    if rank > 1 and rng.rand() < .3:
        axis = [int(v) for v in rng.permutation(rank)[:rng.randint(1, rank + 1)]]
    z = {('v%d' % i): rng.normal(0, 1, shape).astype(dt) for i in range(n)}
    # some log probs broadcast
    lps = {k: (rng.normal(0, mag, shape if rng.rand() < .7 else shape[-1:])).astype(dt) for k in z}
    c = rng.normal(0, mag, shape).astype(dt)
    x = rng.normal(0, 1, shape).astype(dt)
    seen = []

    def lj(o):
        seen.append(sorted(o))
        return sum(o[k] for k in z) + o['x'] * o['x'] + tf.constant(c)
    lat = {k: (tf.constant(z[k]), tf.constant(lps[k])) for k in z}
    obs = {'x': tf.constant(x)}
    e = zs.variational.elbo(lj, obs, latent=lat, axis=axis)
    fetch = [e]
    if axis is not None:
        fetch += [zs.variational.importance_weighted_objective(lj, obs, latent=lat, axis=axis),
                  zs.is_loglikelihood(lj, obs, latent=lat, axis=axis)]
    else:
        e.tensor
    with session() as sess:
        o = sess.run(fetch)
    f = np.float64
    lw = sum(f(z[k]) for k in z) + f(x) ** 2 + f(c) - sum(f(v) for v in lps.values())
    a = axes(axis)
    want = [mean(lw, a), lme(lw, a), lme(lw, a)]
    tol = (1e-11 if dt == 'float64' else 4e-6) * (10 + mag * 10)
    ctx = {'axis': axis, 'shape': shape, 'dtype': dt, 'magnitude': mag}
    for k, g, v in zip(('elbo', 'iw', 'is'), o, want):
        rec.check(np.shape(g) == np.shape(v) and np.all(np.abs(g - v) <= tol), k + '-pairs',
                  '%s is not its definition' % k, got=g, want=v, **ctx)
        rec.case((k, 'pairs', axis, shape, dt, mag), sample=ctx)
        rec.event({'elbo': 'elbo', 'iw': 'iw', 'is': 'is_loglikelihood'}[k])
    rec.event('latent pairs')
    rec.event('function model')
    if mag >= 1e3:
        rec.event('huge weights')
    rec.check(all(s == sorted(list(z) + ['x']) for s in seen), 'function-inputs',
              'the log joint function did not get all latents and observations', got=seen)


def do_exact(zs, rng, rec):
    """With the exact posterior as q every single sample gives the evidence."""
    K = int(rng.choice([1, 3, 8]))
    s = (B,)
    kind = ('normal', 'beta', 'gamma', 'bernoulli')[rng.randint(4)]
    a, b = rng.uniform(.5, 3, s), rng.uniform(.5, 3, s)
    f64 = lambda v: tf.constant(v, tf.float64)
    if kind == 'normal':
        sc = float(rng.choice([1., 1., 1e-2, 50.]))
        m0, s0, s1, x = rng.normal(0, 1, s), a, b * sc, rng.normal(0, 2, s) * sc
        v = 1 / (1 / s0 ** 2 + 1 / s1 ** 2)
        mq, sq = v * (m0 / s0 ** 2 + x / s1 ** 2), np.sqrt(v)
        t2 = s0 ** 2 + s1 ** 2
        ev = -.5 * np.log(2 * np.pi * t2) - .5 * (x - m0) ** 2 / t2

        def build():
            bn = zs.BayesianNet()
            z = bn.normal('z', f64(m0), std=f64(s0))
            bn.normal('x', z, logstd=f64(np.log(s1)))
            return bn
        mk = lambda q: q.normal('z', f64(mq), std=f64(sq), n_samples=K)
    elif kind == 'beta':
        x = rng.randint(0, 2, s).astype(float)
        ev = sp.betaln(a + x, b + 1 - x) - sp.betaln(a, b)

        def build():
            bn = zs.BayesianNet()
            z = bn.beta('z', f64(a), f64(b))
            bn.bernoulli('x', tf.log(z) - tf.log1p(-z.tensor), dtype=tf.float64)
            return bn
        mk = lambda q: q.beta('z', f64(a + x), f64(b + 1 - x), n_samples=K)
    elif kind == 'gamma':
        x = rng.randint(0, 6, s).astype(float)
        ev = (sp.gammaln(a + x) - sp.gammaln(a) - sp.gammaln(x + 1) + a * np.log(b / (b + 1)) - x * np.log(b + 1))

        def build():
            bn = zs.BayesianNet()
            z = bn.gamma('z', f64(a), f64(b))
            bn.poisson('x', z, dtype=tf.float64)
            return bn
        mk = lambda q: q.gamma('z', f64(a + x), f64(b + 1), n_samples=K)
    else:
        l0, m0, m1, x = rng.normal(0, 1, s), rng.normal(0, 1, s), rng.normal(0, 1, s), rng.normal(0, 1, s)
        ln = lambda m: -.5 * np.log(2 * np.pi) - .5 * (x - m) ** 2
        j0, j1 = -np.logaddexp(0, l0) + ln(m0), -np.logaddexp(0, -l0) + ln(m1)
        ev = np.logaddexp(j0, j1)

        def build():
            bn = zs.BayesianNet()
            z = bn.bernoulli('z', f64(l0), dtype=tf.float64)
            bn.normal('x', z * f64(m1) + (1. - z) * f64(m0), std=f64(1.))
            return bn
        mk = lambda q: q.bernoulli('z', f64(j1 - j0), dtype=tf.float64, n_samples=K)
    q = zs.BayesianNet()
    mk(q)
    model = zs.meta_bayesian_net()(build)()
    obs = {'x': f64(x)}
    per = zs.variational.elbo(model, obs, variational=q)
    e = zs.variational.elbo(model, obs, variational=q, axis=0)
    w = zs.variational.importance_weighted_objective(model, obs, variational=q, axis=0)
    l = zs.is_loglikelihood(model, obs, proposal=q, axis=0)
    with session() as sess:
        o = sess.run([per, e, w, l, q['z']])
    if np.any((o[4] < 1e-12) | (o[4] > 1 - 1e-12)) and kind == 'beta':
        return
    for nm, g in zip(('per-sample', 'elbo', 'iw', 'is'), o):
        t = np.broadcast_to(ev, np.shape(g))
        rec.check(close(g, t, 1e-8), 'exact-' + nm, '%s with the exact posterior is not the log evidence' % nm,
                  kind=kind, K=K, got=g, want=ev, z=o[4])
        rec.case(('exact', nm, kind, K), sample={'kind': kind, 'K': K})
    rec.event('exact posterior')


def do_reject(zs, rng, rec):
    m = VModel(rng, int(rng.randint(2, 4)), 2, 0, 3)
    tv = m.variables()
    model = m.meta(zs, tv)
    form = ('meta', 'custom', 'custom-part')[rng.randint(3)]
    if form == 'custom':
        model.log_joint = lambda bn: sum(bn.cond_log_prob([n.name for n in m.p]))
    elif form == 'custom-part':       # the log joint need not mention every node
        model.log_joint = lambda bn: bn.cond_log_prob(m.p[-1].name)
    drop = ('latent', 'observation')[rng.randint(2)]
    obs = m.observed()
    if drop == 'observation':
        victim = sorted(obs)[rng.randint(len(obs))]
        del obs[victim]
        q = m.variational(zs, tv)
        kw = {'variational': q}
        if rng.randint(2):
            kw = {'latent': dict(zip(m.latent, q.query(m.latent, outputs=True, local_log_prob=True)))}
    else:
        q = m.variational(zs, tv)
        victim = m.latent[rng.randint(len(m.latent))]
        names = [n for n in m.latent if n != victim]
        kw = {'latent': dict(zip(names, q.query(names, outputs=True, local_log_prob=True)))}
        if rng.randint(2):
            # a net where the victim is observed gives no posterior for it
            m2 = zs.BayesianNet()
            for n in names:
                m2.normal(n, tf.zeros([B], tf.float64), std=tf.ones([], tf.float64), n_samples=3)
            kw = {'variational': m2}
            if rng.randint(2):
                m2 = zs.BayesianNet(observed={victim: tf.zeros([B], tf.float64)})
                for n in m.latent:
                    m2.normal(n, tf.zeros([B], tf.float64), std=tf.ones([], tf.float64), n_samples=3)
                kw = {'variational': m2}
    V = zs.variational
    for lab, f in (('elbo', lambda: V.elbo(model, obs, axis=0, **kw).tensor),
                   ('sgvb', lambda: V.elbo(model, obs, axis=0, **kw).sgvb()),
                   ('reinforce', lambda: V.elbo(model, obs, axis=0, **kw).reinforce(variance_reduction=False)),
                   ('iw', lambda: V.importance_weighted_objective(model, obs, axis=0, **kw).tensor),
                   ('vimco', lambda: V.importance_weighted_objective(model, obs, axis=0, **kw).vimco()),
                   ('klpq', lambda: V.klpq(model, obs, axis=0, **kw).importance()),
                   ('is', lambda: zs.is_loglikelihood(
                       model, obs, axis=0, **{('proposal' if k == 'variational' else k): v
                                              for k, v in kw.items()}))):
        try:
            f()
            rec.violation('incomplete', '%s accepted a model whose node %s is neither observed nor in the '
                          'variational posterior' % (lab, victim), drop=drop, form=form)
        except ValueError:
            pass
        rec.event('incomplete rejected')
        if form != 'meta':
            rec.event('incomplete custom rejected')
        rec.case(('reject', lab, drop, sorted(kw), form))
    # one objective asked again must not forget the problem
    e = (V.elbo, V.importance_weighted_objective)[rng.randint(2)](model, obs, axis=0, **kw)
    for i, f in enumerate([(lambda: e.tensor), (lambda: e.sgvb()), (lambda: e.bn), (lambda: e + 1.)]):
        try:
            f()
            rec.violation('incomplete-again', 'access %d to an objective whose model node %s is neither observed nor '
                          'in the variational posterior succeeded' % (i, victim), drop=drop, form=form)
        except ValueError:
            pass
        rec.event('incomplete rejected')
    for lab, k in (('both', {'variational': q, 'latent': {}}), ('neither', {})):
        try:
            V.elbo(model, m.observed(), axis=0, **k)
            rec.violation('latent-xor-variational', '%s of latent and variational accepted' % lab)
        except ValueError:
            pass
        rec.case(('reject', lab))
