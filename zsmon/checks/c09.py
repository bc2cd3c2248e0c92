"""C09: every way of creating a stochastic node gives the same node."""
import numpy as np
import tensorflow as tf
from zsmon import dists as ds, shapes as sh
from zsmon.core import subseed
from zsmon.tfu import session, Feeder

RULE = ('Each evaluation is one node built by one route (bn shortcut, its alias, bn.stochastic with '
        'the distribution or its alias class, legacy node class, legacy alias) with a random '
        'combination of arguments, compared with the plain distribution object: log density at '
        'shared values, dtypes, shapes, number of samples, group_ndims, reparameterisation, '
        'path-derivative, check_numerics behaviour and observation handling. Distinct: '
        '(distribution, route, arguments given, n_samples form, group_ndims, dtype).')
ASSUMPTIONS = ['the plain distribution is judged by C01-C06; here only agreement']
REQUIRED = {'routes': 1000, 'reparam gradient': 200, 'path derivative': 100, 'numerics parity': 60,
            'observed': 500, 'legacy': 300,
            'own log density': 300}


def items(tier, seed):
    reps, n = (3, 6) if tier == 'quick' else (16, 24)
    return [(s.name, {'n': n, 'seed': subseed('c09', seed, s.name, r)})
            for r in range(reps) for s in ds.SPECS] + \
        [('special', {'seed': subseed('c09s', seed, i)}) for i in range(4)]


def routes(zs, spec):
    D = zs.distributions
    out = [('shortcut:' + m, 'bn', m) for m in (spec.bn, spec.bn_alias) if m]
    out += [('stochastic:' + c, 'dist', c) for c in (spec.name,) + tuple(spec.aliases)]
    out += [('legacy:' + c, 'legacy', c) for c in (spec.name,) + tuple(spec.aliases)]
    return out


def dist_kwargs(kw):
    return {k: v for k, v in kw.items() if k != 'n_samples'}


def run(name, prm, rec):
    if name == 'special':
        return special(prm, rec)
    import zhusuan as zs
    spec = ds.BY_NAME[name]
    rng = np.random.RandomState(prm['seed'])
    for it in range(prm['n']):
        tf.reset_default_graph()
        cfg = sh.config(rng, spec)
        pd = spec.param_dtypes[rng.randint(len(spec.param_dtypes))]
        p = ds.gen_params(spec, rng, cfg['shapes'], 'mod', pd, cfg['ev'])
        if 'std' in p and rng.randint(2):
            p['logstd'] = ds.rnd(np.log(p.pop('std')), pd)
        fd = Feeder()
        pt = {k: fd.tensor(v, pd, ('static', 'unknown')[rng.randint(2)]) for k, v in p.items()}
        kw, given = {}, []
        sd = pd
        if spec.discrete:
            sd = 'int32'
            if rng.randint(2):
                sd = spec.sample_dtypes[rng.randint(len(spec.sample_dtypes))]
                kw['dtype'] = tf.as_dtype(sd)
        g = int(rng.randint(0, len(cfg['batch']) + 1))
        if g or rng.randint(2):
            kw['group_ndims'] = g if rng.rand() < .7 else fd.tensor(g, 'int32')
        if spec.reparam and rng.rand() < .7:
            kw['is_reparameterized'] = bool(rng.randint(2))
        if spec.path and rng.rand() < .5:
            kw['use_path_derivative'] = bool(rng.randint(2))
        if spec.check_numerics and rng.rand() < .5:
            kw['check_numerics'] = bool(rng.randint(2))
        if name in ('Multinomial', 'UnnormalizedMultinomial') and rng.rand() < .6:
            kw['normalize_logits'] = bool(rng.randint(2))
        if 'n_experiments' in spec.extra:
            kw['n_experiments'] = int(rng.randint(1, 9))
        ns = None
        if spec.samples and rng.rand() < .6:
            ns = int(rng.choice([1, 2, 4]))
            kw['n_samples'] = ns if rng.rand() < .6 else fd.tensor(ns, 'int32')
        xkw = {k: kw[k] for k in ('n_experiments',) if k in kw}
        x = ds.rnd(sh.grid_values(spec, rng, p, dict(cfg, given=cfg['batch']), 'mod', **xkw), sd)
        xt = fd.tensor(x, sd, ('static', 'unknown')[rng.randint(2)])
        ref = spec.ctor(zs.distributions, pt, **dist_kwargs(kw))
        fetch = {'ref': {'lp': ref.log_prob(xt), 'g': tf.convert_to_tensor(ref.group_ndims)}}
        ctx = {'dist': name, 'given': sorted(kw), 'dtype': pd, 'sample_dtype': sd, 'n_samples': ns,
               'group_ndims': g}
        nodes = {}
        lead = () if ns is None else (ns,)
        want_shape = lead + cfg['batch'] + tuple(spec.value_shape(cfg['ev']))
        for label, kind, attr in routes(zs, spec):
            node, onode, bn = make(zs, spec, kind, attr, pt, kw, xt)
            nodes[label] = (node, onode, bn)
            d = node.dist
            c = dict(ctx, route=label)
            rec.event('routes')
            if kind == 'legacy':
                rec.event('legacy')
            rec.case((name, label, sorted(kw), ns is None, g, pd, sd), sample=c)
            rec.check(d.dtype == ref.dtype and d.param_dtype == ref.param_dtype and node.dtype == ref.dtype,
                      'dtype', 'dtype %s/%s, distribution has %s/%s' % (d.dtype, d.param_dtype, ref.dtype,
                                                                        ref.param_dtype), **c)
            rec.check(d.is_reparameterized == ref.is_reparameterized, 'is_reparameterized',
                      'is_reparameterized %s, distribution has %s' % (
                          d.is_reparameterized, ref.is_reparameterized), **c)
            rec.check(d.use_path_derivative == ref.use_path_derivative, 'use_path_derivative',
                      'use_path_derivative %s' % d.use_path_derivative, **c)
            rec.check(d.is_continuous == ref.is_continuous, 'is_continuous', 'is_continuous differs', **c)
            rec.check(d.get_batch_shape().as_list() == ref.get_batch_shape().as_list()
                      if ref.get_batch_shape().ndims is not None else d.get_batch_shape().ndims is None,
                      'static-batch', 'static batch shape %s vs %s' % (d.get_batch_shape(),
                                                                      ref.get_batch_shape()), **c)
            rec.check(onode.is_observed() and not node.is_observed(), 'observed',
                      'observed flag wrong', **c)
            f = {'lp': d.log_prob(xt), 'olp': onode.cond_log_p, 'ov': onode.tensor,
                 'g': tf.convert_to_tensor(d.group_ndims)}
            if spec.samples:
                f['s'] = node.tensor
                if not kw.get('check_numerics') and pd != 'float16':
                    # a rounded sample may sit on the edge of the support,
                    # where check_numerics rightly raises
                    f['clp'] = node.cond_log_p
                    f['clp2'] = ref.log_prob(node.tensor)
                if spec.reparam:
                    gr = [q is not None for q in tf.gradients(
                        tf.cast(node.tensor, tf.float64), list(pt.values()))]
                    rec.check(all(gr) if ref.is_reparameterized else not any(gr), 'sample-gradient',
                              'gradient through the sample does not match is_reparameterized=%s'
                              % ref.is_reparameterized, **c)
                    rec.event('reparam gradient')
            if spec.path:
                gr = [q is not None for q in tf.gradients(onode.cond_log_p, list(pt.values()))]
                rec.check(not any(gr) if ref.use_path_derivative else all(gr), 'path-derivative',
                          'gradient of the log density does not match use_path_derivative=%s'
                          % ref.use_path_derivative, **c)
                rec.event('path derivative')
            fetch[label] = f
        with session() as sess:
            out = sess.run(fetch, fd.feed)
            lp = out['ref']['lp']
            for label, (node, onode, bn) in nodes.items():
                o, c = out[label], dict(ctx, route=label)
                for k in ('lp', 'olp'):
                    rec.check(o[k].shape == lp.shape and o[k].dtype == lp.dtype and
                              np.allclose(o[k], lp, rtol=1e-5 if pd != 'float16' else 1e-2, atol=1e-6,
                                          equal_nan=True), 'log-density',
                              'log density differs from the distribution\'s', got=o[k], want=lp, **c)
                rec.check(np.array_equal(o['ov'], np.asarray(x, sd)), 'observed-value',
                          'observed node has another value', **c)
                rec.event('observed')
                rec.check(int(o['g']) == g, 'group_ndims', 'group_ndims %s, asked for %d' % (o['g'], g), **c)
                if 's' in o:
                    rec.check(o['s'].shape == want_shape and o['s'].dtype == np.dtype(sd), 'sample-shape',
                              'sample shape %s dtype %s, expected %s %s' % (
                                  o['s'].shape, o['s'].dtype, want_shape, sd), **c)
                if 'clp' in o:
                    rec.event('own log density')
                    rec.check(np.allclose(o['clp'], o['clp2'], rtol=1e-4 if pd != 'float16' else 3e-2,
                                          atol=1e-5 if pd != 'float16' else 3e-2, equal_nan=True),
                              'cond_log_p', 'cond_log_p is not the log density at the sample', **c)
        if spec.check_numerics:
            numerics(zs, spec, rng, pd, cfg, kw, rec, ctx)


def make(zs, spec, kind, attr, pt, kw, xt):
    """(unobserved node, observed node, net)"""
    if kind == 'dist':
        cls = type('NS', (), {})()
        setattr(cls, spec.name, getattr(zs.distributions, attr))
        bn = zs.BayesianNet()
        obn = zs.MetaBayesianNet(lambda: zs.BayesianNet()).observe(q=xt)
        mk = lambda b: b.stochastic('q', spec.ctor(cls, pt, **dist_kwargs(kw)), **(
            {'n_samples': kw['n_samples']} if 'n_samples' in kw else {}))
        return mk(bn), mk(obn), bn
    args, kk = spec.bn_args(pt, **kw)
    if kind == 'bn':
        bn = zs.BayesianNet()
        obn = zs.BayesianNet(observed={'q': xt})
        return getattr(bn, attr)('q', *args, **kk), getattr(obn, attr)('q', *args, **kk), bn
    with zs.BayesianNet() as bn:
        a = getattr(zs, attr)('q', *args, **kk)
    with zs.BayesianNet(observed={'q': xt}):
        b = getattr(zs, attr)('q', *args, **kk)
    return a, b, bn


BAD = {'Normal': ('std', 0.), 'FoldNormal': ('std', 0.), 'Uniform': None, 'Gamma': ('beta', 0.),
       'Beta': ('alpha', 0.), 'Poisson': ('rate', 0.), 'Binomial': ('x', -1.),
       'InverseGamma': ('beta', 0.), 'Laplace': ('scale', 0.), 'BinConcrete': ('temperature', 0.),
       'MultivariateNormalCholesky': ('cov_tril', 0.), 'Dirichlet': ('alpha', 0.),
       'ExpConcrete': ('temperature', 0.), 'Concrete': ('temperature', 0.),
       'MatrixVariateNormalCholesky': ('u_tril', 0.)}


def numerics(zs, spec, rng, pd, cfg, kw, rec, ctx):
    """check_numerics reaches the distribution on every route, and only then."""
    what = BAD[spec.name]
    p = ds.gen_params(spec, rng, cfg['shapes'], 'mod', pd, cfg['ev'])
    sd = kw['dtype'].name if 'dtype' in kw else 'int32' if spec.discrete else pd
    xkw = {k: kw[k] for k in ('n_experiments',) if k in kw}
    x = ds.rnd(sh.grid_values(spec, rng, p, dict(cfg, given=cfg['batch']), 'mod', **xkw), sd)
    if what is None:
        p['minval'] = p['maxval'] + np.zeros(np.broadcast_shapes(p['minval'].shape, p['maxval'].shape))
    elif what[0] == 'x':
        x = x * 0 + what[1]
    else:
        p[what[0]] = p[what[0]] * 0 + what[1]
    for label, kind, attr in routes(zs, spec):
        for cn in (True, False):
            tf.reset_default_graph()
            pt = {k: tf.constant(v, pd) for k, v in p.items()}
            kk = {k: v for k, v in kw.items() if k in ('is_reparameterized', 'n_experiments', 'dtype')}
            if cn or rng.randint(2):
                kk['check_numerics'] = cn
            err = None
            try:
                _, onode, _ = make(zs, spec, kind, attr, pt, kk, tf.constant(x, sd))
                with session() as sess:
                    sess.run(onode.cond_log_p)
            except tf.errors.InvalidArgumentError as e:
                err = e
            rec.check((err is not None) == cn, 'check_numerics',
                      'check_numerics=%s: log density %s' % (cn, 'did not raise' if cn else 'raised'),
                      route=label, **ctx)
            rec.event('numerics parity')
            rec.case((spec.name, label, 'numerics', cn, pd))


def special(prm, rec):
    """Legacy Empirical and Implicit nodes."""
    import zhusuan as zs
    from zhusuan.legacy.distributions import special as sp
    rng = np.random.RandomState(prm['seed'])
    for dt in (tf.float32, tf.float64, tf.int32):
        for cont in (None, True, False):
            tf.reset_default_graph()
            bs, vs, g = [int(v) for v in rng.randint(1, 4, 2)], [int(rng.randint(1, 4))], int(rng.randint(0, 3))
            obs = np.ones(bs + vs)
            ref = sp.Empirical(dt, bs, value_shape=vs, group_ndims=g, is_continuous=cont)
            with zs.BayesianNet(observed={'e': tf.constant(obs, dt)}) as bn:
                e = zs.Empirical('e', dt, bs, group_ndims=g, value_shape=vs, is_continuous=cont)
            want = dt.is_floating if cont is None else cont
            ctx = {'dtype': dt.name, 'is_continuous': cont, 'seed': prm['seed']}
            d = e.dist
            rec.check(d.is_continuous == want and ref.is_continuous == want, 'empirical-continuous',
                      'is_continuous %s' % d.is_continuous, **ctx)
            rec.check(d.dtype == dt and d.group_ndims == g and d.get_batch_shape().as_list() == bs and
                      d.get_value_shape().as_list() == vs, 'empirical', 'Empirical node lost an argument', **ctx)
            rec.check(e.is_observed() and bn['e'] is e, 'empirical-observed', 'not observed', **ctx)
            s = tf.constant(rng.normal(0, 1, bs + vs), tf.float64)
            with zs.BayesianNet() as bn2:
                im = zs.Implicit('i', s, value_shape=vs, group_ndims=g)
            rec.check(im.dist.dtype == tf.float64 and im.dist.group_ndims == g and
                      im.dist.get_batch_shape().as_list() == bs, 'implicit', 'Implicit lost an argument', **ctx)
            with session() as sess:
                a, b, c = sess.run([im.tensor, s, e.tensor])
            rec.check(np.array_equal(a, b), 'implicit-value', 'Implicit node is not its samples', got=a, **ctx)
            rec.check(np.array_equal(c, obs), 'empirical-value', 'Empirical node is not its observation', **ctx)
            rec.event('special nodes', 2)
            rec.case(('special', dt.name, cont, bs, vs, g))
            rec.evaluations += 1
