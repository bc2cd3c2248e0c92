"""C03: static and dynamic shape and dtype contract."""
import numpy as np
import tensorflow as tf
from zsmon import dists as ds, shapes as sh
from zsmon.core import subseed
from zsmon.tfu import session, Feeder

RULE = ('Each evaluation is one tensor (sample, log_prob, prob, batch_shape, value_shape) whose '
        'run-time shape and dtype are compared with the documented contract and with the static '
        'shape announced before the run. Distinct: (distribution, parameter shapes, which axes '
        'are statically known, n_samples form, group_ndims form, given shape, dtypes).')
ASSUMPTIONS = ['static shapes are required to be complete only when parameters, given value, '
               'n_samples and group_ndims are all statically known']
REQUIRED = {'sample': 500, 'log_prob': 500, 'static complete': 100, 'zero-size batch': 30,
            'n_samples tensor': 100}


def items(tier, seed):
    reps, n = (6, 16) if tier == 'quick' else (16, 40)
    return [(s.name, {'n': n, 'seed': subseed('c03', seed, s.name, r)})
            for r in range(reps) for s in ds.SPECS]


def static_ok(static, real):
    if static.ndims is None:
        return True
    dims = static.as_list()
    return len(dims) == len(real) and all(a is None or a == b for a, b in zip(dims, real))


def run(name, prm, rec):
    import zhusuan as zs
    spec = ds.BY_NAME[name]
    rng = np.random.RandomState(prm['seed'])
    for it in range(prm['n']):
        cfg = sh.config(rng, spec, zero=True)
        pd = spec.param_dtypes[rng.randint(len(spec.param_dtypes))]
        sds = spec.sample_dtypes if spec.discrete else (pd,)
        sd = sds[rng.randint(len(sds))]
        p = ds.gen_params(spec, rng, cfg['shapes'], 'mod', pd, cfg['ev'])
        x = np.asarray(sh.grid_values(spec, rng, p, cfg, 'mod'), sd)
        vs = tuple(spec.value_shape(cfg['ev']))
        full = np.broadcast_shapes(cfg['batch'], cfg['given'])
        g = int(rng.randint(0, len(cfg['batch']) + 1))
        tf.reset_default_graph()
        fd = Feeder()
        mode = rng.randint(3)   # all static, one style for all, or mixed
        style = sh.HOWS[rng.randint(4)]
        hows = {k: 'static' if mode == 0 else style if mode == 1 else sh.HOWS[rng.randint(4)]
                for k in list(p) + ['x']}
        for k in spec.scalar_params:
            if rng.rand() < .5:
                hows[k] = 'static'
        pt = {k: fd.tensor(v, pd, hows[k], rng) for k, v in p.items()}
        xt = fd.tensor(x, sd, hows['x'], rng)
        kw = {'dtype': tf.as_dtype(sd)} if spec.discrete else {}
        gform = ('int', 'const', 'feed')[rng.choice(3, p=[.5, .25, .25])] if mode else 'int'
        gt = g if gform == 'int' else fd.tensor(g, 'int32', const=gform == 'const')
        nexp_known = True
        if 'n_experiments' in spec.extra and rng.rand() < .4:
            nexp_known = bool(rng.randint(2))
            kw['n_experiments'] = fd.tensor(3, 'int32', 'static' if nexp_known else 'unknown')
        d = spec.ctor(zs.distributions, pt, group_ndims=gt, **kw)
        nform = ('none', 'int', 'const', 'feed')[rng.randint(4)] if mode else \
            ('none', 'int')[rng.randint(2)]
        ns = int(rng.choice([1, 2, 5, 0])) if nform != 'none' else None
        nt = None if nform == 'none' else ns if nform == 'int' else \
            fd.tensor(ns, 'int32', ('static', 'unknown')[rng.randint(2)], const=nform == 'const')
        lead = () if ns is None else (ns,)
        ctx = {'dist': name, 'param_shapes': {k: list(v.shape) for k, v in p.items()},
               'given_shape': list(x.shape), 'group_ndims': [g, gform], 'n_samples': [ns, nform],
               'dtypes': [pd, sd], 'static': {k: str(t.get_shape()) for k, t in pt.items()},
               'given_static': str(xt.get_shape())}
        params_known = all(t.get_shape().is_fully_defined() for t in pt.values())
        want = {
            'batch_shape': (d.batch_shape, d.get_batch_shape(), cfg['batch']),
            'value_shape': (d.value_shape, d.get_value_shape(), vs)}
        tensors = {
            'log_prob': (d.log_prob(xt), full[:len(full) - g], pd),
            'prob': (d.prob(xt), full[:len(full) - g], pd)}
        if spec.samples:
            tensors['sample'] = (d.sample(nt), lead + cfg['batch'] + vs, sd)
            if rng.rand() < .3 and nform != 'none':
                tensors['sample once'] = (d.sample(), cfg['batch'] + vs, sd)
        rec.check(d.dtype == tf.as_dtype(sd) and d.param_dtype == tf.as_dtype(pd),
                  'declared-dtype', 'declared dtypes %s/%s' % (d.dtype, d.param_dtype), **ctx)
        with session() as sess:
            dyn, out = sess.run([{k: v[0] for k, v in want.items()},
                                 {k: v[0] for k, v in tensors.items()}], fd.feed)
        for k, (t, static, real) in want.items():
            rec.check(tuple(dyn[k].tolist()) == tuple(real) and dyn[k].dtype == np.int32,
                      k, 'dynamic %s is %s, expected %s' % (k, dyn[k], real), **ctx)
            rec.check(static_ok(static, real), k + '-static',
                      'static %s %s contradicts %s' % (k, static, real), **ctx)
            rec.check(not params_known or static.is_fully_defined(), k + '-incomplete',
                      'static %s %s although parameters are known' % (k, static), **ctx)
            rec.event(k)
        for k, (t, real, dt) in tensors.items():
            v = out[k]
            rec.check(v.shape == tuple(real), k + '-shape',
                      'run-time shape %s, expected %s' % (v.shape, real), **ctx)
            rec.check(static_ok(t.get_shape(), v.shape), k + '-static',
                      'static shape %s contradicts run-time %s' % (t.get_shape(), v.shape), **ctx)
            rec.check(t.dtype == tf.as_dtype(dt) and v.dtype == np.dtype(dt), k + '-dtype',
                      'dtype %s / %s, expected %s' % (t.dtype, v.dtype, dt), **ctx)
            known = params_known and nexp_known
            if k in ('log_prob', 'prob'):
                known = known and xt.get_shape().is_fully_defined() and gform == 'int'
            else:
                known = known and (nform in ('none', 'int') or k == 'sample once')
            if known:
                rec.event('static complete')
                rec.check(t.get_shape().is_fully_defined(), k + '-incomplete',
                          'static shape %s although everything is known' % t.get_shape(), **ctx)
            rec.event(k.split()[0])
        if 0 in cfg['batch']:
            rec.event('zero-size batch')
        if nform in ('const', 'feed'):
            rec.event('n_samples tensor')
        rec.case(sorted(ctx.items(), key=str), sample=ctx)
        rec.evaluations += len(want) + len(tensors) - 1
