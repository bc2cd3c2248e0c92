"""C04: batching, broadcasting and grouping against element-wise evaluation."""
import numpy as np
import tensorflow as tf
from zsmon import dists as ds, shapes as sh
from zsmon.checks.c01 import judge
from zsmon.core import subseed
from zsmon.tfu import session, Feeder

RULE = ('Each evaluation is one log_prob or prob tensor of a batched distribution whose '
        'positions all have different parameters and values; every element is compared with the '
        'float64 reference at that position (summed/multiplied over the grouped axes) and with '
        'the library\'s own evaluation of the flattened batch. Non-trivial and distinct: a new '
        '(distribution, parameter shapes, value shape, group_ndims, shape knowledge) combination '
        'with at least two positions or a reduced axis.')
ASSUMPTIONS = ['parameters of moderate size; extreme values are judged by C01']
REQUIRED = {'log_prob points': 5000, 'grouped': 200, 'broadcast': 200, 'flat comparison': 200}


def items(tier, seed):
    reps, n = (6, 16) if tier == 'quick' else (16, 40)
    return [(s.name, {'n': n, 'seed': subseed('c04', seed, s.name, r)})
            for r in range(reps) for s in ds.SPECS]


def run(name, prm, rec):
    import zhusuan as zs
    spec = ds.BY_NAME[name]
    rng = np.random.RandomState(prm['seed'])
    for _ in range(prm['n']):
        cfg = sh.config(rng, spec)
        pd = ('float64', 'float32')[rng.randint(2)]
        sd = spec.sample_dtypes[rng.randint(len(spec.sample_dtypes))] if spec.discrete else pd
        if sd == 'float16':
            sd = 'int32'
        p = ds.gen_params(spec, rng, cfg['shapes'], 'mod', pd, cfg['ev'])
        x = ds.rnd(sh.grid_values(spec, rng, p, cfg, 'mod'), sd)
        vr = spec.vrank
        with np.errstate(all='ignore'):
            bp = {k: v for k, v in p.items()}
            ref, sc = spec.logp(bp, x)
        full = np.broadcast_shapes(cfg['batch'], cfg['given'])
        ref, sc = np.broadcast_to(ref, full), np.broadcast_to(sc, full)
        g = int(rng.randint(0, len(cfg['batch']) + 1))
        tf.reset_default_graph()
        fd = Feeder()
        hows = {k: sh.HOWS[rng.randint(4)] for k in list(p) + ['x', 'g']}
        const = .3
        if rng.rand() < .5:     # everything of known rank, sizes (partly) hidden
            hows = {k: sh.HOWS[2 + rng.randint(2)] for k in hows}
            const = 0.
        pt = {k: fd.tensor(v, pd, hows[k], rng, const=rng.rand() < const) for k, v in p.items()}
        xt = fd.tensor(x, sd, hows['x'], rng)
        kw = {'dtype': tf.as_dtype(sd)} if spec.discrete else {}
        gt = g if rng.rand() < .6 else fd.tensor(g, 'int32', 'static', const=rng.rand() < .5)
        d = spec.ctor(zs.distributions, pt, group_ndims=gt, **kw)
        fetch = {'lp': d.log_prob(xt), 'p': d.prob(xt)}
        # the library itself on the flattened, explicitly broadcast batch
        flat = None
        if not spec.scalar_params or True:
            vs = tuple(spec.value_shape(cfg['ev']))
            es = spec.event_shape(cfg['ev'])
            n = int(np.prod(full))
            fp = {k: (p[k] if k in spec.scalar_params else np.broadcast_to(
                p[k], full + tuple(es[k])).reshape((n,) + tuple(es[k]))) for k in p}
            fx = np.broadcast_to(x, full + vs).reshape((n,) + vs)
            dflat = spec.ctor(zs.distributions, {k: tf.constant(v, pd) for k, v in fp.items()}, **kw)
            fetch['flat'] = dflat.log_prob(tf.constant(fx.astype(sd)))
        with session() as sess:
            out = sess.run(fetch, fd.feed)
        ax = tuple(range(-g, 0))
        rg, sg = (ref.sum(ax), sc.sum(ax)) if g else (ref, sc)
        ctx = {'dist': name, 'param_shapes': {k: list(v.shape) for k, v in p.items()},
               'given_shape': list(x.shape), 'group_ndims': g, 'dtype': pd, 'sample_dtype': sd,
               'static': hows}
        judge(rec, out['lp'], rg, sg, pd, 'batched-log_prob', ctx)
        judge(rec, out['p'], rg, sg * 2, pd, 'batched-prob', ctx, prob=True)
        lf = out['flat'].reshape(full).astype(np.float64)
        lf = lf.sum(ax) if g else lf
        if np.shape(out['lp']) == lf.shape:
            rec.event('flat comparison')
            rec.check(np.all(np.abs(out['lp'] - lf) <= 2 * ds.tol(pd, sg)), 'batched-vs-flat',
                      'batched result differs from the flattened batch', **ctx)
        if g:
            rec.event('grouped')
        bc = any(v.shape != cfg['batch'] + tuple(spec.event_shape(cfg['ev'])[k])
                 for k, v in p.items() if k not in spec.scalar_params) or cfg['given'] != cfg['batch']
        if bc:
            rec.event('broadcast')
        rec.case((name, ctx['param_shapes'], ctx['given_shape'], g, pd, sd, sorted(hows.items())),
                 nontrivial=ref.size > 1 or g > 0, sample=ctx)
        rec.evaluations += 1
