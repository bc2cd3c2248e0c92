"""C24: log_mean_exp and log_sum_exp are exact and stable."""
import numpy as np
import tensorflow as tf
from zsmon.core import subseed
from zsmon.tfu import session, hide

RULE = ('Each evaluation is one reduction: value, shape and gradient of log_mean_exp/log_sum_exp for random tensors of '
        'rank 0-4, both dtypes, every kind of axis argument, both keepdims, entries from tiny to the limits of the '
        'dtype with infinities and ties, compared with a float64 (long double) reference. merge_dicts on random '
        'dictionaries with overlapping keys and several value kinds. Distinct: (function, shape, axis form, keepdims, '
        'dtype, magnitude, input).')
ASSUMPTIONS = ['gradients are judged where the maximum of the reduced entries is finite']
REQUIRED = {'log_mean_exp': 300, 'log_sum_exp': 300, 'infinite entries': 150, 'large magnitude': 150, 'gradient': 150,
            'axis list': 100, 'no axes': 40, 'tiny gradients': 100, 'axis None': 60, 'negative axis': 80, 'merge_dicts': 300}


def items(tier, seed):
    n, reps = (60, 16) if tier == 'quick' else (300, 64)
    return [('reduce', {'n': n, 'seed': subseed('c24', seed, r)}) for r in range(reps)] + \
        [('merge', {'n': 4 * n, 'seed': subseed('c24m', seed, r)}) for r in range(4)]


def run(name, prm, rec):
    globals()['do_' + name](np.random.RandomState(prm['seed']), prm, rec)


def reference(x, axes, mean):
    x = np.asarray(x, np.longdouble)
    if not axes:
        return x.astype(np.float64), None
    m = x.max(axes, keepdims=True)
    m = np.where(np.isfinite(m), m, 0)
    with np.errstate(all='ignore'):
        e = np.exp(x - m)
        s = e.sum(axes, keepdims=True)
        r = np.log(s) + m
        soft = e / s
        if mean:
            r = r - np.log(np.longdouble(np.prod([x.shape[a] for a in axes])))
    return r.astype(np.float64), soft.astype(np.float64)


def do_reduce(rng, prm, rec):
    from zhusuan.utils import log_mean_exp, log_sum_exp
    tf.reset_default_graph()
    sess = session(1, 1)
    work, feeds = [], {}
    for _ in range(prm['n']):
        nd = int(rng.randint(0, 5))
        shape = tuple(int(v) for v in rng.randint(1, 5, nd))
        dt = ('float32', 'float64')[rng.randint(2)]
        mag = float(rng.choice([1e-3, 1., 30., 500., 1e4, 1e30]))
        x = rng.normal(0, mag, shape)
        inf = rng.rand() < .3
        if inf:
            x = np.where(rng.rand(*shape) < .4, rng.choice([-np.inf, -np.inf, -np.inf, np.inf], shape), x)
        elif rng.rand() < .2:
            x = np.round(x)
        if rng.rand() < .1:
            x = np.where(rng.rand(*shape) < .5, np.finfo(dt).max * .9, -np.finfo(dt).max * .9)
            inf = False
            mag = 1e38
        x = np.asarray(x, dt)
        form = ('none', 'int', 'neg', 'list', 'tuple', 'neglist', 'default', 'empty')[rng.randint(8)]
        if nd == 0:
            form = ('none', 'default')[rng.randint(2)]
        if form in ('none', 'default'):
            axis, axes = None, tuple(range(nd))
        elif form in ('int', 'neg'):
            a = int(rng.randint(nd))
            axis, axes = (a if form == 'int' else a - nd), (a,)
        elif form == 'empty':
            axis, axes = [[], ()][rng.randint(2)], ()
        else:
            axes = tuple(int(v) for v in rng.permutation(nd)[:rng.randint(1, nd + 1)])
            axis = [a - nd if form == 'neglist' and rng.randint(2) else a for a in axes]
            if form == 'tuple':
                axis = tuple(axis)
        keep = bool(rng.randint(2))
        fn = (log_mean_exp, log_sum_exp)[rng.randint(2)]
        kw = {}
        if form != 'default':
            kw['axis'] = axis
        if keep or rng.randint(2):
            kw['keepdims'] = keep
        how = ('static', 'rank', 'unknown', 'const', 'raw')[rng.randint(5)]
        if how == 'const':
            t = tf.constant(x)
        elif how == 'raw':
            t = x
        else:
            t = tf.placeholder(dt, hide(shape, how, rng))
            feeds[t] = x
        out = fn(t, **kw)
        grad = tf.gradients(out, t)[0] if how not in ('raw',) and mag < 1e4 else None
        ctx = {'fn': fn.__name__, 'shape': shape, 'axis': axis, 'form': form, 'keepdims': keep, 'dtype': dt,
               'magnitude': mag, 'declared': how}
        work.append((ctx, x, axes, keep, out, grad, inf))
    res = sess.run([[w[4], w[5] if w[5] is not None else tf.zeros([])] for w in work], feeds)
    for (ctx, x, axes, keep, out, grad, inf), (got, g) in zip(work, res):
        want, soft = reference(x, axes, ctx['fn'] == 'log_mean_exp')
        if not keep and axes:
            want_s = want.reshape([n for i, n in enumerate(x.shape) if i not in axes])
        else:
            want_s = want
        eps = np.finfo(ctx['dtype']).eps
        with np.errstate(all='ignore'):
            tol = eps * (40 + 8 * np.abs(want_s))
            same = (want_s == got) | (np.abs(got.astype(np.longdouble) - want_s) <= tol)
        rec.check(np.shape(got) == np.shape(want_s) and got.dtype == x.dtype and bool(np.all(same)), 'value',
                  '%s differs from the exact value' % ctx['fn'], got=got, want=want_s, x=x, **ctx)
        if grad is not None and np.shape(got) == np.shape(want_s):
            sm = soft if soft is not None else np.ones_like(x)
            fin = np.abs(x[np.isfinite(x)])
            with np.errstate(all='ignore'):
                # groups without a finite maximum have no softmax
                ok = np.isfinite(sm) & (np.isfinite(x.max(axes, keepdims=True)) if axes else np.isfinite(x))
                near = np.abs(g - sm) <= 200 * eps * (1 + np.max(fin, initial=0)) * sm + 1e3 * np.finfo(ctx['dtype']).tiny
                rec.event('tiny gradients', int(np.sum((sm < 1e-9) & (sm > 1e-30))))
            rec.check(np.shape(g) == x.shape and np.all(near[ok] if np.ndim(near) else near | ~ok), 'gradient', 'gradient of %s is not the softmax' % ctx['fn'], got=g, want=sm, x=x, **ctx)
            rec.event('gradient')
        rec.event(ctx['fn'])
        if inf:
            rec.event('infinite entries')
        if ctx['magnitude'] >= 500:
            rec.event('large magnitude')
        if ctx['form'] in ('list', 'tuple', 'neglist'):
            rec.event('axis list')
        if ctx['form'] in ('neg', 'neglist'):
            rec.event('negative axis')
        if ctx['form'] == 'empty':
            rec.event('no axes')
        if ctx['form'] in ('none', 'default'):
            rec.event('axis None')
        rec.case((ctx, x.tobytes()), nontrivial=x.size > 1, sample=ctx)
    sess.close()


def do_merge(rng, prm, rec):
    from zhusuan.utils import merge_dicts
    pool = ['a', 'b', 'x', 'y', 1, (1, 2), None]
    vals = [0, None, [], 'v', np.zeros(2), {}, 3.5, False, ()]
    for _ in range(prm['n']):
        ds = []
        for _ in range(int(rng.randint(0, 5))):
            d = {}
            for i in rng.permutation(len(pool))[:rng.randint(0, len(pool))]:
                v = vals[rng.randint(len(vals))]
                d[pool[i]] = [v] if rng.randint(2) else v
            ds.append(d)
        keep = [list(d.items()) for d in ds]
        want = {}
        for d in ds:
            for k in d:
                want[k] = d[k]
        got = merge_dicts(*ds)
        ctx = {'dicts': [[repr(k) for k in d] for d in ds]}
        rec.check(isinstance(got, dict) and set(got) == set(want) and all(got[k] is want[k] for k in want), 'merge',
                  'merged dictionary differs', got=repr(got), want=repr(want), **ctx)
        rec.check(all(len(a) == len(d) and all(k in d and d[k] is v for k, v in a) for a, d in zip(keep, ds)) and
                  all(got is not d for d in ds), 'merge-mutates', 'merge_dicts modified or returned an input', **ctx)
        got['new'] = 1
        rec.check(all('new' not in d for d in ds), 'merge-aliases', 'merged dictionary is shared with an input', **ctx)
        rec.event('merge_dicts')
        rec.case(('merge', ctx), nontrivial=len(ds) > 1, sample=ctx)
