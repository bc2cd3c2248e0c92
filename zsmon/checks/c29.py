"""C29: what an expression evaluates to does not depend on where in a graph it is built."""
import threading
import numpy as np
import tensorflow as tf
from scipy import stats
from zsmon import dists as ds, shapes as sh
from zsmon.core import subseed
from zsmon.models import random_net
from zsmon.tfu import session

RULE = ('Each evaluation is one expression (log density, density and shapes of a distribution; log joint and '
        'conditional log densities of an observed net; objectives, their surrogate costs and importance estimates on '
        '(sample, log density) pairs; log_mean_exp / log_sum_exp) built in one place of a graph - a tf.cond branch, '
        'a tf.while_loop body, tf.map_fn, name / variable / device scopes, control dependencies, a template, '
        'tf.function, another thread, another graph, the object built outside and used inside or inside and outside '
        '- with its value and its gradient compared with the same expression built plainly in a graph of its own. '
        'Draws made inside loops are compared in law with plain draws and must be fresh in every iteration; nets '
        'sampled inside loops must be self-consistent in every iteration. Distinct: (expression, context, where the '
        'object was built, input sets, dtype, inputs known statically).')
ASSUMPTIONS = ['expressions that create variables (reinforce, flows, samplers) are not put inside control flow, where '
               'TensorFlow itself forbids it',
               'a memoised tensor (log joint of one net, value of one objective) is used where it was first built']
REQUIRED = {'cond': 60, 'while': 60, 'map': 60, 'scopes': 60, 'deps': 60, 'template': 60, 'thread': 60,
            'function': 50, 'gradient': 1500, 'outer object': 150, 'reused after control flow': 20, 'dist': 200,
            'net': 90, 'objective': 90, 'utils': 90, 'loop draws': 30, 'loop nets': 30}

CONTEXTS = ('cond', 'while', 'map', 'scopes', 'deps', 'template', 'thread', 'function')


def items(tier, seed):
    reps, n = (1, 5) if tier == 'quick' else (10, 12)
    out = [('dist', {'name': s.name, 'n': n, 'seed': subseed('c29', seed, s.name, r)})
           for r in range(reps) for s in ds.SPECS]
    out += [(k, {'n': n + 2, 'seed': subseed('c29', k, seed, r)}) for r in range(6 * reps)
            for k in ('net', 'objective', 'utils')]
    out += [('draws', {'name': s.name, 'n': 2, 'seed': subseed('c29d', seed, s.name, r)})
            for r in range(reps) for s in ds.SPECS if s.samples]
    out += [('loopnets', {'n': n, 'seed': subseed('c29n', seed, r)}) for r in range(8 * reps)]
    return out


def run(name, prm, rec):
    import zhusuan as zs
    rng = np.random.RandomState(prm['seed'])
    for it in range(prm['n']):
        tf.reset_default_graph()
        globals()['do_' + name](zs, rng, prm, rec, it)


# -- expressions --------------------------------------------------------------
class Expr(object):
    """inputs: list of dicts {name: array} of equal shapes; make(t) builds an object from tensors,
    use(obj, t) gives the output tensors; wrt: inputs to differentiate by; outer: the object may be
    built outside a context and used inside."""

    def __init__(self, label, kind, inputs, make, use, wrt, outer, tol, weights=None):
        self.label, self.kind, self.inputs, self.make, self.use = label, kind, inputs, make, use
        self.wrt, self.outer, self.tol = wrt, outer, tol


def floats(out):
    return [tf.cast(tf.convert_to_tensor(o), tf.float64) for o in out]


def total(outs):
    return sum(tf.reduce_sum(o * tf.cos(tf.reshape(tf.cast(tf.range(tf.size(o)), tf.float64), tf.shape(o))))
               for o in outs)


def grads(y, xs):
    g = tf.gradients(y, xs)
    return [tf.zeros_like(x) if v is None else tf.convert_to_tensor(v) for v, x in zip(g, xs)]


def plain(e):
    """values and gradients for every input set, each in a graph of its own"""
    out = []
    for inp in e.inputs:
        with tf.Graph().as_default() as g, session(1, 1, graph=g) as sess:
            t = {k: tf.constant(v) for k, v in inp.items()}
            o = floats(e.use(e.make(t), t))
            out.append(sess.run((o, grads(total(o), [t[k] for k in e.wrt]))))
    return out


def in_context(ctx, e, t, stack, rng, outer):
    """The output tensors of every input set used, one list per set, as [(set, outputs)]."""
    n = len(e.inputs)
    dt = None

    def ev(tt):
        return floats(e.use(outer if outer is not None else e.make(tt), tt))
    if ctx == 'plain':
        return [(0, ev(t))]
    if ctx == 'cond':
        pred = tf.placeholder_with_default(bool(rng.randint(2)), [])
        form = rng.randint(3)
        nout = e.nout
        other = lambda: [tf.zeros([], tf.float64) for _ in range(nout)]
        which = bool(rng.randint(2))
        if form == 0:      # both branches
            return [(0, seq(tf.cond(pred, lambda: ev(t), lambda: ev(t))))]
        if form == 1:
            p = tf.placeholder_with_default(which, [])
            return [(0, seq(tf.cond(p, (lambda: ev(t)) if which else other, other if which else (lambda: ev(t)))))]
        p = tf.placeholder_with_default(True, [])       # nested
        return [(0, seq(tf.cond(p, lambda: seq(tf.cond(pred, lambda: ev(t), lambda: ev(t))), other)))]
    if ctx == 'while':
        w = tf.constant(rng.uniform(.5, 2., n))

        def body(i, *acc):
            # with an outer object only the first input set is used
            tt = t if outer is not None else {k: tf.gather(v, i) for k, v in stack.items()}
            if outer is None:
                for k, v in tt.items():
                    v.set_shape(t[k].get_shape())
            return [i + 1] + [a.write(i, o) for a, o in zip(acc, ev(tt))]
        arrays = [tf.TensorArray(tf.float64, n, infer_shape=False) for _ in range(e.nout)]
        r = tf.while_loop(lambda i, *a: i < n, body, [tf.constant(0)] + arrays,
                          parallel_iterations=int(rng.randint(1, 4)))
        return [(0 if outer is not None else j, [a.read(j) for a in r[1:]]) for j in range(n)]
    if ctx == 'map':
        ks = sorted(stack)

        def f(args):
            tt = dict(zip(ks, args))
            if outer is not None:
                tt = t
            return ev(tt)
        r = tf.map_fn(f, [stack[k] for k in ks], dtype=[tf.float64] * e.nout)
        return [(0 if outer is not None else j, [o[j] for o in r]) for j in range(n)]
    if ctx == 'scopes':
        with tf.name_scope('a'), tf.variable_scope('b', reuse=tf.AUTO_REUSE), tf.device('/cpu:0'):
            first = ev(t)
            with tf.name_scope(None), tf.variable_scope('b', reuse=True):
                return [(0, first), (0, ev(t))]
    if ctx == 'deps':
        with tf.control_dependencies([tf.identity(v) for v in stack.values()] + [tf.no_op()]):
            return [(0, ev(t))]
    if ctx == 'template':
        f = tf.make_template('tmpl', lambda: ev(t))
        return [(0, f()), (0, f())]
    if ctx == 'thread':
        g, got = tf.get_default_graph(), []

        def work():
            with g.as_default():
                try:
                    got.append((0, ev(t)))
                except Exception as ex:
                    got.append(ex)
        th = threading.Thread(target=work)
        th.start()
        th.join()
        if isinstance(got[0], Exception):
            raise got[0]
        return got
    if ctx == 'function':
        import tensorflow.compat.v2 as tf2
        ks = sorted(t)

        @tf2.function
        def f(*args):
            return ev(dict(zip(ks, args)))
        return [(0, seq(f(*[t[k] for k in ks])))]
    raise ValueError(ctx)


def seq(x):
    return list(x) if isinstance(x, (list, tuple)) else [x]


def judge(e, rng, rec):
    ref = plain(e)
    e.nout = len(ref[0][0])
    known = bool(rng.randint(2))
    hide = 'static' if known else ('unknown' if e.kind in ('dist', 'utils') else 'static')
    feed, t, stack = {}, {}, {}
    tf.reset_default_graph()
    for k, v in e.inputs[0].items():
        if hide == 'static' and rng.randint(2):
            t[k] = tf.constant(v)
        else:
            t[k] = tf.placeholder(v.dtype, v.shape if hide == 'static' else None)
            feed[t[k]] = v
        stack[k] = tf.stack([t[k]] + [tf.constant(i[k]) for i in e.inputs[1:]])
    todo = [CONTEXTS[i] for i in rng.permutation(len(CONTEXTS))[:4]]
    outer = None
    # in turn: an object first used in each kind of control flow and then in
    # another and plainly; anything
    turn = e.turn % 5
    if e.outer and (turn < 3 or rng.rand() < .6):
        outer = e.make(t)
        if turn < 3:
            todo = [CONTEXTS[turn]] + [c for c in todo if c != CONTEXTS[turn]][:3] + ['plain']
        else:
            if rng.randint(2):
                todo.append('plain')        # the object again after control flow used it
            if rng.randint(2):
                todo.insert(0, 'plain')
    work = []
    for i, ctx in enumerate(todo):
        # tf.function captures outer tensors, but tf.gradients does not see captures of
        # placeholders that are also arguments: use arguments only
        o = outer if ctx != 'function' and (ctx == 'plain' or turn < 3 and not i or rng.rand() < .7) else None
        res = in_context(ctx, e, t, stack, rng, o)
        gr = []
        for j, outs in res:
            gr.append(grads(total(outs), [t[k] for k in e.wrt]) if j == 0 else [])
        work.append((ctx, o is not None, res, gr, any(c in ('cond', 'while', 'map') for c in todo[:i])))
    with session(1, 1) as sess:
        got = sess.run([([o for _, o in w[2]], w[3]) for w in work], feed)
    for (ctx, out, res, gr, after), (vals, gvals) in zip(work, got):
        c = {'expression': e.label, 'context': ctx, 'object built': 'outside' if out else 'inside', 'contexts': todo,
             'static': known}
        for (j, _), o, g in zip(res, vals, gvals):
            for i, (a, b) in enumerate(zip(o, ref[j][0])):
                rec.check(same(a, b, e.tol), 'value', 'the value differs from that of the same expression built '
                          'plainly', output=i, input_set=j, got=a, want=b, **c)
            if j == 0:
                scale = max([1.] + [float(np.max(np.abs(b))) if b.size else 0. for b in ref[0][1]])
                for k, a, b in zip(e.wrt, g, ref[0][1]):
                    rec.check(same(a, b, e.tol * 10, scale), 'gradient', 'the gradient differs from that of the same '
                              'expression built plainly', input=k, got=a, want=b, **c)
                    rec.event('gradient')
        if ctx != 'plain':
            rec.event(ctx)
        if out:
            rec.event('outer object')
            if ctx == 'plain' and after:
                rec.event('reused after control flow')
        rec.event(e.kind)
        rec.case((e.label, ctx, out, len(e.inputs), known, e.key), sample=c)


def same(a, b, tol, scale=None):
    a, b = np.asarray(a, np.float64), np.asarray(b, np.float64)
    if a.shape != b.shape:
        return False
    if not a.size:
        return True
    s = np.maximum(1., np.abs(b)) if scale is None else scale
    with np.errstate(all='ignore'):
        return bool(np.all((a == b) | (np.isnan(a) & np.isnan(b)) | (np.abs(a - b) <= tol * s)))


# -- the expressions ----------------------------------------------------------
def do_dist(zs, rng, prm, rec, it):
    spec = ds.BY_NAME[prm['name']]
    D = zs.distributions
    cfg = sh.config(rng, spec)
    pd = ('float32', 'float64')[rng.randint(2)]
    kw = {}
    if 'n_experiments' in spec.extra:
        kw['n_experiments'] = int(rng.randint(2, 6))
    kwd = dict(kw)
    sd = pd
    if spec.discrete:
        sd = ('int32', 'float32')[rng.randint(2)]
        if sd not in spec.sample_dtypes:
            sd = spec.sample_dtypes[0]
        kwd['dtype'] = tf.as_dtype(sd)
    group = int(rng.randint(0, len(cfg['batch']) + 1))
    kwd['group_ndims'] = group
    ls = rng.randint(2)
    n = int(rng.randint(2, 4))
    inputs = []
    x0 = None
    for i in range(n):
        p = ds.gen_params(spec, rng, cfg['shapes'], 'mod', pd, cfg['ev'])
        if spec.name == 'Uniform':
            p['minval'], p['maxval'] = -1. - np.abs(p['minval']), 1. + np.abs(p['maxval'])
        x = sh.grid_values(spec, rng, p, dict(cfg, given=cfg['batch']), 'mod', **kw)
        if 'std' in p and ls:
            p['logstd'] = np.log(p.pop('std'))
        d = {'p:' + k: np.asarray(v, pd) for k, v in p.items()}
        d['x'] = np.asarray(x, sd)
        inputs.append(d)

    def make(t):
        return spec.ctor(D, {k[2:]: v for k, v in t.items() if k.startswith('p:')}, **kwd)

    def use(d, t):
        return [d.log_prob(t['x']), d.prob(t['x']), d.batch_shape, d.get_value_shape().as_list()
                if d.get_value_shape().is_fully_defined() else d.value_shape]
    wrt = [k for k in inputs[0] if k.startswith('p:')] + ([] if spec.discrete else ['x'])
    e = Expr((spec.name, kw, group), 'dist', inputs, make, use, wrt, True, 2e-4 if pd == 'float32' else 1e-10)
    e.key = (pd, sd)
    e.turn = it
    judge(e, rng, rec)


def do_net(zs, rng, prm, rec, it):
    net = random_net(rng, int(rng.randint(2, 6)))
    inputs = [{n.name: np.asarray(n.value(rng)) for n in net} for _ in range(int(rng.randint(2, 4)))]
    for k in range(1, len(inputs)):
        inputs[k] = {n: v for n, v in inputs[k].items()}

    def make(t):
        @zs.meta_bayesian_net(scope='net' if rng.randint(2) else None, reuse_variables=False)
        def f():
            bn = zs.BayesianNet()
            vals = {}
            for nd in net:
                vals[nd.name] = nd.add(zs, bn, vals, 'shortcut')
            return bn
        return f()

    def use(m, t):
        bn = m.observe(**t)
        lj = bn.log_joint()
        return [lj] + bn.cond_log_prob([n.name for n in net]) + [bn[net[-1].name] * 1.]
    cont = [n.name for n in net if not n.spec.discrete]
    e = Expr([(n.kind, n.parents, n.group) for n in net], 'net', inputs, make, use, cont, True, 1e-9)
    e.key = len(net)
    e.turn = it
    judge(e, rng, rec)


def do_objective(zs, rng, prm, rec, it):
    K, bsz = int(rng.randint(2, 6)), int(rng.randint(1, 5))
    names = ['z%d' % i for i in range(int(rng.randint(1, 4)))]
    V = zs.variational
    which = ('elbo', 'iw', 'klpq', 'is', 'vimco', 'sgvb')[rng.randint(6)]
    inputs = []
    for _ in range(int(rng.randint(2, 4))):
        d = {}
        for z in names:
            d[z] = rng.normal(0, 1., (K, bsz))
            d['q' + z] = rng.normal(0, 2., (K, bsz))
        d['x'] = rng.normal(0, 1., (bsz,))
        inputs.append(d)
    axis = (0, [0], -2)[rng.randint(3)]
    if which == 'vimco':
        axis = 0

    def make(t):
        def lj(o):
            return sum(-.5 * o[z] ** 2 - .5 * (o['x'] - o[z]) ** 2 for z in names)
        return lj

    def use(lj, t):
        lat = {z: (t[z], t['q' + z]) for z in names}
        obs = {'x': t['x']}
        if which == 'elbo':
            return [V.elbo(lj, obs, latent=lat, axis=axis)]
        if which == 'sgvb':
            o = V.elbo(lj, obs, latent=lat, axis=axis)
            w = V.iw_objective(lj, obs, latent=lat, axis=axis)
            return [o.sgvb(), w.sgvb()]
        if which == 'iw':
            return [V.iw_objective(lj, obs, latent=lat, axis=axis)]
        if which == 'klpq':
            return [V.klpq(lj, obs, latent=lat, axis=axis).importance()]
        if which == 'vimco':
            return [V.iw_objective(lj, obs, latent=lat, axis=axis).vimco()]
        return [zs.is_loglikelihood(lj, obs, latent=lat, axis=axis)]
    e = Expr((which, axis, K, bsz, len(names)), 'objective', inputs, make, use,
             names + ['q' + z for z in names] + ['x'], True, 1e-9)
    e.key = which
    e.turn = it
    judge(e, rng, rec)


def do_utils(zs, rng, prm, rec, it):
    from zhusuan.utils import log_mean_exp, log_sum_exp
    nd = int(rng.randint(1, 4))
    shape = tuple(int(v) for v in rng.randint(1, 5, nd))
    mag = float(rng.choice([1., 100.]))
    inputs = [{'x': rng.normal(0, mag, shape)} for _ in range(int(rng.randint(2, 4)))]
    axis = (None, int(rng.randint(nd)), -1, list(range(nd)))[rng.randint(4)]
    keep = bool(rng.randint(2))

    def use(_, t):
        return [log_mean_exp(t['x'], axis, keep), log_sum_exp(t['x'], axis, keep)]
    e = Expr((shape, axis, keep), 'utils', inputs, lambda t: None, use, ['x'], False, 1e-9)
    e.key = mag
    e.turn = it
    judge(e, rng, rec)


# -- draws --------------------------------------------------------------------
def loop(form, n, f, rng):
    """[n, ...] stack of what f() builds inside a loop."""
    if form == 'map':
        return tf.map_fn(lambda i: f(), tf.range(n), dtype=tf.float64,
                         parallel_iterations=int(rng.randint(1, 11)))
    if form == 'cond-in-map':
        return tf.map_fn(lambda i: tf.cond(tf.equal(i % 2, 0), f, f), tf.range(n), dtype=tf.float64)
    ta = tf.TensorArray(tf.float64, n, infer_shape=False)
    r = tf.while_loop(lambda i, a: i < n, lambda i, a: (i + 1, a.write(i, f())), [tf.constant(0), ta],
                      parallel_iterations=int(rng.randint(1, 11)))
    return r[1].stack()


def do_draws(zs, rng, prm, rec, it):
    spec = ds.BY_NAME[prm['name']]
    ev = spec.ev(rng)
    p = ds.gen_params(spec, rng, {k: () for k in spec.params}, 'mod', 'float64', ev)
    kw = {'n_experiments': int(rng.randint(2, 6))} if 'n_experiments' in spec.extra else {}
    tf.set_random_seed(int(rng.randint(1, 2 ** 30)))
    t = {k: tf.constant(v, tf.float64) for k, v in p.items()}
    mk = lambda: spec.ctor(zs.distributions, t, **kw)
    form = ('while', 'map', 'cond-in-map')[rng.randint(3)]
    k = (None, 3)[rng.randint(2)]
    n = 600
    outside = bool(rng.randint(2))
    d0 = mk() if outside else None
    mode = ('sample', 'node')[rng.randint(2)]

    def f():
        d = d0 if outside else mk()
        if mode == 'node':
            return tf.cast(zs.BayesianNet().stochastic('x', d, n_samples=k).tensor, tf.float64)
        return tf.cast(d.sample(k), tf.float64)
    inside = loop(form, n, f, rng)
    pl = tf.cast(mk().sample(n * (k or 1)), tf.float64)
    c = {'dist': spec.name, 'form': form, 'n_samples': k, 'object built': 'outside' if outside else 'inside',
         'through': mode}
    with session(1, 1) as sess:
        a, b = sess.run([inside, pl])
        a2 = sess.run(inside)
    vs = tuple(spec.value_shape(ev))
    rec.check(a.shape == (n,) + (() if k is None else (k,)) + vs, 'loop-shape', 'shape of the draws', got=a.shape, **c)
    rec.check(b.shape == (n * (k or 1),) + vs, 'plain-shape', 'shape of the draws', got=b.shape, **c)
    flat, ref = a.reshape(n, -1), b.reshape(n * (k or 1), -1)
    if not spec.discrete:
        moving = flat.std(0) > 0
        rec.check(np.all([len(np.unique(v)) > .98 * n for v in flat.T[moving]]) and np.any(moving), 'fresh',
                  'iterations share draws', **c)
        rec.check(not np.array_equal(a, a2), 'runs', 'two runs gave the same draws', **c)
    else:
        rec.check(np.any(flat != flat[:1]) or len(np.unique(ref, axis=0)) == 1, 'fresh',
                  'every iteration drew the same value', **c)
    nv = int(np.prod(vs, dtype=int))
    for j in range(nv):
        u, v = a.reshape(-1, nv)[:, j], b.reshape(-1, nv)[:, j]
        pv = stats.ks_2samp(u, v, method='asymp').pvalue
        rec.check(pv > 1e-10, 'law', 'draws inside the loop have another law than plain draws', p=pv, coordinate=j, **c)
        r = stats.rankdata(flat[:, j])
        if np.std(r) > 0:
            rr = np.corrcoef(r[1:], r[:-1])[0, 1]
            rec.check(abs(rr) < 7. / np.sqrt(n), 'serial', 'draws of successive iterations are correlated',
                      r=float(rr), **c)
    rec.event('loop draws')
    rec.case(('draws', spec.name, form, k, outside, mode), sample=c)


def do_loopnets(zs, rng, prm, rec, it):
    lead = (None, 3)[rng.randint(2)]
    net = random_net(rng, int(rng.randint(2, 6)), kinds=('normal', 'normal_ls', 'laplace', 'gamma', 'poisson', 'beta',
                                                         'bernoulli', 'uniform'), lead=lead)
    obs = {n.name: np.asarray(n.value(rng)) for n in net if rng.rand() < .3}
    n = 5

    @zs.meta_bayesian_net()
    def build():
        bn = zs.BayesianNet()
        vals = {}
        for nd in net:
            vals[nd.name] = nd.add(zs, bn, vals, 'shortcut')
        return bn
    meta = build()
    names = [nd.name for nd in net]

    def one(i):
        bn = meta.observe(**{k: tf.constant(v) for k, v in obs.items()}) if rng.randint(2) or obs else build().observe()
        first = rng.randint(2)
        lj = bn.log_joint() if first else None
        vals = [tf.convert_to_tensor(bn[m]) for m in names]
        lj = bn.log_joint() if lj is None else lj
        return vals + [lj] + bn.cond_log_prob(names)
    with session(1, 1) as sess:
        o = sess.run(tf.map_fn(one, tf.range(n), dtype=[tf.float64] * (2 * len(names) + 1),
                               parallel_iterations=int(rng.randint(1, 5))))
    c = {'net': [(nd.kind, nd.parents, nd.group) for nd in net], 'observed': sorted(obs), 'n_samples': lead}
    m = len(names)
    for i in range(n):
        vals = {k: o[j][i] for j, k in enumerate(names)}
        for k, v in obs.items():
            rec.check(np.array_equal(vals[k], v), 'observed', 'observed node does not carry its value', **c)
        want = [nd.logp(vals) for nd in net]
        for j, nd in enumerate(net):
            rec.check(same(np.broadcast_to(o[m + 1 + j][i], np.broadcast_shapes(o[m + 1 + j][i].shape, want[j].shape)),
                           np.broadcast_to(want[j], np.broadcast_shapes(o[m + 1 + j][i].shape, want[j].shape)), 1e-8),
                      'loop-net', 'the conditional log density in iteration %d is not that at the values of the '
                      'iteration' % i, node=nd.name, got=o[m + 1 + j][i], want=want[j], **c)
        lj = sum(want)
        rec.check(same(o[m][i], np.broadcast_to(lj, o[m][i].shape), 1e-8), 'loop-net', 'the log joint in iteration %d '
                  'is not that at the values of the iteration' % i, got=o[m][i], want=lj, **c)
    for j, nd in enumerate(net):
        if nd.name not in obs and not nd.spec.discrete:
            rec.check(not any(np.array_equal(o[j][0], o[j][i]) for i in range(1, n)), 'loop-net-fresh',
                      'iterations share the draw of a node', node=nd.name, **c)
    rec.event('loop nets')
    rec.case(('loopnet', [nd.kind for nd in net], sorted(obs), lead), sample=c)
