"""C10: stochastic nodes and variational objectives behave as ordinary tensors."""
import operator as op
import numpy as np
import tensorflow as tf
from zsmon.core import subseed
from zsmon.tfu import session

RULE = ('Each evaluation is one operation executed on a tensor-like object (unobserved, observed, multi-sample, '
        'legacy or custom-built node of any value dtype; ELBO and importance weighted objective) and on its value '
        'tensor in the same session run, or a NumPy recomputation of a random expression program from the node '
        'values that run fetched, or a fetch/feed/identity/refusal probe. Distinct: (host kind, dtype, operation, '
        'operand kind, side) or program structure.')
ASSUMPTIONS = ['the value tensor itself is judged by other properties; here only agreement with it']
REQUIRED = {'binary operator': 800, 'reflected operator': 800, 'unary operator': 60, 'tf operation': 300,
            'program': 100, 'fetch': 100, 'feed': 60, 'refusal': 60, 'identity': 60, 'indexing': 200,
            'logical operator': 60, 'numpy left operand': 100}

ARITH = [('add', op.add), ('sub', op.sub), ('mul', op.mul), ('truediv', op.truediv),
         ('floordiv', op.floordiv), ('mod', op.mod), ('pow', op.pow)]
COMP = [('lt', op.lt), ('le', op.le), ('gt', op.gt), ('ge', op.ge)]
LOGIC = [('and', op.and_), ('or', op.or_), ('xor', op.xor)]
HOSTS = ('normal32', 'normal64', 'observed64', 'samples', 'poisson_int', 'bernoulli_int64', 'legacy', 'elbo', 'iw',
         'elbo_func', 'bool')


def items(tier, seed):
    reps, progs = (6, 12) if tier == 'quick' else (40, 60)
    out = [('ops', {'host': h, 'seed': subseed('c10', seed, h, r)}) for r in range(reps) for h in HOSTS]
    out += [('programs', {'n': progs, 'seed': subseed('c10p', seed, r)}) for r in range(16)]
    return out


def build(zs, host, rng):
    """(tensor-like object, shape)"""
    s = (int(rng.randint(2, 4)), 3)
    if host in ('normal32', 'normal64', 'legacy', 'samples'):
        dt = tf.float64 if host == 'normal64' else tf.float32
        mean = tf.constant(rng.normal(0, 2, s[-1:] if host == 'samples' else s), dt)
        std = tf.constant(1.5, dt)
        if host == 'legacy':
            with zs.BayesianNet():
                return zs.Normal('x', mean, std=std)
        return zs.BayesianNet().normal('x', mean, std=std,
                                       n_samples=s[0] if host == 'samples' else None)
    if host == 'observed64':
        v = rng.normal(0, 2, s)
        v[0, 0] = 0.
        bn = zs.BayesianNet(observed={'x': tf.constant(v)})
        return bn.normal('x', tf.zeros(s, tf.float64), std=tf.constant(1., tf.float64))
    if host == 'poisson_int':
        return zs.BayesianNet().poisson('x', tf.constant(rng.uniform(1, 6, s)), dtype=tf.int32)
    if host == 'bernoulli_int64':
        return zs.BayesianNet().bernoulli('x', tf.constant(rng.normal(0, 1, s)), dtype=tf.int64)
    if host == 'bool':
        with zs.BayesianNet(observed={'x': tf.constant(rng.rand(*s) < .5)}):
            return zs.Empirical('x', tf.bool, list(s))
    zs.BayesianNet()

    @zs.meta_bayesian_net()
    def model():
        bn = zs.BayesianNet()
        z = bn.normal('z', tf.zeros(s), std=1., n_samples=None)
        bn.normal('y', z, std=2.)
        return bn
    q = zs.BayesianNet()
    q.normal('z', tf.constant(rng.normal(0, 1, s), tf.float32), std=.5, n_samples=4)
    obs = {'y': tf.constant(rng.normal(0, 1, s), tf.float32)}
    if host == 'elbo_func':
        lj = lambda o: zs.distributions.Normal(0., std=1.).log_prob(o['z']) + \
            zs.distributions.Normal(o['z'], std=1.).log_prob(o['y'])
        return zs.variational.elbo(lj, obs, variational=q, axis=0)
    f = zs.variational.elbo if host == 'elbo' else zs.variational.importance_weighted_objective
    return f(model(), obs, variational=q, axis=0)


def operands(zs, rng, dt, shape, boolean=False, small=False):
    """(kind, value) of other operands, none of them zero or negative where it matters"""
    np_dt = dt.as_numpy_dtype

    def arr(s):
        if boolean:
            return rng.rand(*s) < .5
        if dt.is_integer:
            return rng.randint(1, 4, s).astype(np_dt)
        return rng.uniform(.5, 3., s).astype(np_dt)
    full, row = arr(shape), arr(shape[-1:])
    var = tf.Variable(arr(shape), trainable=False)
    other = None
    if boolean:
        with zs.BayesianNet(observed={'o': tf.constant(arr(shape))}):
            other = zs.Empirical('o', tf.bool, list(shape))
    elif dt.is_floating:
        other = zs.BayesianNet(observed={'o': tf.constant(arr(shape))}).normal(
            'o', tf.zeros(shape, dt), std=tf.constant(1., dt))
    else:
        other = zs.BayesianNet(observed={'o': tf.constant(arr(shape))}).poisson(
            'o', tf.ones(shape), dtype=dt)
    out = [('tensor', tf.constant(full)), ('row', tf.constant(row)), ('column', tf.constant(arr((shape[0], 1)))),
           ('placeholder', tf.placeholder_with_default(full, None)), ('variable', var),
           ('ndarray', arr(shape)), ('ndarray row', arr(shape[-1:])), ('node', other),
           ('list', arr(shape[-1:]).tolist())]
    if boolean:
        out += [('scalar', bool(rng.randint(2)))]
    elif dt.is_integer:
        out += [('scalar', int(rng.randint(1, 4)))]
    else:
        out += [('scalar', float(rng.uniform(.5, 3))), ('np scalar', np_dt(rng.uniform(.5, 3))),
                ('int scalar', 2)]
    return out


def unwrap(zs, o):
    return o.tensor if isinstance(o, zs.framework.bn.StochasticTensor) else o


def same(a, b):
    a, b = np.asarray(a), np.asarray(b)
    if a.shape != b.shape or a.dtype != b.dtype:
        return False
    if a.dtype.kind == 'f':
        return bool(np.allclose(a, b, rtol=1e-5, atol=1e-7, equal_nan=True))
    return bool(np.array_equal(a, b))


UNARY_TF = [('abs', tf.abs), ('square', tf.square), ('negative', tf.negative), ('identity', tf.identity),
            ('shape', tf.shape), ('rank', tf.rank), ('size', tf.size), ('reduce_sum', tf.reduce_sum),
            ('reduce_max axis', lambda x: tf.reduce_max(x, -1)), ('reshape', lambda x: tf.reshape(x, [-1])),
            ('expand_dims', lambda x: tf.expand_dims(x, 1)), ('stack', lambda x: tf.stack([x, x])),
            ('concat', lambda x: tf.concat([x, x], 0)), ('transpose', tf.transpose),
            ('cast', lambda x: tf.cast(x, tf.float64)), ('convert', tf.convert_to_tensor),
            ('zeros_like', tf.zeros_like), ('one_hot arg', lambda x: tf.argmax(x, 0)),
            ('gather', lambda x: tf.gather(x, [1, 0])), ('tile', lambda x: tf.tile(x, [2] + [1] * (len(x.shape) - 1)
                                                                                   if hasattr(x, 'shape') else [2])),
            ('where', lambda x: tf.where(tf.greater(x, 0), x, tf.negative(x))),
            ('cond', lambda x: tf.cond(tf.reduce_sum(x) > 0, lambda: tf.identity(x), lambda: tf.negative(x))),
            ('map_fn', lambda x: tf.map_fn(lambda q: q + q, x)),
            ('while', lambda x: tf.while_loop(lambda i, v: i < 3, lambda i, v: (i + 1, v + x),
                                              (0, tf.identity(x)))[1]),
            ('add_n', lambda x: tf.add_n([x, x])), ('tuple', lambda x: tf.tuple([x])[0]),
            ('top_k', lambda x: tf.nn.top_k(x, 1)[0]), ('clip', lambda x: tf.clip_by_value(
                tf.cast(x, tf.float64), -1., 1.)),
            ('tensordot', lambda x: tf.tensordot(tf.cast(x, tf.float64), tf.cast(x, tf.float64), [[0], [0]])),
            ('stop_gradient', tf.stop_gradient)]
FLOAT_TF = [('exp', tf.exp), ('tanh', tf.tanh), ('sigmoid', tf.nn.sigmoid), ('softmax', tf.nn.softmax),
            ('matmul', lambda x: tf.matmul(tf.reshape(x, [1, -1]), tf.reshape(x, [-1, 1]))),
            ('layers', lambda x: tf.reduce_logsumexp(x, -1)),
            ('dist param', None)]
INDEX = [('0', lambda x: x[0]), ('-1', lambda x: x[-1]), ('1:', lambda x: x[1:]), ('::-1', lambda x: x[::-1]),
         ('None', lambda x: x[None]), ('...,0', lambda x: x[..., 0]), ('...,None', lambda x: x[..., None]),
         (':,1:2', lambda x: x[:, 1:2] if len(x.shape) > 1 else x[1:2]),
         ('0,1', lambda x: x[0, 1] if len(x.shape) > 1 else x[1]), ('tensor', lambda x: x[tf.constant(1)]),
         (':-1', lambda x: x[:-1]), ('::2', lambda x: x[::2])]


def run(name, prm, rec):
    import zhusuan as zs
    rng = np.random.RandomState(prm['seed'])
    if name == 'programs':
        return programs(zs, rng, prm, rec)
    host = prm['host']
    x = build(zs, host, rng)
    t = x.tensor
    dt, shape = t.dtype, tuple(t.shape.as_list())
    pairs = []     # (label, result on object, result on tensor)

    def add(ev, label, fx, ft):
        pairs.append((label, fx(), ft()))
        rec.event(ev)
        rec.case((host, dt.name, label), sample={'host': host, 'op': label})

    if hasattr(x, 'shape'):
        rec.check(x.shape.as_list() == list(shape) and x.get_shape().as_list() == list(shape) and x.dtype == dt,
                  'attributes', 'shape/dtype attributes differ from the tensor\'s', host=host)
    if host == 'bool':
        add('logical operator', 'invert', lambda: ~x, lambda: ~t)
        for kind, o in operands(zs, rng, dt, shape, boolean=True):
            for n, f in LOGIC:
                u = unwrap(zs, o)
                add('logical operator', 'x %s %s' % (n, kind), lambda: f(x, o), lambda: f(t, u))
                add('logical operator', '%s %s x' % (kind, n), lambda: f(o, x), lambda: f(u, t))
        pos_x, pos_t = x, t
    else:
        add('unary operator', 'neg', lambda: -x, lambda: -t)
        add('unary operator', 'abs', lambda: abs(x), lambda: abs(t))
        for kind, o in operands(zs, rng, dt, shape):
            u = unwrap(zs, o)
            for n, f in ARITH + COMP:
                for refl in (False, True):
                    if n == 'pow' and dt.is_integer and refl is False and host == 'poisson_int':
                        pass
                    if n in ('floordiv', 'mod', 'truediv') and dt.is_integer and refl:
                        continue     # the node may be zero
                    a = (lambda: f(o, x)) if refl else (lambda: f(x, o))
                    b = (lambda: f(u, t)) if refl else (lambda: f(t, u))
                    lab = '%s %s x' % (kind, n) if refl else 'x %s %s' % (n, kind)
                    add('reflected operator' if refl else 'binary operator', lab, a, b)
                    if refl and kind.startswith('ndarray'):
                        rec.event('numpy left operand')
        for n, f in UNARY_TF:
            if n == 'tile':
                f = lambda q: tf.tile(q, [2] + [1] * (len(shape) - 1))
            add('tf operation', 'tf.' + n, lambda: f(x), lambda: f(t))
        if dt.is_floating:
            for n, f in FLOAT_TF:
                if f is None:
                    f = lambda q: zs.distributions.Normal(q, std=tf.ones([], dt)).log_prob(q + 1.)
                add('tf operation', 'tf.' + n, lambda: f(x), lambda: f(t))
            for n, f in (('subtract', tf.subtract), ('divide', tf.divide), ('pow', tf.pow), ('less', tf.less),
                         ('atan2', tf.atan2), ('squared_difference', tf.squared_difference)):
                w = tf.constant(rng.uniform(.5, 2, shape), dt)
                add('tf operation', 'tf.%s(x,w)' % n, lambda: f(x, w), lambda: f(t, w))
                add('tf operation', 'tf.%s(w,x)' % n, lambda: f(w, x), lambda: f(w, t))
    for n, f in INDEX:
        add('indexing', '[%s]' % n, (lambda: f(x)) if hasattr(x, 'shape') else (lambda: f(Shaped(x, shape))),
            lambda: f(t))
    # what the tensor refuses, the object refuses too
    for lab, f in (('[%d]' % (shape[0] + 2), lambda q: q[shape[0] + 2]),
                   ('[-%d]' % (shape[0] + 1), lambda q: q[-(shape[0] + 1)]),
                   ('[too many]', lambda q: q[(0,) * (len(shape) + 1)]),
                   ('[two ellipses]', lambda q: q[..., 0, ...]),
                   ('[str]', lambda q: q['a']),
                   ('+ wrong shape', lambda q: q + tf.ones([s + 2 for s in shape], dt)),
                   ('+ wrong dtype', lambda q: q + tf.ones(shape, tf.float64 if dt != tf.float64 else tf.float32)),
                   ('wrong dtype *', lambda q: tf.ones(shape, tf.float64 if dt != tf.float64 else tf.float32) * q)):
        r = []
        for q in (x, t):
            try:
                f(q)
                r.append(False)
            except Exception:
                r.append(True)
        rec.check(r[0] == r[1], 'refusal', 'x%s is %s while the same expression on its tensor is %s' % (
            (lab,) + tuple('refused' if q else 'accepted' for q in r)), host=host)
        rec.event('refused expression' if r[1] else 'accepted expression')
        rec.case((host, 'refused', lab))
    for lab, a, b in pairs:
        rec.check(isinstance(a, tf.Tensor), 'not-a-tensor', '%s gave %s' % (lab, type(a).__name__), host=host)
    pairs = [q for q in pairs if isinstance(q[1], tf.Tensor)]
    with session() as sess:
        sess.run(tf.global_variables_initializer())
        out = sess.run([x, t] + [q[1] for q in pairs] + [q[2] for q in pairs])
        xv, tv = out[:2]
        rec.check(same(xv, tv), 'fetch', 'fetching the object and its tensor gives different values', host=host,
                  got=xv, want=tv)
        n = len(pairs)
        for i, (lab, a, b) in enumerate(pairs):
            rec.check(same(out[2 + i], out[2 + n + i]), 'operator', '%s differs from the tensor\'s result' % lab,
                      host=host, x=xv, got=out[2 + i], want=out[2 + n + i])
        # fetch structures
        for lab, f, g in (('single', x, None), ('list', [x, t], None), ('dict', {'a': x, 'b': (t, [x])}, None)):
            r = sess.run(f)
            if lab == 'single':
                ok = np.asarray(r).shape == shape and np.asarray(r).dtype == dt.as_numpy_dtype
            elif lab == 'list':
                ok = same(r[0], r[1])
            else:
                ok = same(r['a'], r['b'][0]) and same(r['a'], r['b'][1][0])
            rec.check(ok, 'fetch', 'fetch structure %s is inconsistent' % lab, host=host)
            rec.event('fetch')
            rec.case((host, 'fetch', lab))
        # feeding the object overrides every use
        if host == 'bool':
            v = rng.rand(*shape) < .5
            uses, want = [~x, t], [~v, v]
        else:
            v = np.asarray(rng.randint(1, 5, shape), dt.as_numpy_dtype)
            uses, want = [x + x, t, tf.reduce_sum(x), -x], [v + v, v, v.sum(), -v]
        for key in (x, t):
            r = sess.run([x] + uses, feed_dict={key: v})
            rec.check(all(np.allclose(a, b) for a, b in zip(r, [v] + want)), 'feed',
                      'a fed value does not replace every use', host=host, fed=v, got=r)
            rec.event('feed')
            rec.case((host, 'feed', key is x))
        h = sess.partial_run_setup([uses[0]], [x])
        r = sess.partial_run(h, uses[0], feed_dict={x: v})
        rec.check(np.allclose(r, want[0]), 'feed', 'a value fed to a partial run does not replace the object',
                  host=host)
        rec.event('feed')
    # refusals
    for lab, f in (('bool', lambda: bool(x)), ('if', lambda: 1 if x else 0), ('not', lambda: not x),
                   ('iter', lambda: iter(x)), ('for', lambda: [q for q in x]), ('list', lambda: list(x)),
                   ('and', lambda: x and 1), ('unpack', lambda: (lambda *a: a)(*x))):
        try:
            f()
            rec.violation('refusal', '%s of a tensor-like object was not refused' % lab, host=host)
        except TypeError:
            pass
        rec.event('refusal')
        rec.case((host, 'refuse', lab))
    wrong = tf.float64 if dt != tf.float64 else tf.float32
    try:
        tf.convert_to_tensor(x, dtype=wrong)
        rec.violation('conversion', 'converted to another dtype silently', host=host)
    except ValueError:
        pass
    # identity
    y = build(zs, host, np.random.RandomState(prm['seed']))
    d = {x: 1, y: 2}
    ok = (d[x] == 1 and d[y] == 2 and len({x, y, x}) == 2 and x in [y, x] and x not in [y] and
          [y, x].index(x) == 1 and (x == x) is True and (x == y) is False and (x != y) is True and
          (x == t) is False and (x == None) is False and hash(x) == hash(x))  # noqa: E711
    rec.check(ok, 'identity', 'equality/hash do not follow object identity', host=host)
    rec.event('identity')
    rec.case((host, 'identity'))


class Shaped(object):
    """gives objectives (which have no shape attribute) the shape INDEX looks at"""

    def __init__(self, x, shape):
        self.x, self.shape = x, shape

    def __getitem__(self, k):
        return self.x[k]


# -- random expression programs ---------------------------------------------

def _np_mod(a, b):
    return np.mod(a, b)


PROG = [('add', op.add, 2), ('sub', op.sub, 2), ('mul', op.mul, 2), ('div', op.truediv, 2), ('fdiv', None, 2),
        ('mod', None, 2), ('pow', None, 2), ('neg', op.neg, 1), ('abs', abs, 1), ('idx', None, 1), ('cmp', None, 2)]


def programs(zs, rng, prm, rec):
    for it in range(prm['n']):
        tf.reset_default_graph()
        bn = zs.BayesianNet()
        base, vals = [], []
        for i in range(int(rng.randint(1, 4))):
            b = [int(rng.randint(0, len(base)))] if base and rng.randint(2) else []
            mean = tf.tanh(base[b[0]]) if b else tf.constant(rng.normal(0, 1, (3, 2)))
            n = bn.normal('n%d' % i, mean, std=tf.constant(rng.uniform(.5, 2), tf.float64))
            base.append(n)
        exprs = list(base)            # tensor-like
        progs = [('n', i) for i in range(len(base))]
        for _ in range(int(rng.randint(2, 9))):
            nm, f, k = PROG[rng.randint(len(PROG))]
            i, j = rng.randint(len(exprs)), rng.randint(len(exprs))
            c = float(rng.uniform(.5, 2))
            how = int(rng.randint(5))   # operand 2: expr, const right, const left, ndarray left, ndarray right
            progs.append((nm, int(i), int(j), c, how))
            exprs.append(apply_tf(nm, exprs[i], exprs[j], c, how))
        with session() as sess:
            out = sess.run(exprs)
        memo = out[:len(base)]
        memo = [np.asarray(v, np.float64) for v in memo]
        for p in progs[len(base):]:
            memo.append(apply_np(p[0], memo[p[1]], memo[p[2]], p[3], p[4]))
        for p, g, w in zip(progs, out, memo):
            with np.errstate(all='ignore'):
                big = np.abs(w) > 1e12
                # floor and modulus jump: tolerate rounding next to a jump
                ok = np.shape(g) == np.shape(w) and np.all(np.isclose(g, w, rtol=1e-6, atol=1e-6, equal_nan=True) |
                                                           big | ~np.isfinite(w))
            if not ok and any(q[0] in ('fdiv', 'mod', 'cmp') for q in progs if q[0] != 'n'):
                rec.event('jump skipped')
                break
            if not rec.check(ok, 'program', 'expression program over nodes differs from NumPy at the fetched '
                             'values', program=progs, got=g, want=w):
                break
        rec.event('program')
        rec.case(('program', [p[:1] + tuple(p[4:5]) for p in progs]), sample={'program': progs})


def _args(x, y, c, how):
    c2 = np.array([[c, c + .5]])
    if how == 0:
        return x, y
    if how == 1:
        return x, c
    if how == 2:
        return c, x
    if how == 3:
        return c2, x
    return x, c2


def apply_tf(nm, x, y, c, how):
    if nm == 'neg':
        return -x
    if nm == 'abs':
        return abs(x)
    if nm == 'idx':
        return x[::-1]
    a, b = _args(x, y, c, how)
    if nm == 'add':
        return a + b
    if nm == 'sub':
        return a - b
    if nm == 'mul':
        return a * b
    if nm == 'div':
        return a / b
    if nm == 'fdiv':
        return a // b
    if nm == 'mod':
        return a % b
    if nm == 'pow':
        # keep the base positive
        if how in (0, 1, 4):
            return (abs(a) + .5) ** tf.tanh(b) if how == 0 else (abs(a) + .5) ** b
        return a ** tf.tanh(b)
    if nm == 'cmp':
        r = (a < b) if how < 3 else (a >= b)
        return tf.cast(r, tf.float64)


def apply_np(nm, x, y, c, how):
    with np.errstate(all='ignore'):
        if nm == 'neg':
            return -x
        if nm == 'abs':
            return abs(x)
        if nm == 'idx':
            return x[::-1]
        a, b = _args(x, y, c, how)
        if nm == 'add':
            return a + b
        if nm == 'sub':
            return a - b
        if nm == 'mul':
            return a * b
        if nm == 'div':
            return a / b
        if nm == 'fdiv':
            return np.floor_divide(a, b)
        if nm == 'mod':
            return np.mod(a, b)
        if nm == 'pow':
            if how in (0, 1, 4):
                return (abs(a) + .5) ** np.tanh(b) if how == 0 else (abs(a) + .5) ** b
            return a ** np.tanh(b)
        if nm == 'cmp':
            return ((a < b) if how < 3 else (a >= b)).astype(np.float64)
