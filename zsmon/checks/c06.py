"""C06: fault injection of invalid arguments; valid arguments never raise."""
import numpy as np
import tensorflow as tf
from zsmon import dists as ds, shapes as sh
from zsmon.checks.c01 import judge
from zsmon.core import subseed
from zsmon.tfu import session, Feeder

RULE = ('Each evaluation is one use of a distribution with one injected fault (must raise: at '
        'construction if the fault is in plain sight, else when the graph is run) or '
        'one valid use with check_numerics=True (must not raise and give the reference value). '
        'Distinct: (distribution, fault, where it is injected, static or dynamic, dtype, batch '
        'shape, method called).')
ASSUMPTIONS = ['any exception counts as rejection',
               'faults hidden behind placeholders of unknown shape or value are judged when '
               'log_prob/prob/sample are run, those in plain sight while building the graph']
REQUIRED = {'static rejections': 300, 'dynamic rejections': 200, 'numerics rejections': 150,
            'valid with check_numerics': 200}
BAD_PARAM_DTYPES = ('int32', 'int64', 'bool', 'complex64', 'int16')
BAD_SAMPLE_DTYPES = ('uint8', 'bool', 'string', 'complex64', 'int8', 'uint16')


def items(tier, seed):
    reps = 3 if tier == 'quick' else 20
    return [(s.name, {'seed': subseed('c06', seed, s.name, r)})
            for r in range(reps) for s in ds.SPECS]


class Case(object):
    """One valid configuration, to be spoiled by exactly one fault."""

    def __init__(self, spec, rng, check_numerics=False, batch=None):
        self.spec, self.rng = spec, rng
        self.pd = spec.param_dtypes[rng.randint(len(spec.param_dtypes))]
        sds = spec.sample_dtypes if spec.discrete else (self.pd,)
        self.sd = sds[rng.randint(len(sds))]
        b = tuple(int(v) for v in rng.permutation([2, 3, 4])[:rng.randint(1, 3)]) \
            if batch is None else batch
        self.batch = b
        self.ev = spec.ev(rng)
        sp = {p: (() if p in spec.scalar_params else b) for p in spec.params}
        self.p = ds.gen_params(spec, rng, sp, 'mod', self.pd, self.ev)
        if 'std' in self.p and rng.rand() < .4:
            self.p['logstd'] = ds.rnd(np.log(self.p.pop('std')), self.pd)
        cfg = {'given': b, 'ev': self.ev}
        self.x = sh.grid_values(spec, rng, self.p, cfg, 'mod')
        self.dtypes = {k: self.pd for k in self.p}
        self.kw = {'check_numerics': True} if check_numerics else {}
        if spec.discrete:
            self.kw['dtype'] = tf.as_dtype(self.sd)
        self.group = 0

    def build(self, dynamic, only=None):
        """-> (log_prob, prob, sample, feed). ``dynamic`` hides shapes and
        values of everything (or of ``only``)."""
        import zhusuan as zs
        fd = Feeder()
        t = {}
        self.how = how = ('unknown', 'unknown', 'rank', 'partial')[self.rng.randint(4)] if dynamic else 'static'
        for k, v in self.p.items():
            hide = dynamic and (only is None or k in only)
            t[k] = fd.tensor(v, self.dtypes[k], how if hide else 'static', self.rng,
                             const=not dynamic)
        for k, v in list(self.kw.items()):
            if isinstance(v, tuple) and v[0] == 'hide':
                self.kw[k] = fd.tensor(v[1], 'int32', 'unknown') if dynamic else v[1]
        g = self.group
        if isinstance(g, tuple):
            g = fd.tensor(g[1], 'int32', 'unknown') if dynamic else g[1]
        self.constructed = False
        d = self.spec.ctor(zs.distributions, t, group_ndims=g, **self.kw)
        self.constructed = True
        x = fd.tensor(self.x, self.sd, how, self.rng, const=not dynamic)
        return d, x, fd


METHODS = {'log_prob': lambda d, x, n: d.log_prob(x), 'prob': lambda d, x, n: d.prob(x),
           'sample': lambda d, x, n: d.sample(n)}


def must_raise(rec, case, what, dynamic, methods, only=None, n_samples=3, static_visible=True):
    """Every method has to raise: while building if not dynamic."""
    spec = case.spec
    for m in methods:
        if m == 'sample' and not spec.samples:
            continue
        tf.reset_default_graph()
        stage, err, val = 'build', None, None
        kw = dict(case.kw)
        try:
            d, x, fd = case.build(dynamic, only)
            n = n_samples
            if isinstance(n, tuple):
                n = fd.tensor(n[1], 'int32', 'unknown') if dynamic else n[1]
            t = METHODS[m](d, x, n)
            stage = 'run'
            if dynamic:
                with session() as sess:
                    val = sess.run(t, fd.feed)
        except Exception as e:
            err = e
        case.kw = kw
        ctx = {'dist': spec.name, 'fault': what, 'method': m, 'dynamic': dynamic, 'declared': case.how,
               'dtype': case.pd, 'shapes': {k: list(np.shape(v)) for k, v in case.p.items()},
               'given_shape': list(np.shape(case.x))}
        rec.case((spec.name, what, m, case.how, case.pd, case.batch), sample=ctx)
        rec.event('dynamic rejections' if dynamic else 'static rejections')
        rec.check(err is not None, ('accepted-dynamic-' if dynamic else 'accepted-') + what.split(':')[0],
                  'invalid argument (%s) accepted by %s' % (what, m),
                  value=np.asarray(val) if val is not None else 'graph built', **ctx)
        if not dynamic and err is not None and not what.startswith(('given', 'n_samples')):
            rec.check(not case.constructed, 'late-' + what.split(':')[0],
                      'statically visible fault (%s) not rejected at construction' % what, error=str(err)[:200], **ctx)


def run(name, prm, rec):
    spec = ds.BY_NAME[name]
    rng = np.random.RandomState(prm['seed'])
    all3 = ('log_prob', 'prob', 'sample')
    lp2 = ('log_prob', 'prob')
    free = [k for k in spec.params]

    # mixed and unsupported dtypes
    if len(spec.params) > 1:
        for k in range(len(spec.params)):
            c = Case(spec, rng)
            kk = sorted(c.p)[k]
            others = [t for t in ('float16', 'float32', 'float64') if t != c.pd]
            c.dtypes[kk] = others[rng.randint(2)]
            must_raise(rec, c, 'mixed-dtype:' + kk, False, ('log_prob',))
    for bad in BAD_PARAM_DTYPES:
        c = Case(spec, rng)
        for kk in c.p:
            c.dtypes[kk] = bad
        c.p = {k: np.ones(np.shape(v)) for k, v in c.p.items()}
        must_raise(rec, c, 'param-dtype:' + bad, False, ('log_prob',))
    if name == 'Categorical':
        c = Case(spec, rng)
        c.dtypes['logits'] = 'float16'
        must_raise(rec, c, 'param-dtype:float16', False, ('log_prob',))
    if spec.discrete:
        bads = BAD_SAMPLE_DTYPES + (('int16', 'float16') if name == 'Categorical' else ())
        for bad in bads:
            c = Case(spec, rng)
            c.kw['dtype'] = tf.as_dtype(bad)
            c.sd = 'int32'
            import zhusuan as zs
            tf.reset_default_graph()
            err = None
            try:
                t = {k: tf.constant(v, dtype=c.pd) for k, v in c.p.items()}
                spec.ctor(zs.distributions, t, **c.kw)
            except Exception as e:
                err = e
            rec.event('static rejections')
            rec.case((name, 'sample-dtype', bad))
            rec.check(err is not None, 'accepted-sample-dtype', 'sample dtype %s accepted' % bad,
                      dist=name)

    # shapes
    for dynamic in (False, True):
        vec = [k for k in spec.params if k not in spec.scalar_params]
        if spec.broadcasts and len(vec) > 1:
            for which in range(2):
                c = Case(spec, rng, batch=(int(rng.randint(2, 5)), 3))
                kk = sorted(k for k in c.p)[which]
                v = c.p[kk]
                ax = rng.randint(2)
                c.p[kk] = np.concatenate([v, v], ax)[(slice(None),) * ax + (slice(0, v.shape[ax] + 1),)]
                must_raise(rec, c, 'unbroadcastable:' + kk, dynamic, all3)
        if not spec.broadcasts:
            mats = [k for k in spec.params if k != 'mean']
            for kk in mats:
                for way in ('batch', 'dim', 'rows', 'rank'):
                    c = Case(spec, rng, batch=(3,))
                    v = c.p[kk]
                    n = v.shape[-1]
                    if way == 'batch':
                        c.p[kk] = np.concatenate([v, v[:1]])
                    elif way == 'dim':
                        c.p[kk] = np.broadcast_to(np.eye(n + 1), (3, n + 1, n + 1)).copy()
                    elif way == 'rows':
                        c.p[kk] = np.concatenate([v, v[..., :1, :]], -2)
                    else:
                        c.p[kk] = np.eye(n)
                    must_raise(rec, c, 'incompatible-%s:%s' % (way, kk), dynamic, all3)
        # too low rank
        es = spec.event_shape(spec.ev(rng))
        for kk in vec:
            need = len(es[kk])
            for r in range(need):
                c = Case(spec, rng, batch=())
                c.p[kk] = np.ones((3,) * r)
                must_raise(rec, c, 'low-rank:' + kk, dynamic, all3)
        for kk in spec.scalar_params:
            for bad in ((1,), (2,), c.batch + tuple(spec.value_shape(c.ev))):
                if bad == ():
                    continue
                c = Case(spec, rng)
                c.p[kk] = np.full(bad, .7)
                must_raise(rec, c, 'non-scalar:' + kk, dynamic, all3)
        if name == 'Dirichlet':
            c = Case(spec, rng)
            c.p['alpha'] = c.p['alpha'][..., :1]
            c.x = np.ones_like(c.x[..., :1])
            must_raise(rec, c, 'one-category', dynamic, all3)
        if 'n_experiments' in spec.extra:
            for bad in (0, -1, -7):
                c = Case(spec, rng)
                c.kw['n_experiments'] = ('hide', bad)
                must_raise(rec, c, 'n_experiments:%d' % bad, dynamic, all3)
            c = Case(spec, rng)
            c.kw['n_experiments'] = ('hide', [3, 4]) if dynamic else [3, 4]
            must_raise(rec, c, 'n_experiments:vector', dynamic, all3)
            if not dynamic:
                c = Case(spec, rng)
                c.kw['n_experiments'] = 2.5
                must_raise(rec, c, 'n_experiments:float', False, ('log_prob',))
        # group_ndims
        for bad in (-1, -2):
            c = Case(spec, rng)
            c.group = ('hide', bad)
            must_raise(rec, c, 'group_ndims:%d' % bad, dynamic, lp2)
        # n_samples
        if spec.samples:
            c = Case(spec, rng)
            must_raise(rec, c, 'n_samples:vector', dynamic, ('sample',),
                       n_samples=('hide', [2]) if dynamic else tf_vec)
        # given
        for way in range(3):
            c = Case(spec, rng, batch=(3, 2) if way else (4,))
            n = len(np.shape(c.x))
            ax = rng.randint(0, len(c.batch))
            x = c.x
            c.x = np.concatenate([x, x], ax)[(slice(None),) * ax + (slice(0, x.shape[ax] + 1),)]
            must_raise(rec, c, 'given-unbroadcastable', dynamic, lp2)
        if spec.vrank:
            c = Case(spec, rng)
            while min(spec.value_shape(c.ev)) < 2:
                c = Case(spec, rng)
            x = c.x
            c.x = np.concatenate([x, x[..., :1]], -1)
            must_raise(rec, c, 'given-value-shape', dynamic, lp2)
    specials(spec, rng, rec)
    if spec.check_numerics:
        numerics(spec, rng, rec)


tf_vec = ('static', [2])


def specials(spec, rng, rec):
    import zhusuan as zs
    D = zs.distributions

    def bad(what, f):
        tf.reset_default_graph()
        err = None
        try:
            f()
        except Exception as e:
            err = e
        rec.event('static rejections')
        rec.case((spec.name, what))
        rec.check(err is not None, 'accepted-' + what, 'invalid use (%s) accepted' % what,
                  dist=spec.name)

    if spec.name in ('Normal', 'FoldNormal'):
        cls = getattr(D, spec.name)
        s = float(rng.uniform(.5, 2))
        bad('both-std-logstd', lambda: cls(0., std=s, logstd=np.float32(np.log(s))))
        bad('neither-std-logstd', lambda: cls(0.))
        bad('neither-std-logstd', lambda: cls(tf.zeros([3]), group_ndims=1))
        bad('positional-std', lambda: cls(0., s))
        bad('positional-std', lambda: cls(0., 0.))
    if spec.name == 'Multinomial':
        bad('sample-without-n', lambda: D.Multinomial(tf.zeros([2, 3]), None).sample(2))
    if spec.name == 'UnnormalizedMultinomial':
        bad('unnormalized-sample', lambda: D.UnnormalizedMultinomial(tf.zeros([2, 3])).sample(2))


def bad_values(spec, c):
    """[(what, parameter or 'x', bad scalar)] that make a logarithm, log-gamma,
    log determinant, scale or precision NaN or infinite."""
    nan, inf = np.nan, np.inf
    n = spec.name
    pos = lambda k: [(k, v) for v in (0., -1., nan)]
    out = []
    if n in ('Normal', 'FoldNormal'):
        tiny = {'float16': 1e-3, 'float32': 1e-25, 'float64': 1e-200}[c.pd]
        if 'std' in c.p:
            out = pos('std') + [('std', inf), ('std', tiny)]
        else:
            big = {'float16': 30., 'float32': 100., 'float64': 800.}[c.pd]
            out = [('logstd', nan), ('logstd', -big)]
    elif n == 'Uniform':
        out = [('=', None), ('minval', nan), ('maxval', nan), ('x', -50.), ('x', 50.)]
    elif n in ('Gamma', 'InverseGamma'):
        out = [('alpha', 0.), ('alpha', nan), ('alpha', -1.)] + pos('beta') + pos('x') + [('x', inf)]
    elif n == 'Beta':
        out = [('alpha', 0.), ('alpha', nan), ('beta', 0.), ('beta', nan), ('x', 0.), ('x', 1.),
               ('x', -.5), ('x', 1.5), ('x', nan)]
    elif n == 'Poisson':
        out = pos('rate') + [('rate', inf), ('x', -1.)]
    elif n == 'Binomial':
        out = [('x', -1.), ('x', 8.)]
    elif n == 'Laplace':
        out = pos('scale') + [('scale', inf)]
    elif n == 'BinConcrete':
        out = pos('temperature') + [('x', 0.), ('x', 1.), ('x', -.1), ('x', 1.1), ('x', nan)]
    elif n == 'MultivariateNormalCholesky':
        out = [('diag:cov_tril', v) for v in (0., -1., nan)]
    elif n == 'MatrixVariateNormalCholesky':
        out = [('diag:' + k, v) for k in ('u_tril', 'v_tril') for v in (0., -1., nan)]
    elif n == 'Dirichlet':
        out = [('alpha', 0.), ('alpha', nan), ('x', 0.), ('x', -.2), ('x', nan)]
    elif n == 'ExpConcrete':
        out = pos('temperature')
    elif n == 'Concrete':
        out = pos('temperature') + [('x', 0.), ('x', -.1), ('x', nan)]
    return out


def numerics(spec, rng, rec):
    import zhusuan as zs
    probe = [Case(spec, rng, True) for _ in range(3)]
    for c0 in probe:
        for what, v in bad_values(spec, c0):
            c = Case(spec, rng, True)
            while set(c.p) != set(c0.p) or (c.pd != c0.pd and spec.name in ('Normal', 'FoldNormal')):
                c = Case(spec, rng, True)
            if what == 'x':
                if c.sd not in ('float16', 'float32', 'float64') and not np.isfinite(v):
                    continue
                i = tuple(rng.randint(s) for s in c.x.shape)
                c.x = np.array(c.x)
                c.x[i] = v
            elif what == '=':
                i = tuple(rng.randint(s) for s in c.p['minval'].shape)
                c.p['minval'][i] = c.p['maxval'][i]
            elif what.startswith('diag:'):
                a = np.array(c.p[what[5:]])
                i = tuple(rng.randint(s) for s in a.shape[:-1])
                a[i + (i[-1],)] = v
                c.p[what[5:]] = a
            else:
                a = np.array(c.p[what])
                i = tuple(rng.randint(s) for s in a.shape)
                a[i] = v
                c.p[what] = a
            dynamic = bool(rng.randint(2))
            tf.reset_default_graph()
            err = val = None
            try:
                d, x, fd = c.build(dynamic)
                t = d.log_prob(x)
                with session() as sess:
                    val = sess.run(t, fd.feed)
            except Exception as e:
                err = e
            ctx = {'dist': spec.name, 'bad': [what, v], 'dtype': c.pd, 'dynamic': dynamic}
            rec.event('numerics rejections')
            rec.case((spec.name, 'numerics', what, repr(v), c.pd, dynamic))
            rec.check(err is not None, 'numerics-accepted',
                      'check_numerics=True let %s=%s pass' % (what, v), value=val, **ctx)
    for r in range(8):
        regime = ('mod', 'ext')[r % 2]
        c = Case(spec, rng, True)
        pd = c.pd
        sp = {k: (() if k in spec.scalar_params else c.batch) for k in spec.params}
        c.p = ds.gen_params(spec, rng, sp, regime, pd, c.ev)
        c.dtypes = {k: pd for k in c.p}
        vs = tuple(spec.value_shape(c.ev))
        c.x = ds.rnd(spec.values(rng, c.p, c.batch + vs, regime, c.ev), c.sd)
        with np.errstate(all='ignore'):
            ref, sc = spec.logp(c.p, c.x)
        if not np.all(np.isfinite(ref)):
            continue
        if spec.name in ('Normal', 'FoldNormal') and np.any(
                c.p['std'] ** -2. > np.finfo(pd).max / 4):
            continue
        if pd == 'float16' and np.any(sc > 1000):
            continue
        tf.reset_default_graph()
        d, x, fd = c.build(bool(rng.randint(2)))
        lp = d.log_prob(x)
        ctx = {'dist': spec.name, 'dtype': pd, 'regime': regime}
        err = None
        with session() as sess:
            try:
                out = sess.run(lp, fd.feed)
            except tf.errors.OpError as e:
                err = e
        rec.event('valid with check_numerics')
        rec.case((spec.name, 'valid', regime, pd, c.batch, r))
        if rec.check(err is None, 'numerics-alarm', 'check_numerics=True rejected valid arguments: %s'
                     % str(err)[:200], p=c.p, x=c.x, **ctx):
            judge(rec, out, ref, sc, pd, 'numerics-value', ctx)
