"""Registry of the distributions under test: how to generate parameters and
values, how to build them by every public route, and a float64 reference of
their documented log density written independently of the library.

Every reference returns (log density, scale): scale bounds the sum of the
magnitudes a floating point evaluation has to go through, so that
``tol = C * eps(dtype) * scale`` is the rounding error allowed.
"""
import numpy as np
from scipy import special as sp

EPS = {'float16': 2. ** -10, 'float32': 2. ** -23, 'float64': 2. ** -52}
CTOL = {'float16': 8., 'float32': 40., 'float64': 40.}
LOG2PI = np.log(2 * np.pi)


def softplus(x):
    return np.logaddexp(0., x)


def lse(x):
    m = np.max(x, -1, keepdims=True)
    m = np.where(np.isfinite(m), m, 0.)
    return (np.log(np.sum(np.exp(x - m), -1, keepdims=True)) + m)[..., 0]


def rnd(x, dtype):
    """Round to dtype, back in float64."""
    return np.asarray(x, dtype=dtype).astype(np.float64)


def loguniform(rng, lo, hi, shape):
    return np.exp(rng.uniform(np.log(lo), np.log(hi), shape))


def signed(rng, x):
    return x * rng.choice([-1., 1.], np.shape(x))


class Spec(object):
    """name        class name in zhusuan.distributions
    params         parameter names in positional order
    vrank          rank of a single value
    bn, bn_alias   BayesianNet methods
    """
    vrank = 0
    params = ()
    aliases = ()
    bn_alias = None
    discrete = False
    reparam = False          # accepts is_reparameterized
    path = False             # accepts use_path_derivative
    check_numerics = False   # accepts check_numerics
    samples = True
    scalar_params = ()       # parameters that have to be scalars
    extra = {}               # extra constructor arguments (default)
    param_dtypes = ('float32', 'float64', 'float16')
    sample_dtypes = None     # for discrete distributions
    broadcasts = True        # parameters broadcast against each other
    support_edge = False     # defines log_prob = -inf outside the support

    def event_shape(self, ev):
        """{param: trailing shape} for event sizes ev (tuple)"""
        return {p: () for p in self.params}

    def value_shape(self, ev):
        return ()

    def ev(self, rng):
        return ()

    def ctor(self, D, p, **kw):
        """Build via the Distribution class; p: {name: array or tensor}."""
        return getattr(D, self.name)(*[p[k] for k in self.params], **kw)

    def bn_args(self, p, **kw):
        return tuple(p[k] for k in self.params), kw

    def logp(self, p, x, **extra):
        raise NotImplementedError()


def _mean_std(p):
    if 'logstd' in p:
        return p['mean'], np.exp(p['logstd']), p['logstd']
    return p['mean'], p['std'], np.log(p['std'])


class Normal(Spec):
    name, bn, params = 'Normal', 'normal', ('mean', 'std')
    reparam = path = check_numerics = True

    def ctor(self, D, p, **kw):
        args, kw = self.bn_args(p, **kw)
        return getattr(D, self.name)(*args, **kw)

    def bn_args(self, p, **kw):
        kw = dict(kw)
        for k in ('std', 'logstd'):
            if k in p:
                kw[k] = p[k]
        return (p['mean'],), kw

    def gen(self, rng, shapes, regime, dtype, ev=()):
        if regime == 'mod':
            mean = rng.normal(0, 2, shapes['mean'])
            std = loguniform(rng, .2, 4., shapes['std'])
        else:
            k = {'float16': 3., 'float32': 1e6, 'float64': 1e25}[dtype]
            m = {'float16': 30., 'float32': 1e5, 'float64': 1e12}[dtype]
            mean = signed(rng, loguniform(rng, 1e-3, m, shapes['mean']))
            std = loguniform(rng, 1. / k, k, shapes['std'])
        return {'mean': mean, 'std': std}

    def values(self, rng, p, shape, regime, ev=()):
        m, s, _ = _mean_std(p)
        z = rng.normal(0, 1, shape) if regime == 'mod' else \
            rng.normal(0, 1, shape) * rng.choice([.1, 1., 5.], shape)
        return m + s * z

    def logp(self, p, x):
        m, s, ls = _mean_std(p)
        z = (x - m) / s
        q = .5 * z * z
        return -.5 * LOG2PI - ls - q, 1 + np.abs(ls) + q * (2 + 2 * np.abs(ls))


class FoldNormal(Normal):
    name, bn = 'FoldNormal', 'fold_normal'
    support_edge = True

    def values(self, rng, p, shape, regime, ev=()):
        return np.abs(Normal.values(self, rng, p, shape, regime))

    def logp(self, p, x):
        m, s, ls = _mean_std(p)
        z1, z2 = (x - m) / s, (x + m) / s
        lp = -.5 * LOG2PI - ls + np.logaddexp(-.5 * z1 * z1, -.5 * z2 * z2)
        t = np.abs(m / s * (x / s)) * 2
        sc = 1 + np.abs(ls) + (.5 * z1 * z1 + t) * (2 + 2 * np.abs(ls))
        return np.where(x >= 0, lp, -np.inf), sc


class Bernoulli(Spec):
    name, bn, params = 'Bernoulli', 'bernoulli', ('logits',)
    discrete = True
    sample_dtypes = ('int32', 'int64', 'int16', 'float32', 'float64', 'float16')

    def gen(self, rng, shapes, regime, dtype, ev=()):
        s = 2. if regime == 'mod' else (8. if dtype == 'float16' else 60.)
        return {'logits': rng.normal(0, s, shapes['logits'])}

    def values(self, rng, p, shape, regime, ev=()):
        return rng.randint(0, 2, shape).astype(float)

    def logp(self, p, x):
        l = p['logits']
        return -softplus(np.where(x > .5, -l, l)), 1 + np.abs(l)


class Categorical(Spec):
    name, bn, params = 'Categorical', 'categorical', ('logits',)
    aliases, bn_alias = ('Discrete',), 'discrete'
    discrete = True
    param_dtypes = ('float32', 'float64')
    sample_dtypes = ('int32', 'int64', 'float32', 'float64')

    def ev(self, rng):
        return (int(rng.choice([1, 2, 3, 5, 9])),)

    def event_shape(self, ev):
        return {'logits': ev}

    def gen(self, rng, shapes, regime, dtype, ev=()):
        s = 1.5 if regime == 'mod' else 40.
        off = 0. if regime == 'mod' else rng.normal(0, 200.)
        return {'logits': rng.normal(0, s, shapes['logits']) + off}

    def values(self, rng, p, shape, regime, ev=()):
        return rng.randint(0, p['logits'].shape[-1], shape).astype(float)

    def logp(self, p, x):
        l = p['logits']
        shape = np.broadcast_shapes(l.shape[:-1], np.shape(x))
        lb = np.broadcast_to(l, shape + l.shape[-1:])
        xb = np.broadcast_to(x, shape).astype(int)
        sel = np.take_along_axis(lb, xb[..., None], -1)[..., 0]
        return sel - lse(lb), 1 + 3 * np.max(np.abs(lb), -1)


class Uniform(Spec):
    name, bn, params = 'Uniform', 'uniform', ('minval', 'maxval')
    reparam = check_numerics = True
    support_edge = True

    def gen(self, rng, shapes, regime, dtype, ev=()):
        if regime == 'mod':
            a = rng.uniform(-2, 1, shapes['minval'])
            b = rng.uniform(1.2, 4, shapes['maxval'])
        else:
            k = {'float16': 100., 'float32': 1e12, 'float64': 1e60}[dtype]
            a = -loguniform(rng, 1. / k, k, shapes['minval'])
            b = loguniform(rng, 1. / k, k, shapes['maxval'])
        return {'minval': a, 'maxval': b}

    def values(self, rng, p, shape, regime, ev=()):
        a, b = p['minval'], p['maxval']
        return a + (b - a) * rng.uniform(.001, .99, shape)

    def logp(self, p, x):
        a, b = p['minval'], p['maxval']
        lp = -np.log(b - a)
        return np.where((x >= a) & (x < b), lp, -np.inf), 1 + np.abs(lp) + 0 * x


class Gamma(Spec):
    name, bn, params = 'Gamma', 'gamma', ('alpha', 'beta')
    check_numerics = True

    def gen(self, rng, shapes, regime, dtype, ev=()):
        if regime == 'mod':
            return {'alpha': loguniform(rng, .7, 6., shapes['alpha']),
                    'beta': loguniform(rng, .3, 4., shapes['beta'])}
        k = {'float16': 10., 'float32': 1e4, 'float64': 1e8}[dtype]
        return {'alpha': loguniform(rng, 5. / k if dtype == 'float16' else 1. / k, k, shapes['alpha']),
                'beta': loguniform(rng, 1. / k, k, shapes['beta'])}

    def values(self, rng, p, shape, regime, ev=()):
        a, b = p['alpha'], p['beta']
        return (a + .02) / b * rng.uniform(.3, 2., shape)

    def logp(self, p, x):
        a, b = p['alpha'], p['beta']
        t = [a * np.log(b), -sp.gammaln(a), (a - 1) * np.log(x), -b * x]
        return sum(t), 1 + a + sum(np.abs(v) for v in t) + np.abs(np.log(x)) * (1 + a)


class Beta(Spec):
    name, bn, params = 'Beta', 'beta', ('alpha', 'beta')
    check_numerics = True

    def gen(self, rng, shapes, regime, dtype, ev=()):
        k = 1. if regime == 'mod' else {'float16': 5., 'float32': 100., 'float64': 1e4}[dtype]
        return {'alpha': loguniform(rng, .7 / k, 5. * k, shapes['alpha']),
                'beta': loguniform(rng, .7 / k, 5. * k, shapes['beta'])}

    def values(self, rng, p, shape, regime, ev=()):
        return rng.uniform(.02, .98, shape)

    def logp(self, p, x):
        a, b = p['alpha'], p['beta']
        t = [(a - 1) * np.log(x), (b - 1) * np.log1p(-x)]
        lb = sp.gammaln(a) + sp.gammaln(b) - sp.gammaln(a + b)
        sc = 1 + sum(np.abs(v) for v in t) + np.abs(sp.gammaln(a)) + \
            np.abs(sp.gammaln(b)) + np.abs(sp.gammaln(a + b)) + (a + b) * (1 + np.log1p(a + b)) + \
            b * x / (1 - x)
        return t[0] + t[1] - lb, sc


class Poisson(Spec):
    name, bn, params = 'Poisson', 'poisson', ('rate',)
    discrete = True
    check_numerics = True
    support_edge = True
    sample_dtypes = Bernoulli.sample_dtypes

    def gen(self, rng, shapes, regime, dtype, ev=()):
        if regime == 'mod':
            return {'rate': loguniform(rng, .3, 12., shapes['rate'])}
        k = {'float16': 20., 'float32': 3000., 'float64': 3000.}[dtype]
        return {'rate': loguniform(rng, 1. / k, k, shapes['rate'])}

    def values(self, rng, p, shape, regime, ev=()):
        return np.floor(p['rate'] * rng.uniform(.3, 1.7, shape) + rng.uniform(0, 3, shape))

    def logp(self, p, x):
        r = p['rate']
        t = [x * np.log(r), -r, -sp.gammaln(np.where(x < 0, 1., x) + 1)]
        return np.where(x < 0, -np.inf, sum(t)), 1 + sum(np.abs(v) for v in t)


class Binomial(Spec):
    name, bn, params = 'Binomial', 'binomial', ('logits',)
    discrete = True
    check_numerics = True
    support_edge = True
    extra = {'n_experiments': 7}
    sample_dtypes = Bernoulli.sample_dtypes

    def ctor(self, D, p, n_experiments=7, **kw):
        return D.Binomial(p['logits'], n_experiments, **kw)

    def bn_args(self, p, n_experiments=7, **kw):
        return (p['logits'], n_experiments), kw

    def gen(self, rng, shapes, regime, dtype, ev=()):
        s = 1.5 if regime == 'mod' else (6. if dtype == 'float16' else 40.)
        return {'logits': rng.normal(0, s, shapes['logits'])}

    def values(self, rng, p, shape, regime, ev=(), n_experiments=7):
        return rng.randint(0, n_experiments + 1, shape).astype(float)

    def logp(self, p, x, n_experiments=7):
        l, n = p['logits'], float(n_experiments)
        ok = (x >= 0) & (x <= n)
        xs = np.where(ok, x, 0.)
        g = [sp.gammaln(n + 1) + 0 * xs, -sp.gammaln(n - xs + 1), -sp.gammaln(xs + 1)]
        t = [xs * l, -n * softplus(l)]
        return np.where(ok, sum(g) + sum(t), -np.inf), \
            1 + sum(np.abs(v) for v in g) + sum(np.abs(v) for v in t)


class InverseGamma(Spec):
    name, bn, params = 'InverseGamma', 'inverse_gamma', ('alpha', 'beta')
    check_numerics = True

    def gen(self, rng, shapes, regime, dtype, ev=()):
        if regime == 'mod':
            return {'alpha': loguniform(rng, 1., 6., shapes['alpha']),
                    'beta': loguniform(rng, .3, 4., shapes['beta'])}
        return Gamma.gen(self, rng, shapes, regime, dtype)

    def values(self, rng, p, shape, regime, ev=()):
        return p['beta'] / (p['alpha'] + .1) * rng.uniform(.3, 3., shape)

    def logp(self, p, x):
        a, b = p['alpha'], p['beta']
        t = [a * np.log(b), -sp.gammaln(a), -(a + 1) * np.log(x), -b / x]
        return sum(t), 1 + a + sum(np.abs(v) for v in t)


class Laplace(Spec):
    name, bn, params = 'Laplace', 'laplace', ('loc', 'scale')
    reparam = path = check_numerics = True

    def gen(self, rng, shapes, regime, dtype, ev=()):
        g = Normal.gen(self, rng, {'mean': shapes['loc'], 'std': shapes['scale']}, regime, dtype)
        return {'loc': g['mean'], 'scale': g['std']}

    def values(self, rng, p, shape, regime, ev=()):
        return p['loc'] + p['scale'] * rng.laplace(0, 1, shape) * (1. if regime == 'mod' else 4.)

    def logp(self, p, x):
        z = np.abs(x - p['loc']) / p['scale']
        ls = np.log(p['scale'])
        return -np.log(2.) - ls - z, 1 + np.abs(ls) + 2 * z


class BinConcrete(Spec):
    name, bn, params = 'BinConcrete', 'bin_concrete', ('temperature', 'logits')
    aliases, bn_alias = ('BinGumbelSoftmax',), 'bin_gumbel_softmax'
    reparam = path = check_numerics = True
    scalar_params = ('temperature',)

    def gen(self, rng, shapes, regime, dtype, ev=()):
        t = rng.uniform(.5, 1.5) if regime == 'mod' else \
            float(loguniform(rng, .2 if dtype == 'float16' else .02, 10., ()))
        s = 1.5 if regime == 'mod' else (4. if dtype == 'float16' else 30.)
        return {'temperature': np.array(t), 'logits': rng.normal(0, s, shapes['logits'])}

    def values(self, rng, p, shape, regime, ev=()):
        if regime == 'mod':
            return rng.uniform(.03, .97, shape)
        return np.clip(1. / (1 + np.exp(-rng.normal(0, 3., shape))), 1e-3, 1 - 1e-3)

    def logp(self, p, x):
        t, l = p['temperature'], p['logits']
        lx, l1 = np.log(x), np.log1p(-x)
        u = t * (lx - l1) - l
        lp = np.log(t) - lx - l1 + u - 2 * softplus(u)
        sc = 1 + np.abs(np.log(t)) + (1 + 3 * t) * (np.abs(lx) + np.abs(l1) + x / (1 - x)) + \
            3 * np.abs(l) + 3 * np.abs(u)
        return lp, sc


class MultivariateNormalCholesky(Spec):
    name, bn = 'MultivariateNormalCholesky', 'multivariate_normal_cholesky'
    params = ('mean', 'cov_tril')
    vrank = 1
    reparam = path = check_numerics = True
    broadcasts = False
    param_dtypes = ('float32', 'float64')

    def ev(self, rng):
        return (int(rng.choice([1, 2, 3, 4])),)

    def event_shape(self, ev):
        return {'mean': ev, 'cov_tril': ev + ev}

    def value_shape(self, ev):
        return ev

    def gen(self, rng, shapes, regime, dtype, ev=()):
        s = 1. if regime == 'mod' else loguniform(rng, .01, 100., ())
        n = shapes['cov_tril'][-1]
        L = np.tril(rng.normal(0, .6 if n <= 4 else .6 / np.sqrt(n), shapes['cov_tril']), -1)
        d = loguniform(rng, .5, 2., shapes['cov_tril'][:-1])
        L = (L + d[..., None] * np.eye(n)) * s
        return {'mean': rng.normal(0, 2, shapes['mean']) * s, 'cov_tril': L}

    def values(self, rng, p, shape, regime, ev=()):
        z = rng.normal(0, 1, shape)
        return p['mean'] + np.einsum('...ij,...j->...i', p['cov_tril'], z)

    def logp(self, p, x):
        L = p['cov_tril']
        n = L.shape[-1]
        Li = np.linalg.inv(L)
        y = x - p['mean']
        z = np.einsum('...ij,...j->...i', Li, y)
        ld = np.log(np.diagonal(L, axis1=-2, axis2=-1))
        q = .5 * np.sum(z * z, -1)
        e = np.einsum('...ij,...j->...i', np.abs(Li) @ np.abs(L), np.abs(z))
        sc = 1 + n + np.sum(np.abs(ld), -1) + np.sum(np.abs(z) * e, -1) * (n + 1)
        return -.5 * n * LOG2PI - np.sum(ld, -1) - q, sc


class Multinomial(Spec):
    name, bn, params = 'Multinomial', 'multinomial', ('logits',)
    vrank = 1
    discrete = True
    extra = {'n_experiments': 6}
    sample_dtypes = Bernoulli.sample_dtypes

    def ctor(self, D, p, n_experiments=6, **kw):
        return D.Multinomial(p['logits'], n_experiments, **kw)

    def bn_args(self, p, n_experiments=6, **kw):
        return (p['logits'], n_experiments), kw

    def ev(self, rng):
        return (int(rng.choice([1, 2, 3, 5])),)

    def event_shape(self, ev):
        return {'logits': ev}

    def value_shape(self, ev):
        return ev

    def gen(self, rng, shapes, regime, dtype, ev=()):
        s = 1.2 if regime == 'mod' else (4. if dtype == 'float16' else 30.)
        return {'logits': rng.normal(0, s, shapes['logits'])}

    def values(self, rng, p, shape, regime, ev=(), n_experiments=6):
        if n_experiments is None:
            return rng.randint(0, 5, shape).astype(float)
        k = shape[-1]
        flat = rng.multinomial(n_experiments, np.ones(k) / k, int(np.prod(shape[:-1])))
        return flat.reshape(shape).astype(float)

    def logp(self, p, x, n_experiments=6, normalize_logits=True):
        l = p['logits']
        nl = l - lse(l)[..., None] if normalize_logits else l
        n = np.sum(x, -1) if n_experiments is None else float(n_experiments)
        g = sp.gammaln(n + 1) - np.sum(sp.gammaln(x + 1), -1)
        t = np.sum(x * nl, -1)
        ns = np.sum(x, -1)
        sc = 1 + np.abs(sp.gammaln(n + 1)) + np.sum(np.abs(sp.gammaln(x + 1)), -1) + \
            np.sum(np.abs(x * nl), -1) + ns * (1 + 3 * np.max(np.abs(l), -1))
        return g + t, sc


class UnnormalizedMultinomial(Multinomial):
    name, bn = 'UnnormalizedMultinomial', 'unnormalized_multinomial'
    aliases, bn_alias = ('BagofCategoricals',), 'bag_of_categoricals'
    samples = False
    extra = {}

    def ctor(self, D, p, **kw):
        return D.UnnormalizedMultinomial(p['logits'], **kw)

    def bn_args(self, p, **kw):
        return (p['logits'],), kw

    def values(self, rng, p, shape, regime, ev=()):
        return rng.randint(0, 5, shape).astype(float)

    def logp(self, p, x, normalize_logits=True):
        l = p['logits']
        nl = l - lse(l)[..., None] if normalize_logits else l
        ns = np.sum(x, -1)
        return np.sum(x * nl, -1), 1 + np.sum(np.abs(x * nl), -1) + ns * (1 + 3 * np.max(np.abs(l), -1))


class OnehotCategorical(Spec):
    name, bn, params = 'OnehotCategorical', 'onehot_categorical', ('logits',)
    aliases, bn_alias = ('OnehotDiscrete',), 'onehot_discrete'
    vrank = 1
    discrete = True
    sample_dtypes = Bernoulli.sample_dtypes

    def ev(self, rng):
        return (int(rng.choice([1, 2, 3, 5])),)

    def event_shape(self, ev):
        return {'logits': ev}

    def value_shape(self, ev):
        return ev

    def gen(self, rng, shapes, regime, dtype, ev=()):
        s = 1.2 if regime == 'mod' else (6. if dtype == 'float16' else 40.)
        return {'logits': rng.normal(0, s, shapes['logits'])}

    def values(self, rng, p, shape, regime, ev=()):
        k = shape[-1]
        return np.eye(k)[rng.randint(0, k, shape[:-1])]

    def logp(self, p, x):
        l = p['logits']
        return np.sum(x * l, -1) - lse(l), 1 + 3 * np.max(np.abs(l), -1)


class Dirichlet(Spec):
    name, bn, params = 'Dirichlet', 'dirichlet', ('alpha',)
    vrank = 1
    check_numerics = True

    def ev(self, rng):
        return (int(rng.choice([2, 3, 4])),)

    def event_shape(self, ev):
        return {'alpha': ev}

    def value_shape(self, ev):
        return ev

    def gen(self, rng, shapes, regime, dtype, ev=()):
        k = 1. if regime == 'mod' else {'float16': 4., 'float32': 100., 'float64': 1e4}[dtype]
        return {'alpha': loguniform(rng, .7 / k, 5. * k, shapes['alpha'])}

    def values(self, rng, p, shape, regime, ev=()):
        g = rng.gamma(2., 1., shape) + .05
        return g / np.sum(g, -1, keepdims=True)

    def logp(self, p, x):
        a = p['alpha']
        lb = np.sum(sp.gammaln(a), -1) - sp.gammaln(np.sum(a, -1))
        t = (a - 1) * np.log(x)
        s = np.sum(a, -1)
        sc = 1 + np.sum(np.abs(sp.gammaln(a)), -1) + np.abs(sp.gammaln(s)) + \
            np.sum(np.abs(t), -1) + s * (1 + np.log1p(s))
        return np.sum(t, -1) - lb, sc


class ExpConcrete(Spec):
    name, bn, params = 'ExpConcrete', 'exp_concrete', ('temperature', 'logits')
    aliases, bn_alias = ('ExpGumbelSoftmax',), 'exp_gumbel_softmax'
    vrank = 1
    reparam = path = check_numerics = True
    scalar_params = ('temperature',)

    def ev(self, rng):
        return (int(rng.choice([2, 3, 4])),)

    def event_shape(self, ev):
        return {'temperature': (), 'logits': ev}

    def value_shape(self, ev):
        return ev

    def gen(self, rng, shapes, regime, dtype, ev=()):
        t = rng.uniform(.5, 1.5) if regime == 'mod' else \
            float(loguniform(rng, .3 if dtype == 'float16' else .05, 8., ()))
        s = 1.2 if regime == 'mod' else (3. if dtype == 'float16' else 20.)
        return {'temperature': np.array(t), 'logits': rng.normal(0, s, shapes['logits'])}

    def simplex(self, rng, shape, regime):
        g = rng.gamma(1.5, 1., shape) + .02
        return g / np.sum(g, -1, keepdims=True)

    def values(self, rng, p, shape, regime, ev=()):
        return np.log(self.simplex(rng, shape, regime))

    def logp(self, p, x):
        t, l = p['temperature'], p['logits']
        n = l.shape[-1]
        u = l - t * x
        lp = sp.gammaln(n) + (n - 1) * np.log(t) + np.sum(u, -1) - n * lse(u)
        a = np.abs(l) + np.abs(t * x)
        sc = 1 + sp.gammaln(n) + n * np.abs(np.log(t)) + 3 * np.sum(a, -1) + 3 * n * np.max(a, -1) + n
        return lp, sc


class Concrete(ExpConcrete):
    name, bn = 'Concrete', 'concrete'
    aliases, bn_alias = ('GumbelSoftmax',), 'gumbel_softmax'

    def values(self, rng, p, shape, regime, ev=()):
        return self.simplex(rng, shape, regime)

    def logp(self, p, x):
        lx = np.log(x)
        lp, sc = ExpConcrete.logp(self, p, lx)
        return lp - np.sum(lx, -1), sc + 2 * np.sum(np.abs(lx), -1)


class MatrixVariateNormalCholesky(Spec):
    name, bn = 'MatrixVariateNormalCholesky', 'matrix_variate_normal_cholesky'
    params = ('mean', 'u_tril', 'v_tril')
    vrank = 2
    reparam = path = check_numerics = True
    broadcasts = False
    param_dtypes = ('float32', 'float64')

    def ev(self, rng):
        return (int(rng.choice([1, 2, 3])), int(rng.choice([1, 2, 3])))

    def event_shape(self, ev):
        return {'mean': ev, 'u_tril': (ev[0], ev[0]), 'v_tril': (ev[1], ev[1])}

    def value_shape(self, ev):
        return ev

    def gen(self, rng, shapes, regime, dtype, ev=()):
        m = MultivariateNormalCholesky()
        out = {}
        for k in ('u_tril', 'v_tril'):
            out[k] = m.gen(rng, {'mean': shapes[k][:-1], 'cov_tril': shapes[k]}, regime, dtype)['cov_tril']
        out['mean'] = rng.normal(0, 2, shapes['mean'])
        return out

    def values(self, rng, p, shape, regime, ev=()):
        z = rng.normal(0, 1, shape)
        return p['mean'] + p['u_tril'] @ z @ np.swapaxes(p['v_tril'], -1, -2)

    def logp(self, p, x):
        U, V = p['u_tril'], p['v_tril']
        r, c = U.shape[-1], V.shape[-1]
        Ui, Vi = np.linalg.inv(U), np.linalg.inv(V)
        z = Ui @ (x - p['mean']) @ np.swapaxes(Vi, -1, -2)
        lu = np.log(np.diagonal(U, axis1=-2, axis2=-1))
        lv = np.log(np.diagonal(V, axis1=-2, axis2=-1))
        e = (np.abs(Ui) @ np.abs(U)) @ np.abs(z) @ np.swapaxes(np.abs(Vi) @ np.abs(V), -1, -2)
        lp = -.5 * r * c * LOG2PI - c * np.sum(lu, -1) - r * np.sum(lv, -1) - .5 * np.sum(z * z, (-1, -2))
        sc = 1 + r * c + c * np.sum(np.abs(lu), -1) + r * np.sum(np.abs(lv), -1) + \
            np.sum(np.abs(z) * e, (-1, -2)) * (r + c + 1)
        return lp, sc


SPECS = [c() for c in (
    Normal, FoldNormal, Bernoulli, Categorical, Uniform, Gamma, Beta, Poisson,
    Binomial, InverseGamma, Laplace, BinConcrete, MultivariateNormalCholesky,
    Multinomial, UnnormalizedMultinomial, OnehotCategorical, Dirichlet,
    ExpConcrete, Concrete, MatrixVariateNormalCholesky)]
BY_NAME = {s.name: s for s in SPECS}


def wide_ev(spec, rng):
    """Event sizes well beyond the usual ones, or None for scalar values."""
    if spec.name == 'MultivariateNormalCholesky':
        return (int(rng.randint(20, 70)),)
    if spec.name == 'MatrixVariateNormalCholesky':
        return (int(rng.randint(4, 12)), int(rng.randint(4, 12)))
    if spec.name in ('Dirichlet', 'ExpConcrete', 'Concrete'):
        return (int(rng.randint(15, 60)),)
    return (int(rng.randint(30, 400)),) if spec.ev(rng) else None


def shapes_for(spec, batch_shapes, ev):
    """batch_shapes: {param: batch shape} or one shape for all."""
    out = {}
    es = spec.event_shape(ev)
    for p in spec.params:
        b = batch_shapes[p] if isinstance(batch_shapes, dict) else batch_shapes
        out[p] = es[p] if p in spec.scalar_params else tuple(b) + tuple(es[p])
    return out


def gen_params(spec, rng, batch_shapes, regime, dtype, ev):
    """Parameters rounded to dtype, as float64 arrays."""
    p = spec.gen(rng, shapes_for(spec, batch_shapes, ev), regime, dtype, ev)
    return {k: rnd(v, dtype) for k, v in p.items()}


def value_dtype(spec, pdtype, sdtype=None):
    return sdtype if spec.discrete else pdtype


def tol(dtype, scale):
    return CTOL[dtype] * EPS[dtype] * scale
