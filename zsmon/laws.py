"""Rosenblatt transforms: map samples of each distribution, given the true
parameters, to values that are independent U(0,1) exactly when the samples
follow the law (discrete laws by randomised PIT)."""
import numpy as np
from scipy import stats as st, special as sp
from zsmon import dists as ds


def rpit(cdf_lo, cdf_hi, rng):
    return cdf_lo + rng.uniform(0, 1, np.shape(cdf_hi)) * (cdf_hi - cdf_lo)


def _normal(p, x, rng):
    m, s, _ = ds._mean_std(p)
    return sp.ndtr((x - m) / s)


def _fold(p, x, rng):
    m, s, _ = ds._mean_std(p)
    return sp.ndtr((x - m) / s) - sp.ndtr((-x - m) / s)


def _bern(p, x, rng):
    q = sp.expit(-p['logits']) + 0 * x
    return rpit(np.where(x > .5, q, 0.), np.where(x > .5, 1., q), rng)


def _cat_index(logits, k, rng):
    pr = np.exp(logits - ds.lse(logits)[..., None])
    cum = np.concatenate([np.zeros(pr.shape[:-1] + (1,)), np.cumsum(pr, -1)], -1)
    cum[..., -1] = 1.
    cum = np.broadcast_to(cum, k.shape + cum.shape[-1:])
    lo = np.take_along_axis(cum, k[..., None], -1)[..., 0]
    hi = np.take_along_axis(cum, k[..., None] + 1, -1)[..., 0]
    return rpit(lo, hi, rng)


def _categorical(p, x, rng):
    return _cat_index(p['logits'], x.astype(int), rng)


def _onehot(p, x, rng):
    return _cat_index(p['logits'], np.argmax(x, -1), rng)[..., None]


def _uniform(p, x, rng):
    return (x - p['minval']) / (p['maxval'] - p['minval'])


def _gamma(p, x, rng):
    return sp.gammainc(p['alpha'], p['beta'] * x)


def _invgamma(p, x, rng):
    return sp.gammaincc(p['alpha'], p['beta'] / x)


def _beta(p, x, rng):
    return sp.betainc(p['alpha'] + 0 * x, p['beta'] + 0 * x, np.clip(x, 0, 1))


def _poisson(p, x, rng):
    r = p['rate'] + 0 * x
    lo = np.where(x > 0, sp.pdtr(np.maximum(x - 1, 0), r), 0.)
    return rpit(lo, sp.pdtr(np.maximum(x, 0), r), rng)


def _bin_cdf(k, n, pr):
    """P(X <= k), X ~ Bin(n, pr); arrays; k may be -1."""
    k, n, pr = np.broadcast_arrays(k, n, pr)
    out = np.ones(k.shape)
    out[k < 0] = 0.
    mid = (k >= 0) & (k < n)
    out[mid] = sp.betainc(n[mid] - k[mid], k[mid] + 1., 1 - pr[mid])
    return out


def _binomial(p, x, rng, n_experiments=7):
    pr = sp.expit(p['logits']) + 0 * x
    n = float(n_experiments) + 0 * x
    return rpit(_bin_cdf(x - 1, n, pr), _bin_cdf(x, n, pr), rng)


def _multinomial(p, x, rng, n_experiments=6):
    l = p['logits']
    pr = np.exp(l - ds.lse(l)[..., None])
    k = x.shape[-1]
    us = []
    rest_n = float(n_experiments) * np.ones(x.shape[:-1])
    rest_p = np.ones(pr.shape[:-1])
    for i in range(k - 1):
        q = np.clip(pr[..., i] / np.maximum(rest_p, 1e-300), 0, 1) + 0 * rest_n
        xi = x[..., i]
        us.append(rpit(_bin_cdf(xi - 1, rest_n, q), _bin_cdf(xi, rest_n, q), rng))
        rest_n = rest_n - xi
        rest_p = rest_p - pr[..., i]
    if not us:
        us = [rng.uniform(0, 1, x.shape[:-1])]
    return np.stack(us, -1)


def _laplace(p, x, rng):
    z = (x - p['loc']) / p['scale']
    return np.where(z < 0, .5 * np.exp(np.minimum(z, 0)), 1 - .5 * np.exp(-np.maximum(z, 0)))


def _binconcrete(p, x, rng):
    with np.errstate(divide='ignore'):
        return sp.expit(p['temperature'] * (np.log(x) - np.log1p(-x)) - p['logits'])


def _mvn(p, x, rng):
    z = np.einsum('...ij,...j->...i', np.linalg.inv(p['cov_tril']), x - p['mean'])
    return sp.ndtr(z)


def _matnorm(p, x, rng):
    z = np.linalg.inv(p['u_tril']) @ (x - p['mean']) @ np.swapaxes(np.linalg.inv(p['v_tril']), -1, -2)
    return sp.ndtr(z).reshape(z.shape[:-2] + (-1,))


def _stick(alpha, x):
    k = x.shape[-1]
    us = []
    rest_x = np.ones(x.shape[:-1])
    rest_a = np.sum(alpha, -1)
    for i in range(k - 1):
        rest_a = rest_a - alpha[..., i]
        tail = np.sum(x[..., i:], -1)
        v = np.clip(x[..., i] / np.maximum(tail, 1e-300), 0, 1)
        us.append(sp.betainc(alpha[..., i] + 0 * v, rest_a + 0 * v, v))
    return np.stack(us, -1)


def _dirichlet(p, x, rng):
    return _stick(p['alpha'], x)


def _expconcrete(p, x, rng):
    # exp(-t x_i + l_i) normalised is uniform on the simplex
    d = -p['temperature'] * x + p['logits']
    d = np.exp(d - ds.lse(d)[..., None])
    return _stick(np.ones(d.shape[-1:]), d)


def _concrete(p, x, rng):
    with np.errstate(divide='ignore'):
        return _expconcrete(p, np.maximum(np.log(x), -800.), rng)


PIT = {
    'Normal': _normal, 'FoldNormal': _fold, 'Bernoulli': _bern, 'Categorical': _categorical,
    'Uniform': _uniform, 'Gamma': _gamma, 'Beta': _beta, 'Poisson': _poisson,
    'Binomial': _binomial, 'InverseGamma': _invgamma, 'Laplace': _laplace,
    'BinConcrete': _binconcrete, 'MultivariateNormalCholesky': _mvn,
    'Multinomial': _multinomial, 'OnehotCategorical': _onehot, 'Dirichlet': _dirichlet,
    'ExpConcrete': _expconcrete, 'Concrete': _concrete,
    'MatrixVariateNormalCholesky': _matnorm}


def pit(spec, p, x, rng, **kw):
    """u with shape x.shape[:-vrank] + (components,)"""
    u = PIT[spec.name](p, np.asarray(x, np.float64), rng, **kw)
    return u[..., None] if spec.vrank == 0 else u


def in_support(spec, p, x, **kw):
    """boolean: every sample in the (closed) support"""
    x = np.asarray(x, np.float64)
    n = spec.name
    if not np.all(np.isfinite(x)):
        return False
    isint = lambda: np.all(x == np.floor(x))
    if n in ('Normal', 'Laplace', 'MultivariateNormalCholesky', 'MatrixVariateNormalCholesky'):
        return True
    if n in ('FoldNormal', 'Gamma', 'InverseGamma'):
        return bool(np.all(x >= 0))
    if n == 'Bernoulli':
        return bool(np.all((x == 0) | (x == 1)))
    if n == 'Categorical':
        return bool(isint() and np.all((x >= 0) & (x < p['logits'].shape[-1])))
    if n == 'Uniform':
        return bool(np.all((x >= p['minval']) & (x <= p['maxval'])))
    if n in ('Beta', 'BinConcrete'):
        return bool(np.all((x >= 0) & (x <= 1)))
    if n == 'Poisson':
        return bool(isint() and np.all(x >= 0))
    if n == 'Binomial':
        return bool(isint() and np.all((x >= 0) & (x <= kw.get('n_experiments', 7))))
    if n == 'Multinomial':
        return bool(isint() and np.all(x >= 0) and np.all(x.sum(-1) == kw.get('n_experiments', 6)))
    if n == 'OnehotCategorical':
        return bool(np.all((x == 0) | (x == 1)) and np.all(x.sum(-1) == 1))
    if n in ('Dirichlet', 'Concrete'):
        return bool(np.all((x >= 0) & (x <= 1)) and np.all(np.abs(x.sum(-1) - 1) < 1e-2))
    if n == 'ExpConcrete':
        return bool(np.all(x <= 1e-3) and np.all(np.abs(np.exp(x).sum(-1) - 1) < 1e-2))
    raise KeyError(n)
