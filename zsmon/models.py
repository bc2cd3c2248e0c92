"""Random Bayesian networks with a NumPy shadow.

Every node has batch shape (B,), float64 values and parameters that are smooth
functions of c0 + sum_i c_i * tanh(parent_i). The shadow recomputes parameters
and log densities from the node values a session run returned, so it only
agrees with the library if every dependant used exactly those values.
"""
import numpy as np
import tensorflow as tf
from zsmon import dists as ds

B = 4
KINDS = ('normal', 'normal_ls', 'laplace', 'bernoulli', 'gamma', 'poisson', 'beta',
         'fold_normal', 'uniform')
SPEC = {'normal': 'Normal', 'normal_ls': 'Normal', 'laplace': 'Laplace', 'bernoulli': 'Bernoulli',
        'gamma': 'Gamma', 'poisson': 'Poisson', 'beta': 'Beta', 'fold_normal': 'FoldNormal',
        'uniform': 'Uniform'}
REPARAM = ('normal', 'normal_ls', 'laplace', 'fold_normal', 'uniform')


class NodeDef(object):
    def __init__(self, rng, name, parents, group=0, kind=None, n_samples=None, batch=B):
        self.name, self.parents, self.group, self.n_samples = name, list(parents), group, n_samples
        self.kind = kind or KINDS[rng.randint(len(KINDS))]
        self.batch = batch
        self.shape = tuple(batch) if isinstance(batch, (tuple, list)) else (batch,)
        self.c0 = np.asarray(rng.normal(0, .7, self.shape))
        self.c = {p: float(rng.normal(0, 1.)) for p in parents}
        self.a = np.asarray(rng.uniform(.5, 1.5, self.shape))
        self.spec = ds.BY_NAME[SPEC[self.kind]]

    def u(self, vals, m):
        r = self.c0
        for p in self.parents:
            r = r + self.c[p] * m.tanh(vals[p])
        return r

    def params(self, vals, m):
        """vals: {name: value}; m: np or tf"""
        u, a, k = self.u(vals, m), self.a, self.kind
        if k in ('normal', 'fold_normal'):
            return {'mean': u, 'std': a}
        if k == 'normal_ls':
            return {'mean': u, 'logstd': a - 1.}
        if k == 'laplace':
            return {'loc': u, 'scale': a}
        if k == 'bernoulli':
            return {'logits': u}
        if k == 'gamma':
            return {'alpha': 2. + m.tanh(u), 'beta': a}
        if k == 'poisson':
            return {'rate': m.exp(m.tanh(u))}
        if k == 'beta':
            return {'alpha': 2. + m.tanh(u), 'beta': a}
        if k == 'uniform':
            return {'minval': m.tanh(u) - 2., 'maxval': m.tanh(u) + 2.}

    def kwargs(self):
        kw = {'group_ndims': self.group}
        if self.spec.discrete:
            kw['dtype'] = tf.float64
        return kw

    def value(self, rng, lead=()):
        s = tuple(lead) + self.shape
        k = self.kind
        if k in ('normal', 'normal_ls', 'laplace'):
            return np.asarray(rng.normal(0, 1.5, s))
        if k == 'bernoulli':
            return np.asarray(rng.randint(0, 2, s), float)
        if k == 'poisson':
            return np.asarray(rng.randint(0, 5, s), float)
        if k == 'beta':
            return np.asarray(rng.uniform(.1, .9, s))
        if k == 'uniform':
            return np.asarray(rng.uniform(-.9, .9, s))
        return np.asarray(rng.uniform(.2, 3., s))

    def observation(self, rng, lead=()):
        """A value in one of the forms a user may pass: an array, a list, a
        tensor, or (where it is in the support) the Python scalar 0."""
        v = self.value(rng, lead)
        r = rng.randint(6)
        if r == 0 and self.kind in ('normal', 'normal_ls', 'laplace', 'bernoulli', 'poisson', 'uniform'):
            return 0. if rng.randint(2) else np.zeros(())
        if r == 1:
            return v.tolist()
        if r == 2:
            return np.zeros_like(v) if self.kind in ('normal', 'laplace', 'bernoulli', 'poisson') else v
        return v

    def tf_params(self, vals):
        p = self.params(vals, tf)
        return {k: tf.convert_to_tensor(v, dtype=tf.float64) for k, v in p.items()}

    def distribution(self, zs, vals):
        return self.spec.ctor(zs.distributions, self.tf_params(vals), **self.kwargs())

    def add(self, zs, bn, vals, route='shortcut', n_samples='own'):
        """Adds the node to bn by one of the public routes."""
        n = self.n_samples if n_samples == 'own' else n_samples
        if route == 'stochastic':
            return bn.stochastic(self.name, self.distribution(zs, vals), n_samples=n)
        args, kw = self.spec.bn_args(self.tf_params(vals), **self.kwargs())
        if route == 'shortcut':
            return getattr(bn, self.spec.bn)(self.name, *args, n_samples=n, **kw)
        if route == 'legacy':
            with bn:
                return getattr(zs, self.spec.name)(self.name, *args, n_samples=n, **kw)
        raise ValueError(route)

    def logp(self, vals):
        """Shadow conditional log density at the values of a run."""
        p = {k: np.asarray(v, np.float64) for k, v in self.params(vals, np).items()}
        with np.errstate(all='ignore'):
            v, _ = self.spec.logp(p, np.asarray(vals[self.name], np.float64))
        shape = np.broadcast_shapes(np.shape(v), *[np.shape(q) for q in p.values()])
        v = np.broadcast_to(v, shape)
        return v.sum(tuple(range(-self.group, 0))) if self.group else v


def random_net(rng, n, group=None, kinds=None, prefix='n', lead=None):
    """A random DAG of NodeDefs in topological order."""
    group = int(rng.randint(2)) if group is None else group
    out = []
    for i in range(n):
        k = min(i, int(rng.randint(0, 4)))
        par = [out[j].name for j in rng.permutation(i)[:k]]
        kind = kinds[rng.randint(len(kinds))] if kinds else None
        ns = lead if (not par and lead is not None) else None
        out.append(NodeDef(rng, '%s%d' % (prefix, i), par, group, kind, ns))
    return out


def close(a, b, tol=1e-9):
    a, b = np.asarray(a, np.float64), np.asarray(b, np.float64)
    if a.shape != b.shape:
        return False
    return bool(np.all(np.abs(a - b) <= tol * (1 + np.abs(b))))
