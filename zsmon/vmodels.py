"""Random (model, variational net) pairs with trainable parameters and a NumPy
shadow, for the checks of the variational objectives."""
import copy
import itertools
import numpy as np
import tensorflow as tf
from zsmon.models import NodeDef, B, KINDS
from zsmon.tfu import hide

# latent kind in the model -> kinds of q with the same support
COMPAT = {'normal': ('normal', 'normal_ls', 'laplace'), 'normal_ls': ('normal', 'normal_ls', 'laplace'),
          'laplace': ('normal', 'normal_ls', 'laplace'), 'bernoulli': ('bernoulli',), 'gamma': ('gamma',),
          'poisson': ('poisson',), 'beta': ('beta',), 'fold_normal': ('fold_normal', 'gamma')}
PATH_Q = ('normal', 'normal_ls', 'laplace')


class PNode(NodeDef):
    """A node whose coefficients are named parameters."""

    def thetas(self):
        t = {self.name + '/c0': self.c0, self.name + '/a': self.a}
        for p in self.parents:
            t[self.name + '/c/' + p] = np.asarray(self.c[p])
        return t

    def bind(self, th, prefix):
        n = copy.copy(self)
        n.c0 = th[prefix + self.name + '/c0']
        n.a = th[prefix + self.name + '/a']
        n.c = {p: th[prefix + self.name + '/c/' + p] for p in self.parents}
        return n

    def kwargs(self):
        kw = NodeDef.kwargs(self)
        kw.update(getattr(self, 'extra_kw', {}))
        return kw


class VModel(object):
    """p: model nodes in topological order, some observed; q: one node per
    latent of p, possibly depending on each other and on an auxiliary observed
    input node of q."""

    def __init__(self, rng, n_latent, n_obs, group, K, pkinds=None, path=False, aux=False, batch=B,
                 reparam=None, max_parents=3, mixed=False):
        self.group, self.K, self.batch = group, K, batch
        self.p, self.q, self.obs = [], [], {}
        pkinds = tuple(pkinds or (k for k in KINDS if k != 'uniform'))
        if path:
            pkinds = tuple(k for k in pkinds if k in PATH_Q)
        lat, names = [], []
        for i in range(n_latent):
            par = [names[j] for j in rng.permutation(len(names))[:rng.randint(0, max_parents)]]
            nd = PNode(rng, 'z%d' % i, par, group, pkinds[rng.randint(len(pkinds))], batch=batch)
            names.append(nd.name)
            lat.append(nd)
        order = list(lat)
        for i in range(n_obs):
            k = KINDS[rng.randint(len(KINDS) - 1)]          # no uniform observations
            npar = min(len(lat), int(rng.randint(1, 3)))
            par = [lat[j].name for j in rng.permutation(len(lat))[:npar]]
            nd = PNode(rng, 'x%d' % i, par, group, k, batch=batch)
            self.obs[nd.name] = nd.value(rng)
            order.append(nd)
        self.p = order
        self.latent = [n.name for n in lat]
        self.aux = {}
        qn = []
        if aux:
            a = PNode(rng, 'aux', [], group, 'normal', batch=batch)
            self.q.append(a)
            self.aux['aux'] = a.value(rng)
            qn.append('aux')
        for nd in [lat[j] for j in rng.permutation(len(lat))]:
            ks = tuple(k for k in COMPAT[nd.kind] if not path or k in PATH_Q)
            par = [qn[j] for j in rng.permutation(len(qn))[:rng.randint(0, max_parents)]]
            q = PNode(rng, nd.name, par, group, ks[rng.randint(len(ks))], batch=batch)
            if reparam is not None and q.spec.reparam:
                q.extra_kw = {'is_reparameterized': reparam}
            # every latent carries the sample axis
            q.n_samples = K if not any(p != 'aux' for p in par) else None
            if mixed and len(qn) > int(aux) and q.n_samples is not None and rng.randint(2):
                q.n_samples = None          # a latent without the sample axis
            self.q.append(q)
            qn.append(nd.name)
        self.theta = {}
        for pre, nodes in (('p:', self.p), ('q:', self.q)):
            for n in nodes:
                for k, v in n.thetas().items():
                    self.theta[pre + k] = np.asarray(v, np.float64)

    # what is not known statically: the number of samples, shapes of observations, shapes of parameters
    hide_K, hide_obs, hide_par = False, 'static', 'static'

    def unknown(self, rng, rank=True):
        """Hides some of the shapes, as minibatch placeholders do (rank=False: the number of axes stays known)."""
        if rng.rand() < .4:
            return 'static'
        how = ('static', 'rank', 'partial') + (('unknown',) if rank else ())
        self.hide_K = bool(rng.randint(2))
        self.hide_obs = how[rng.randint(len(how))]
        self.hide_par = how[rng.randint(len(how))]
        self._hide_seed = int(rng.randint(2 ** 31))
        return 'K %s, observations %s, parameters %s' % ('hidden' if self.hide_K else 'static', self.hide_obs,
                                                         self.hide_par)

    def _hide(self, v, how):
        if how == 'static':
            return v
        return tf.placeholder_with_default(v, hide(v.shape.as_list(), how, np.random.RandomState(self._hide_seed)))

    def _bind(self, n, tv, prefix):
        n = n.bind(tv, prefix)
        if self.hide_par != 'static':
            n.c0, n.a = self._hide(n.c0, self.hide_par), self._hide(n.a, self.hide_par)
            n.c = {k: self._hide(v, self.hide_par) for k, v in n.c.items()}
        return n

    # -- real code ----------------------------------------------------------
    def variables(self):
        return {k: tf.Variable(v, dtype=tf.float64, trainable=True) for k, v in self.theta.items()}

    def meta(self, zs, tv, routes=('shortcut', 'stochastic'), rng=None):
        def build():
            bn = zs.BayesianNet()
            vals = {}
            for n in self.p:
                r = routes[rng.randint(len(routes))] if rng is not None else routes[0]
                vals[n.name] = self._bind(n, tv, 'p:').add(zs, bn, vals, r, n_samples=None)
            return bn
        return zs.meta_bayesian_net()(build)()

    def variational(self, zs, tv, K='own', extra_det=False):
        if K == 'own' and self.hide_K and self.K is not None:
            K = tf.placeholder_with_default(np.int32(self.K), [])
        @zs.meta_bayesian_net()
        def qnet():
            bn = zs.BayesianNet()
            vals = {}
            for n in self.q:
                ns = n.n_samples if n.n_samples is None or isinstance(K, str) else K
                if n.name == 'aux':
                    ns = None
                vals[n.name] = self._bind(n, tv, 'q:').add(zs, bn, vals, 'shortcut', n_samples=ns)
            if extra_det:
                bn.deterministic('det', tf.zeros([3], tf.float64))
            return bn
        return qnet().observe(**{k: tf.constant(v) for k, v in self.aux.items()})

    def observed(self):
        return {k: self._hide(tf.constant(v), self.hide_obs) for k, v in self.obs.items()}

    def tf_log_joint(self, zs, tv):
        """The same model as a log joint function."""
        def lj(o):
            r = 0.
            for n in self.p:
                r = r + self._bind(n, tv, 'p:').distribution(zs, o).log_prob(o[n.name])
            return r
        return lj

    # -- shadow -------------------------------------------------------------
    def log_joint(self, z, th=None):
        th = self.theta if th is None else th
        v = dict(z, **self.obs)
        return sum(n.bind(th, 'p:').logp(v) for n in self.p)

    def log_q(self, z, th=None):
        th = self.theta if th is None else th
        v = dict(z, **self.aux)
        return sum(n.bind(th, 'q:').logp(v) for n in self.q if n.name != 'aux')

    # -- reparameterisation -------------------------------------------------
    def noise(self, z):
        """standard noise of each latent from its sample"""
        v = dict(z, **self.aux)
        out = {}
        for n in self.q:
            if n.name == 'aux':
                continue
            p = n.bind(self.theta, 'q:').params(v, np)
            loc, scale = _loc_scale(n.kind, p)
            out[n.name] = (v[n.name] - loc) / scale
        return out

    def push(self, eps, th):
        """samples from noise at other parameters"""
        v = dict(self.aux)
        for n in self.q:
            if n.name == 'aux':
                continue
            p = n.bind(th, 'q:').params(v, np)
            loc, scale = _loc_scale(n.kind, p)
            v[n.name] = loc + scale * eps[n.name]
        return {k: v[k] for k in self.latent}


def _loc_scale(kind, p):
    if kind == 'normal':
        return p['mean'], p['std']
    if kind == 'normal_ls':
        return p['mean'], np.exp(p['logstd'])
    if kind == 'laplace':
        return p['loc'], p['scale']
    raise ValueError(kind)


def lme(x, axis, keepdims=False):
    """log mean exp in float64 (axis None: no reduction)"""
    if axis is None:
        return x
    m = np.max(x, axis=axis, keepdims=True)
    r = np.log(np.mean(np.exp(x - m), axis=axis, keepdims=True)) + m
    if keepdims:
        return r
    return np.squeeze(r, axis=axis)


def mean(x, axis):
    return x if axis is None else np.mean(x, axis=axis)


def axes(axis):
    return tuple(axis) if isinstance(axis, (list, tuple)) else axis


def layout(rng, K):
    """(batch shape, group_ndims, K or None, mixed, allowed axes of the objective)"""
    r = rng.randint(8)
    if r < 4:
        batch, group = (B,), int(rng.randint(2))
    elif r < 6:
        batch, group = (), 0
    else:
        batch, group = (2, 3), int(rng.randint(3))
    if rng.rand() < .2:
        K = None
    rest = len(batch) - group
    mixed = K is not None and bool(rng.randint(2))
    if K is None:
        opts = [None]
    else:
        opts = [0, 0, None, [0], -(1 + rest)] + ([[0, 1]] if rest else [])
    return batch, group, K, mixed, opts


def fd_grads(f, theta, names, h=1e-5):
    """central differences of sum(f(theta)) with respect to the named entries
    (fourth order)"""
    out = {}
    for k in names:
        base = theta[k]
        g = np.zeros(base.shape)
        for i in np.ndindex(*base.shape):
            def at(d):
                th = dict(theta)
                v = np.array(base, np.float64)
                v[i] += d
                th[k] = v
                return np.sum(f(th))
            g[i] = (8 * (at(h) - at(-h)) - (at(2 * h) - at(-2 * h))) / (12 * h)
        out[k] = g
    return out


def grad_close(got, want, scale, tol=2e-6):
    return bool(np.all(np.abs(np.asarray(got) - want) <= tol * (1 + np.abs(want) + scale)))


def configs(support, n):
    """all assignments of n binary (or small) values"""
    return itertools.product(support, repeat=n)
