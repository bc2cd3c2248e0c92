"""Drives zhusuan.HMC on smooth multi-latent targets and replays every
transition in float64."""
import numpy as np
import tensorflow as tf
from zsmon.tfu import session, resume


class Target(object):
    """log p(x, data) = -sum_i sum(a_i x_i^2 / 2 + b_i cos x_i + d_i x_i^4)
                        - c/2 (sum_i mean(x_i) - data)^2          per chain"""

    def __init__(self, rng, chain, n=None, quartic=False, same=None):
        self.chain = tuple(chain)
        n = n or int(rng.randint(1, 4))
        self.names = ['v%d' % i for i in range(n)]
        rng.shuffle(self.names)
        dims = [(), (1,), (2,), (3,), (2, 2), (2, 1, 2), (1, 3)]
        self.data = {k: dims[rng.randint(len(dims))] for k in self.names}
        if rng.rand() < .3 if same is None else same:
            # latents of one shape: what belongs to one could be mistaken for another's
            self.data = {k: self.data[self.names[0]] for k in self.names}
        self.a = {k: rng.uniform(.5, 3., self.data[k]) for k in self.names}
        self.b = {k: rng.uniform(-.4, .4, self.data[k]) for k in self.names}
        self.d = {k: (rng.uniform(.05, .3, self.data[k]) if quartic else np.zeros(self.data[k]))
                  for k in self.names}
        self.c = float(rng.uniform(0, 2.))
        self.obs = float(np.float32(rng.normal()))
        self.blur = bool(rng.rand() < .3)       # sizes of the chain axes are not known statically
        self.axes = {k: tuple(range(len(self.chain), len(self.chain) + len(self.data[k]))) for k in self.names}

    def init(self, rng, scale=1.):
        return {k: np.asarray(rng.normal(0, scale, self.chain + self.data[k]), np.float32) for k in self.names}

    def count(self, k):
        return int(np.prod(self.data[k])) if self.data[k] else 1

    def tf_log_joint(self, o):
        lp, s = 0., 0.
        for k in self.names:
            x = tf.convert_to_tensor(o[k])
            f = lambda v: tf.constant(np.asarray(v), tf.float32)
            e = -(f(self.a[k]) * x * x * .5 + f(self.b[k]) * tf.cos(x) + f(self.d[k]) * x * x * x * x)
            ax = list(self.axes[k])
            lp = lp + (tf.reduce_sum(e, ax) if ax else e)
            s = s + (tf.reduce_mean(x, ax) if ax else x)
        lp = lp - .5 * self.c * tf.square(s - o['data'])
        return tf.placeholder_with_default(lp, [None] * len(self.chain)) if self.blur else lp

    def log_joint(self, x):
        lp, s = 0., 0.
        with np.errstate(all='ignore'):
            for k in self.names:
                v = np.asarray(x[k], np.float64)
                e = -(self.a[k] * v * v * .5 + self.b[k] * np.cos(v) + self.d[k] * v ** 4)
                lp = lp + e.sum(self.axes[k])
                s = s + v.mean(self.axes[k])
            return lp - .5 * self.c * (s - self.obs) ** 2

    def grad(self, x):
        with np.errstate(all='ignore'):
            s = 0.
            for k in self.names:
                s = s + np.asarray(x[k], np.float64).mean(self.axes[k])
            out = {}
            for k in self.names:
                v = np.asarray(x[k], np.float64)
                r = (s - self.obs) * self.c / self.count(k)
                r = np.reshape(r, np.shape(r) + (1,) * len(self.data[k]))
                out[k] = -(self.a[k] * v - self.b[k] * np.sin(v) + 4 * self.d[k] * v ** 3) - r
            return out

    def meta(self, zs):
        """The same target as a MetaBayesianNet (custom log joint over nodes
        that carry the values)."""
        @zs.meta_bayesian_net()
        def model():
            bn = zs.BayesianNet()
            for k in self.names:
                bn.normal(k, tf.zeros(self.data[k]), std=1., group_ndims=len(self.data[k]))
            bn.normal('data', 0., std=1.)
            return bn
        m = model()
        m.log_joint = lambda bn: self.tf_log_joint({k: bn[k].tensor for k in self.names + ['data']})
        return m


class NormalNet(Target):
    """A hierarchical Gaussian model whose log joint comes from the net itself:
    v0 ~ N(0, s0), v1 ~ N(mean of v0, s1) ..., data ~ N(mean of last, s)"""

    def __init__(self, rng, chain):
        self.chain = tuple(chain)
        n = int(rng.randint(1, 3))
        self.names = ['v%d' % i for i in range(n)]
        dims = [(1,), (2,), (3,)]
        self.data = {k: dims[rng.randint(3)] for k in self.names}
        self.s = {k: float(np.float32(rng.uniform(.6, 2.))) for k in self.names + ['data']}
        self.obs = float(np.float32(rng.normal()))
        self.axes = {k: (len(self.chain),) for k in self.names}

    def meta(self, zs):
        @zs.meta_bayesian_net()
        def model():
            bn = zs.BayesianNet()
            last = tf.zeros([1])
            for k in self.names:
                mean = tf.reduce_mean(last, -1, keepdims=True) + tf.zeros(self.data[k])
                last = bn.normal(k, mean, std=self.s[k], group_ndims=1)
            bn.normal('data', tf.reduce_mean(last, -1), std=self.s['data'])
            return bn
        return model()

    def tf_log_joint(self, o):
        raise NotImplementedError()

    def log_joint(self, x):
        last, lp = 0., 0.
        n = lambda v, m, s: -.5 * np.log(2 * np.pi) - np.log(s) - .5 * ((v - m) / s) ** 2
        with np.errstate(all='ignore'):
            for k in self.names:
                v = np.asarray(x[k], np.float64)
                lp = lp + n(v, np.asarray(last)[..., None], self.s[k]).sum(-1)
                last = v.mean(-1)
            return lp + n(self.obs, last, self.s['data'])

    def grad(self, x):
        with np.errstate(all='ignore'):
            g = {}
            means = [0.]
            for k in self.names:
                means.append(np.asarray(x[k], np.float64).mean(-1))
            for i, k in enumerate(self.names):
                v = np.asarray(x[k], np.float64)
                gi = -(v - np.asarray(means[i])[..., None]) / self.s[k] ** 2
                nxt = self.names[i + 1] if i + 1 < len(self.names) else None
                if nxt is not None:
                    w = np.asarray(x[nxt], np.float64)
                    up = ((w - means[i + 1][..., None]) / self.s[nxt] ** 2).sum(-1)
                else:
                    up = (self.obs - means[i + 1]) / self.s['data'] ** 2
                g[k] = gi + np.asarray(up)[..., None] / v.shape[-1]
            return g


def leapfrog(target, q, p, eps, n, mass):
    """Textbook leapfrog in float64."""
    q = {k: np.asarray(v, np.float64) for k, v in q.items()}
    p = {k: np.asarray(v, np.float64) for k, v in p.items()}
    with np.errstate(all='ignore'):
        g = target.grad(q)
        for i in range(n):
            p = {k: p[k] + .5 * eps * g[k] for k in p}
            q = {k: q[k] + eps * p[k] / mass[k] for k in q}
            g = target.grad(q)
            p = {k: p[k] + .5 * eps * g[k] for k in p}
    return q, p


def kinetic(target, p, mass):
    r = 0.
    with np.errstate(all='ignore'):
        for k in p:
            r = r + .5 * (np.asarray(p[k], np.float64) ** 2 / mass[k]).sum(target.axes[k])
    return r


class Replay(object):
    """Float64 replay of one transition with rounding-error bounds estimated by
    perturbing the start."""

    def __init__(self, target, q, p, eps, n, mass, rng, mass_rel=0.):
        self.q, self.p = leapfrog(target, q, p, eps, n, mass)
        with np.errstate(all='ignore'):
            self.h0 = -target.log_joint(q) + kinetic(target, p, mass)
            self.lp0 = target.log_joint(q)
            self.lp1 = target.log_joint(self.q)
            self.h1 = -self.lp1 + kinetic(target, self.p, mass)
            err = {k: np.zeros(np.shape(v)) for k, v in self.q.items()}
            herr = 0.
            for _ in range(3):
                q2 = {k: v * (1 + 3e-7 * rng.choice([-1, 1], np.shape(v))) +
                      1e-7 * rng.choice([-1, 1], np.shape(v)) for k, v in q.items()}
                p2 = {k: v * (1 + 3e-7 * rng.choice([-1, 1], np.shape(v))) for k, v in p.items()}
                m2 = {k: v * (1 + mass_rel * rng.choice([-1, 1], np.shape(v))) for k, v in mass.items()}
                qq, pp = leapfrog(target, q2, p2, eps * (1 + 2e-7), n, m2)
                for k in err:
                    err[k] = np.maximum(err[k], np.abs(qq[k] - self.q[k]))
                h = -target.log_joint(qq) + kinetic(target, pp, m2)
                herr = np.maximum(herr, np.abs(h - self.h1))
            mag = sum(np.abs(kinetic(target, v, mass)) for v in (p, self.p)) + np.abs(self.lp0) + np.abs(self.lp1)
            self.tol = {k: 10 * (n + 2) * err[k] + 1e-5 * (1 + np.abs(self.q[k])) for k in err}
            self.htol = 10 * (n + 2) * herr + 3e-5 * (1 + mag)
            self.h0tol = 1e-5 * (1 + np.abs(kinetic(target, p, mass)) + np.abs(self.lp0)) + \
                mass_rel * kinetic(target, p, mass)
            self.rate = np.exp(np.minimum(self.h0 - self.h1, 0.))
            self.rtol = np.minimum(1., self.htol + self.h0tol) * 1.5 + 1e-5


def expand(mask, target, k):
    return np.reshape(mask, np.shape(mask) + (1,) * len(target.data[k]))


class Chain(object):
    """One HMC sampler under test."""

    def __init__(self, zs, target, init, as_meta, inter=1, **hmc_kw):
        self.t = target
        self.var = {k: tf.Variable(init[k], name=k, trainable=False) for k in target.names}
        data = tf.constant(target.obs, tf.float32)
        model = target.meta(zs) if as_meta else target.tf_log_joint
        self.hmc = zs.HMC(**hmc_kw)
        self.op, self.info = self.hmc.sample(model, {'data': data}, self.var)
        i = self.info
        self.fetch = {'samples': i.samples, 'rate': i.acceptance_rate, 'eps': i.updated_step_size,
                      'p': i.init_momentum, 'h0': i.orig_hamiltonian, 'h1': i.hamiltonian,
                      'lp0': i.orig_log_prob, 'lp1': i.log_prob, 'op': self.op}
        self.inter = inter
        self.sess = session(inter, 1)
        self.sess.run(tf.global_variables_initializer())

    def restart(self):
        """The session is lost; goes on in a new one from a checkpoint."""
        self.sess = resume(self.sess, lambda: session(self.inter, 1))

    def take_over(self, old):
        """Goes on from a checkpoint of a chain of another (earlier) graph."""
        self.sess.close()
        self.sess = resume(old.sess, lambda: session(self.inter, 1, self.op.graph))

    def state(self):
        return self.sess.run(self.var)

    def step(self, feed=None):
        return self.sess.run(self.fetch, feed or {})

    def load(self, values):
        for k, v in self.var.items():
            v.load(values[k], self.sess)

    def close(self):
        self.sess.close()


def judge(rec, target, q, out, after, rp, ctx, accepts=None):
    """Compares one observed transition with its replay. Returns the acceptance
    mask (None where undecidable)."""
    fin = np.isfinite(rp.h1) & np.isfinite(rp.lp1)
    small = rp.htol < 0.5           # trajectory resolved in float32
    c = dict(ctx)
    ok0 = np.all(np.abs(out['h0'] - rp.h0) <= rp.h0tol) and np.all(np.abs(out['lp0'] - rp.lp0) <= rp.h0tol)
    rec.check(np.shape(out['h0']) == np.shape(rp.h0) and ok0, 'orig',
              'reported original Hamiltonian/log probability are not those of the state and momentum',
              got=[out['h0'], out['lp0']], want=[rp.h0, rp.lp0], **c)
    good = fin & small
    with np.errstate(all='ignore'):
        rec.check(np.shape(out['h1']) == np.shape(rp.h1) and
                  np.all(np.abs(out['h1'] - rp.h1)[good] <= rp.htol[good]), 'hamiltonian',
                  'reported new Hamiltonian is not that of the leapfrog proposal',
                  got=out['h1'], want=rp.h1, tol=rp.htol, **c)
        rec.check(np.all(np.abs(out['rate'] - rp.rate)[good] <= rp.rtol[good]), 'rate',
                  'acceptance rate is not min(1, exp(H_old - H_new))', got=out['rate'], want=rp.rate, **c)
    rec.check(np.all((out['rate'] >= 0) & (out['rate'] <= 1)), 'rate-range', 'acceptance rate outside [0, 1]',
              got=out['rate'], **c)
    rep = np.isfinite(out['h1'])
    rec.check(np.all(out['rate'][~rep] == 0), 'nonfinite-accepted',
              'positive acceptance rate although the new Hamiltonian is not finite', got=out['rate'], **c)
    # consistency of the reported rate with the reported Hamiltonians
    with np.errstate(all='ignore'):
        own = np.where(rep, np.exp(np.minimum(out['h0'].astype(float) - out['h1'], 0.)), 0.)
        tol = 1e-5 + own * (1e-5 + 2e-6 * (np.abs(out['h0']) + np.where(rep, np.abs(out['h1']), 0)))
        lpn = rep & np.isfinite(rp.lp1)
        rec.check(np.all((np.abs(own - out['rate']) <= tol)[lpn]), 'rate-vs-hamiltonian',
                  'acceptance rate disagrees with the reported Hamiltonians', got=out['rate'], want=own, **c)
    moved, stayed = np.ones(np.shape(out['rate']), bool), np.ones(np.shape(out['rate']), bool)
    for k in target.names:
        rec.check(np.array_equal(out['samples'][k], after[k], equal_nan=True), 'samples',
                  'info.samples is not the stored state', latent=k, **c)
        with np.errstate(all='ignore'):
            moved &= np.all(np.abs(after[k] - rp.q[k]) <= rp.tol[k], target.axes[k])
        stayed &= np.all(after[k] == q[k], target.axes[k])
    rec.check(np.all((moved | stayed)[good]), 'state',
              'the stored state of a chain is neither the whole proposal nor the whole old state',
              chains=np.argwhere(~(moved | stayed) & good)[:5], old=q, got=after, want=rp.q, **c)
    rec.check(np.all(stayed[out['rate'] == 0]), 'accepted-at-rate-0',
              'a chain moved although its acceptance rate is 0', **c)
    rec.check(np.all(moved[(out['rate'] == 1) & good]), 'rejected-at-rate-1',
              'a chain stayed although its acceptance rate is 1', **c)
    lp = target.log_joint(after)
    dec = good | stayed
    with np.errstate(all='ignore'):
        ltol = np.where(stayed, 0., rp.htol) + 3e-5 * (1 + np.abs(lp))
        lbad = ~(np.abs(out['lp1'] - lp) <= ltol) & dec
    rec.check(not np.any(lbad), 'log_prob',
              'reported log probability is not that of the stored state', got=out['lp1'], want=lp, **c)
    if accepts is not None:
        amb = moved & stayed
        use = good & ~amb
        accepts.append((np.asarray(out['rate'], float)[use], moved[use]))
    rec.event('chain transitions', np.size(out['rate']))
    rec.event('accepted', np.sum(moved & ~stayed))
    rec.event('rejected', np.sum(stayed & ~moved))
    rec.event('non-finite proposals', np.sum(~rep))
    rec.event('resolved', np.sum(good))
    return moved
