"""Drives the SGMCMC samplers and shadows them in float64.

Momenta are not reported by the samplers. They are inferred from what a user
sees: with a first-order integrator the step of a latent is its new momentum,
with a second-order one step = (old + new) / 2, so knowing the first momentum
(the learning rate is fed as 0 when the samplers' variables are initialised,
which makes it 0) gives all of them."""
import time
import numpy as np
import tensorflow as tf
from zsmon import hmcmon as hm
from zsmon.tfu import session, resume

ALGOS = ('SGLD', 'PSGLD', 'SGHMC', 'SGNHT')


class Scaled(hm.Target):
    """hmcmon.Target times a constant, with optional delays on the reads of its
    latents."""
    scale = 1.
    delays = None
    pairs = ()          # (i, j, w): adds w * mean(x_i) * mean(x_j)

    def couple(self, rng):
        """Bilinear couplings: the gradient of one latent needs only the other,
        so a latent may be updated while others still have to read it."""
        self.c = 0.
        n = self.names
        self.pairs = [(n[i], n[j], float(rng.choice([-1, 1]) * rng.uniform(.5, 1.5)))
                      for i in range(len(n)) for j in range(i) if rng.rand() < .8 or (i, j) == (1, 0)]

    def read(self, x, k):
        x = tf.convert_to_tensor(x)
        dt = (self.delays or {}).get(k)
        if not dt:
            return x

        def nap(v):
            time.sleep(float(dt * np.random.rand()))
            return v
        tok = tf.py_func(nap, [np.float32(0.)], tf.float32, stateful=True)
        with tf.control_dependencies([tok]):
            return tf.identity(x)

    def tf_log_joint(self, o):
        m = lambda k: tf.reduce_mean(self.read(o[k], k), list(self.axes[k])) if self.axes[k] else self.read(o[k], k)
        extra = 0.
        for i, j, w in self.pairs:
            extra = extra + w * m(i) * m(j)
        if not self.pairs:
            o = dict(o, **{k: self.read(o[k], k) for k in self.names})
        return (super(Scaled, self).tf_log_joint(o) + extra) * self.scale

    def grad(self, x):
        g = super(Scaled, self).grad(x)
        mean = {k: np.asarray(x[k], np.float64).mean(self.axes[k]) for k in self.names}
        wide = lambda r, k: np.reshape(r, np.shape(r) + (1,) * len(self.data[k])) / self.count(k)
        for i, j, w in self.pairs:
            g[i] = g[i] + wide(w * mean[j], i)
            g[j] = g[j] + wide(w * mean[i], j)
        return {k: v * self.scale for k, v in g.items()}


class Sampler(object):
    def __init__(self, zs, algo, target, init, hp, as_meta=False, inter=1, fed=(), model=None):
        """hp: hyper-parameters with their current values; those named in
        ``fed`` become placeholders ('learning_rate' always is)."""
        self.args = (zs, algo, target, init, dict(hp), as_meta, inter, fed, model)
        self.algo, self.t, self.hp = algo, target, dict(hp)
        self.var = {k: tf.Variable(init[k], name=k, trainable=bool(i % 2)) for i, k in enumerate(target.names)}
        self.data = tf.placeholder(tf.float32, [])
        self.ph = {}
        kw = {}
        for k, v in self.hp.items():
            if k == 'learning_rate' or k in fed:
                dt = tf.int32 if k == 'n_iter_resample_v' else tf.float32
                self.ph[k] = tf.placeholder(dt, [])
                kw[k] = self.ph[k]
            elif k in ('decay', 'epsilon'):
                pass
            else:
                kw[k] = v
        if 'decay' in self.hp:
            kw['preconditioner_hparams'] = zs.PSGLD.RMSPreconditioner.HParams(
                decay=self.hp['decay'], epsilon=self.hp['epsilon'])
        m = model or (target.meta(zs) if as_meta else target.tf_log_joint)
        self.sampler = getattr(zs, algo)(**kw)
        self.op, self.info = self.sampler.sample(m, {'data': self.data}, self.var)
        self.fetch = {'op': self.op, 'info': self.info._asdict()}
        self.sess = session(inter, 1)
        self.init_op = tf.global_variables_initializer()
        self.sess.run(self.init_op, {p: (0. if k == 'learning_rate' else self.hp[k] or 0) for k, p in self.ph.items()})
        self.fields = self.info._fields
        # shadow state
        self.v = {k: np.zeros(np.shape(init[k])) for k in target.names}
        self.aux = {k: np.zeros(np.shape(init[k])) for k in target.names}
        self.alpha = None
        self.calls = 0
        d = {'SGLD': {}, 'PSGLD': {'decay': .9, 'epsilon': 1e-3},
             'SGHMC': {'friction': .25, 'variance_estimate': 0., 'n_iter_resample_v': 20, 'second_order': True},
             'SGNHT': {'variance_extra': 0., 'tune_rate': 1., 'n_iter_resample_v': None, 'second_order': True,
                       'use_vector_alpha': True}}[algo]
        self.full = dict(d, **self.hp)
        if algo == 'SGNHT':
            a = self.full['variance_extra']
            self.alpha = {k: (np.full(np.shape(init[k]), a, float) if self.full['use_vector_alpha'] else float(a))
                          for k in target.names}

    def initialize(self):
        """Runs the initialisers again, with the actual learning rate."""
        self.sess.run(self.init_op, {p: self.hp[k] or 0 for k, p in self.ph.items()})

    def restart(self):
        """The session is lost; goes on in a new one from a checkpoint."""
        self.sess = resume(self.sess, lambda: session(self.args[6], 1))

    def rebuilt(self):
        """The same program built again in the current default graph, going on from
        a checkpoint of this sampler."""
        s = Sampler(*self.args)
        s.sess.close()
        s.sess = resume(self.sess, lambda: session(self.args[6], 1, tf.get_default_graph()))
        for k in ('v', 'aux', 'alpha', 'calls', 'full', 'hp', 'verr'):
            setattr(s, k, getattr(self, k))
        return s

    def state(self):
        return self.sess.run(self.var)

    def step(self, **now):
        """Runs the op once; ``now`` overrides fed hyper-parameters."""
        self.hp.update(now)
        self.full.update(now)
        feed = {p: (self.hp[k] or 0 if k == 'n_iter_resample_v' else self.hp[k]) for k, p in self.ph.items()}
        feed[self.data] = self.t.obs
        self.calls += 1
        return self.sess.run(self.fetch, feed)['info']

    def resamples(self):
        """Is the momentum resampled in the next call?"""
        n = self.full.get('n_iter_resample_v')
        return bool(n) and self.calls % n == 0

    def close(self):
        self.sess.close()

    # ---- shadow ----
    def residual(self, q, after, resampled):
        """What one call added beyond the deterministic update, in units of its
        documented noise: {latent: (excess, sd, tol)}; advances the shadow.
        Entries are None where the old momentum is not known."""
        h, lr, names = self.full, float(np.float32(self.full['learning_rate'])), self.t.names
        q = {k: np.asarray(x, np.float64) for k, x in q.items()}
        out = {}
        self.kinetic = {}
        self.verr = self.verr or {}
        if self.algo in ('SGLD', 'PSGLD'):
            g = self.t.grad(q)
            for k in names:
                G = 1.
                if self.algo == 'PSGLD':
                    self.aux[k] = h['decay'] * self.aux[k] + (1 - h['decay']) * g[k] ** 2
                    G = 1. / (h['epsilon'] + np.sqrt(self.aux[k]))
                drift = .5 * lr * G * g[k]
                mag = np.abs(q[k]) + np.abs(after[k]) + np.abs(drift) + .5 * lr * G * self.t.grad_mag(q)[k]
                out[k] = (after[k] - q[k] - drift, np.sqrt(lr * G) + np.zeros(np.shape(q[k])), 3e-6 * (1e-3 + mag))
            return out
        sgh = self.algo == 'SGHMC'
        noise = np.sqrt(2 * max(0., (h['friction'] - h['variance_estimate']) if sgh else h['variance_extra']) * lr)
        red = (lambda x: np.mean(x)) if sgh or not h['use_vector_alpha'] else (lambda x: x)
        if not h['second_order']:
            g, gm = self.t.grad(q), self.t.grad_mag(q)
            for k in names:
                nv = after[k] - q[k]
                al = h['friction'] if sgh else self.alpha[k]
                mag = np.abs(q[k]) + np.abs(after[k]) + np.abs(self.v[k]) * (1 + np.abs(al)) + lr * gm[k]
                ex = nv - (1 - al) * self.v[k] - lr * g[k]
                out[k] = None if resampled else (ex, noise + np.zeros(np.shape(ex)), 3e-6 * (1e-3 + mag) + self.err(k))
                self.v[k] = nv
                self.kinetic[k] = red(nv ** 2)
                self.verr[k] = 3e-7 * (1e-3 + np.abs(q[k]) + np.abs(after[k]))
                if not sgh:
                    self.alpha[k] = al + h['tune_rate'] * (self.kinetic[k] - lr)
            return out
        if resampled:
            # fixed point for the fresh momentum (noise-free updates only)
            v = {k: (after[k] - q[k]) for k in names}
            for _ in range(60):
                d = self.halfdecay(v, lr)
                g = self.t.grad({k: q[k] + .5 * v[k] for k in names})
                v = {k: (2 * (after[k] - q[k]) - d[k] * lr * g[k]) / (1 + d[k] ** 2) for k in names}
            self.v = v
        d = self.halfdecay(self.v, lr)
        q1 = {k: q[k] + .5 * self.v[k] for k in names}
        g, gm = self.t.grad(q1), self.t.grad_mag(q1)
        for k in names:
            nv = 2 * (after[k] - q1[k])
            ex = nv / d[k] - d[k] * self.v[k] - lr * g[k]
            mag = np.abs(q[k]) + np.abs(after[k]) + np.abs(self.v[k]) + lr * gm[k] + np.abs(nv)
            out[k] = None if resampled else (ex, noise + np.zeros(np.shape(ex)),
                                             6e-6 * (1e-3 + mag) / d[k] + 4 * self.err(k) / d[k])
            if not sgh:
                a1 = self.alpha[k] + .5 * h['tune_rate'] * (red(self.v[k] ** 2) - lr)
                self.alpha[k] = a1 + .5 * h['tune_rate'] * (red(nv ** 2) - lr)
            # error of the inferred momentum accumulates: e' = 2 eps|q| + e
            self.verr[k] = self.err(k) + 3e-7 * (1e-3 + np.abs(q[k]) + np.abs(after[k]))
            self.v[k] = nv
            self.kinetic[k] = red(nv ** 2)
        return out

    verr = None

    def err(self, k):
        return self.verr.get(k, 0.)

    def halfdecay(self, v, lr):
        h = self.full
        if self.algo == 'SGHMC':
            return {k: np.exp(-.5 * h['friction']) for k in v}
        red = (lambda x: x) if h['use_vector_alpha'] else np.mean
        return {k: np.exp(-.5 * (self.alpha[k] + .5 * h['tune_rate'] * (red(v[k] ** 2) - lr))) for k in v}


def grad_mag(self, x):
    """Magnitude of the terms summed in the gradient (for rounding bounds)."""
    s, m = 0., {}
    for k in self.names:
        s = s + np.abs(np.asarray(x[k], np.float64)).mean(self.axes[k])
    for k in self.names:
        v = np.abs(np.asarray(x[k], np.float64))
        r = (s + abs(self.obs)) * self.c / self.count(k)
        r = np.reshape(r, np.shape(r) + (1,) * len(self.data[k]))
        m[k] = self.scale * (self.a[k] * v + np.abs(self.b[k]) * np.minimum(v, 1) + 4 * self.d[k] * v ** 3 + r)
    for i, j, w in self.pairs:
        for a, b in ((i, j), (j, i)):
            r = abs(w) * np.abs(np.asarray(x[b], np.float64)).mean(self.axes[b]) / self.count(a)
            m[a] = m[a] + self.scale * np.reshape(r, np.shape(r) + (1,) * len(self.data[a]))
    return m


Scaled.grad_mag = grad_mag


def hyper(rng, algo, quiet, lr=None):
    """Random hyper-parameters. quiet: no noise where the algorithm allows."""
    hp = {'learning_rate': lr}
    if algo == 'PSGLD' and rng.randint(2):
        hp.update(decay=float(rng.choice([.5, .9, .99])), epsilon=float(rng.choice([1e-3, .1])))
    if algo == 'SGHMC':
        f = float(rng.choice([.05, .25, .6]))
        if quiet:
            f = float(rng.choice([0., .05, .25, .6]))
            hp.update(friction=f, variance_estimate=f)
        else:
            if f != .25 or rng.randint(2):
                hp['friction'] = f
            if rng.randint(2):
                hp['variance_estimate'] = float(f * rng.choice([.1, .5]))
    if algo == 'SGNHT':
        if not quiet:
            hp['variance_extra'] = float(rng.choice([.05, .3]))
        if rng.randint(2):
            hp['tune_rate'] = float(rng.choice([.3, 1., 3.]))
        if rng.randint(2):
            hp['use_vector_alpha'] = bool(rng.randint(2))
    return hp
