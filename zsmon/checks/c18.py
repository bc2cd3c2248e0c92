"""C18: HMC leaves its target distribution invariant."""
import numpy as np
import tensorflow as tf
from scipy import stats as st
from zsmon import stats as zst
from zsmon.core import subseed
from zsmon.tfu import session

RULE = ('Each evaluation is one chain set: thousands of chains are loaded with exact draws from the target and run '
        'for a few iterations of the real sampler at step sizes with acceptance from 30% to 99%; the states after '
        'them are mapped to uniforms by the exact (whitened) distribution functions. KS tests of every coordinate '
        'and of the total energy, rank correlations between coordinates and between neighbouring chains, '
        'products of the accept/reject residuals of neighbours along every chain axis (two-stage). Targets: correlated Gaussians over several latents, Laplace, logistic, Student-t, '
        'mixtures, posteriors of conjugate nets; fixed step size, or adapted first and then frozen. Distinct: '
        '(target kind, form, chain layout, latents, adaptation, step size, leapfrogs, iterations).')
ASSUMPTIONS = ['statistical: a wrong stationary law is seen when it moves a distribution function by about 1.5% after '
               'the iterations run (quick) or 0.5% (thorough)', 'false-alarm chance per test below 1e-15']
REQUIRED = {'invariance tests': 16, 'chains': 100000, 'moved': 30000, 'rejected': 5000, 'adapted first': 3,
            'several latents': 5, 'coin pairs': 50000}


def items(tier, seed):
    reps = 32 if tier == 'quick' else 160
    return [('invariant', {'seed': subseed('c18', seed, r), 'big': tier != 'quick', 'r': r}) for r in range(reps)]


def run(name, prm, rec):
    globals()['do_' + name](np.random.RandomState(prm['seed']), prm, rec)


class Gauss(object):
    """Correlated Gaussian over all coordinates of all latents."""
    kind = 'correlated normal'

    def __init__(self, rng, shapes):
        self.shapes = shapes
        d = self.d = sum(int(np.prod(s)) for s in shapes.values())
        a = rng.normal(size=(d, d))
        cov = a.dot(a.T) / d + np.diag(rng.uniform(.3, 1.5, d))
        self.L = np.linalg.cholesky(cov)
        self.P = np.linalg.inv(cov)
        self.m = rng.normal(0, 1, d)
        self.scale = 1 / np.sqrt(np.max(np.linalg.eigvalsh(self.P)))

    def draw(self, rng, n):
        return self.m + rng.normal(size=(n, self.d)).dot(self.L.T)

    def pit(self, x):
        return st.norm.cdf(np.linalg.solve(self.L, (x - self.m).T).T)

    def energy(self, x):
        z = np.linalg.solve(self.L, (x - self.m).T).T
        return st.chi2.cdf((z ** 2).sum(-1), self.d)

    def tf_log_joint(self, x):
        z = x - tf.constant(self.m, tf.float32)
        n = tf.reduce_prod(tf.shape(z)[:-1])
        zz = tf.reshape(z, [n, self.d])
        e = -.5 * tf.reduce_sum(tf.matmul(zz, tf.constant(self.P, tf.float32)) * zz, -1)
        return tf.reshape(e, tf.shape(z)[:-1])


class Indep(object):
    """Independent coordinates x = m + s * (standard variable)."""

    def __init__(self, rng, shapes, kind):
        self.shapes, self.kind = shapes, kind
        d = self.d = sum(int(np.prod(s)) for s in shapes.values())
        self.m, self.s = rng.normal(0, 1, d), rng.uniform(.5, 2., d)
        self.nu = 5.
        self.scale = float(np.min(self.s))
        self.law = {'laplace': st.laplace, 'logistic': st.logistic, 'student': st.t(self.nu)}.get(kind)

    def draw(self, rng, n):
        if self.kind == 'mixture':
            z = rng.normal(size=(n, self.d)) * .7 + np.where(rng.rand(n, self.d) < .35, -1.2, 1.2)
        else:
            z = self.law.ppf(np.clip(rng.rand(n, self.d), 1e-12, 1 - 1e-12))
        return self.m + self.s * z

    def pit(self, x):
        z = (x - self.m) / self.s
        if self.kind == 'mixture':
            return .35 * st.norm.cdf((z + 1.2) / .7) + .65 * st.norm.cdf((z - 1.2) / .7)
        return self.law.cdf(z)

    def energy(self, x):
        return None

    def tf_log_joint(self, x):
        z = (x - tf.constant(self.m, tf.float32)) / tf.constant(self.s, tf.float32)
        if self.kind == 'laplace':
            e = -tf.abs(z)
        elif self.kind == 'logistic':
            e = -z - 2 * tf.nn.softplus(-z)
        elif self.kind == 'student':
            e = -(self.nu + 1) / 2 * tf.log1p(tf.square(z) / self.nu)
        else:
            e = tf.reduce_logsumexp(tf.stack([np.log(.35) - .5 * tf.square((z + 1.2) / .7),
                                              np.log(.65) - .5 * tf.square((z - 1.2) / .7)]), 0)
        return tf.reduce_sum(e, -1)


class Net(object):
    """Conjugate hierarchical net a ~ N(m, s0), b ~ N(a, s1), y ~ N(b, s2), y
    observed; the log joint is the net's own."""
    kind = 'conjugate net'

    def __init__(self, rng, dim):
        self.shapes = {'a': (dim,), 'b': (dim,)}
        self.d = 2 * dim
        self.dim = dim
        self.pm = rng.normal(0, 1, dim).astype(np.float32)
        self.sd = [float(np.float32(v)) for v in rng.uniform(.5, 1.5, 3)]
        self.y = rng.normal(0, 1, dim).astype(np.float32)
        p0, p1, p2 = [1 / s ** 2 for s in self.sd]
        P = np.zeros((2 * dim, 2 * dim))
        h = np.zeros(2 * dim)
        for i in range(dim):
            j = dim + i
            P[i, i], P[j, j], P[i, j], P[j, i] = p0 + p1, p1 + p2, -p1, -p1
            h[i], h[j] = p0 * self.pm[i], p2 * self.y[i]
        self.P, cov = P, np.linalg.inv(P)
        self.m, self.L = cov.dot(h), np.linalg.cholesky(cov)
        self.scale = 1 / np.sqrt(np.max(np.linalg.eigvalsh(P)))

    draw, pit, energy = Gauss.draw, Gauss.pit, Gauss.energy

    def meta(self, zs):
        @zs.meta_bayesian_net()
        def model():
            bn = zs.BayesianNet()
            a = bn.normal('a', tf.constant(self.pm), std=self.sd[0], group_ndims=1)
            b = bn.normal('b', a, std=self.sd[1], group_ndims=1)
            bn.normal('y', b, std=self.sd[2], group_ndims=1)
            return bn
        return model()


SHAPES = [{'x': (1,)}, {'x': ()}, {'x': (3,)}, {'x': (2,), 'y': (2,)}, {'y': (1,), 'x': (2, 2)},
          {'c': (2,), 'a': (), 'b': (1,)}]
CHAINS = [(4000,), (50, 80), (20, 10, 20)]


def do_invariant(rng, prm, rec):
    import zhusuan as zs
    tf.reset_default_graph()
    kinds = ['gauss', 'net', 'laplace', 'logistic', 'student', 'mixture', 'gauss', 'mixture']
    kind = kinds[prm['r'] % len(kinds)]
    shapes = SHAPES[rng.randint(len(SHAPES))]
    if kind == 'gauss':
        tg = Gauss(rng, shapes)
    elif kind == 'net':
        tg = Net(rng, int(rng.randint(1, 3)))
    else:
        tg = Indep(rng, shapes, kind)
    chain = CHAINS[rng.randint(len(CHAINS))]
    nch = int(np.prod(chain))
    names = list(tg.shapes)
    sizes = [int(np.prod(tg.shapes[k])) for k in names]
    cuts = np.cumsum(sizes)[:-1]

    def split(x):
        return {k: v.reshape(chain + tg.shapes[k]).astype(np.float32) for k, v in
                zip(names, np.split(x, cuts, axis=1))}

    def join(s):
        return np.concatenate([s[k].reshape(nch, -1) for k in names], 1).astype(np.float64)
    adapted = rng.rand() < .3
    feed = {}
    n = int(rng.choice([1, 2, 3, 5, 8]))
    eps = float(tg.scale * rng.choice([.4, .8, 1.2, 1.6] if n < 5 else [.3, .6, .9]))
    kw = {'step_size': eps, 'n_leapfrogs': n}
    if adapted or rng.rand() < .3:
        ps, pm = tf.placeholder(tf.bool, []), tf.placeholder(tf.bool, [])
        kw['adapt_step_size'] = ps
        feed[ps] = False
        if rng.randint(2):
            kw.update(adapt_mass=pm, mass_collect_iters=int(rng.choice([3, 5])))
            feed[pm] = False
            if rng.randint(2):
                kw['mass_decay'] = .9
        kw['target_acceptance_rate'] = float(rng.choice([.5, .7]))
    init = split(tg.draw(rng, nch))
    lv = {k: tf.Variable(init[k], name=k, trainable=False) for k in names}
    obs = {}
    if kind == 'net':
        model, obs = tg.meta(zs), {'y': tf.constant(tg.y)}
    else:
        def model(o):
            return tg.tf_log_joint(tf.concat([tf.reshape(tf.convert_to_tensor(o[k]), chain + (s,))
                                              for k, s in zip(names, sizes)], -1))
    hmc = zs.HMC(**kw)
    op, info = hmc.sample(model, obs, lv)
    sess = session(int(rng.choice([1, 4])), 1)
    sess.run(tf.global_variables_initializer())
    if adapted:
        on = {k: True for k in feed}
        for _ in range(int(rng.choice([6, 15]))):
            sess.run(op, on)
        rec.event('adapted first')
    iters = int(rng.choice([3, 6, 12]))
    coins = []
    ctx = {'kind': kind, 'chain': chain, 'shapes': tg.shapes, 'eps': eps, 'n_leapfrogs': n, 'iters': iters,
           'adapted': adapted, 'flags': sorted(k for k in kw if k.startswith('adapt'))}

    def draw(m):
        xs = []
        del coins[:]
        for _ in range(m):
            x0 = tg.draw(rng, nch)
            s = split(x0)
            for k, v in lv.items():
                v.load(s[k], sess)
            rates = []
            for i in range(iters):
                if i == iters - 1:
                    last = join(sess.run(lv))
                rates.append(sess.run([info.acceptance_rate, op], feed)[0])
            after = join(sess.run(lv))
            x32 = join(s)
            moved = np.any(after != last, -1).reshape(chain)
            coins.append(np.where((rates[-1] > 0) & (rates[-1] < 1), moved - rates[-1], 0.))
            mv = np.any(after != x32, -1)
            rec.event('chains', nch)
            rec.event('moved', int(mv.sum()))
            rec.event('rejected', int(np.sum(1 - np.stack(rates))))
            ctx['mean rate'] = float(np.mean(rates))
            xs.append(after)
        return xs

    def pv(xs):
        u = [tg.pit(x) for x in xs]
        uu = np.concatenate(u)
        d = uu.shape[1]
        ps = [zst.ks(uu[:, i]) for i in range(d)]
        e = [tg.energy(x) for x in xs]
        if e[0] is not None:
            ps.append(zst.ks(np.concatenate(e)))
        w = [np.sum((v - .5) ** 2, -1) for v in u]
        x, y = np.concatenate([v[:-1] for v in w]), np.concatenate([v[1:] for v in w])
        ps.append(zst.corr_p(x, y))
        for i in range(min(d, 4)):
            ps.append(zst.corr_p(np.concatenate([v[:-1, i] for v in u]), np.concatenate([v[1:, i] for v in u])))
            for j in range(i):
                ps.append(zst.corr_p(uu[:, i], uu[:, j]))
        # the coin of a chain (moved minus the rate it was promised) tells nothing about its neighbours' coins
        for ax in range(len(chain)):
            xy = np.stack([c * np.roll(c, 1, ax) for c in coins])
            v = np.sqrt(np.sum(xy ** 2))
            if v > 5:
                ps.append(2 * st.norm.sf(abs(np.sum(xy)) / v))
                rec.event('coin pairs', xy.size)
        return min(ps) * len(ps)
    f = 10 if prm["big"] else 2
    bad, p1, p2 = zst.two_stage(draw, pv, 3 * f, 8 * f)
    rec.check(not bad, 'invariance', 'chains started from the target leave it (p=%.1e, then %.1e)' % (p1, p2 or 1),
              **ctx)
    rec.event('invariance tests')
    if len(names) > 1:
        rec.event('several latents')
    rec.case((kind, chain, tg.shapes, adapted, round(eps / tg.scale, 1), n, iters), sample=dict(ctx, p=p1))
    sess.close()
