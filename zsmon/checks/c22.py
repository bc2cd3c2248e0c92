"""C22: AIS weights telescope over an increasing temperature ladder."""
import numpy as np
import tensorflow as tf
from scipy import stats as st
from zsmon import stats as zst
from zsmon.core import subseed
from zsmon.tfu import session

RULE = ('Each evaluation is one AIS.run on a session proxy that records every run call, the temperature fed with it '
        'and the latent states before and after. Offline, the last fresh draw and the temperatures after it are '
        'located, the weights of all chains are recomputed in float64 as sums of log f_{T_k}(x_{k-1}) - '
        'log f_{T_{k-1}}(x_{k-1}), and compared with the returned value (also where weights or data are hundreds of nats apart); the ladder must increase to exactly 1 in '
        'n_temperatures transitions, fresh states must be new and follow the proposal. Further: models equal to the '
        'proposal up to a constant (exact result), and unbiasedness of exp(result) against the closed-form marginal '
        'likelihood (two-stage). Distinct: (latents, chains, data, temperatures, adaptation, run index).')
ASSUMPTIONS = ['the temperature is the only value AIS feeds beyond the user\'s feed_dict',
               'false-alarm chance per statistical test below 1e-15']
REQUIRED = {'replayed run': 80, 'transitions': 600, 'chain weights': 1500, 'exact': 20, 'unbiasedness tests': 4,
            'proposal law tests': 4, 'two latents': 20, 'adapting': 20, 'far apart': 20}


def items(tier, seed):
    n, reps = (1, 40) if tier == 'quick' else (3, 96)
    return [('replay', {'n': n, 'seed': subseed('c22', seed, r)}) for r in range(reps)] + \
        [('exact', {'n': 4, 'seed': subseed('c22e', seed, r)}) for r in range(reps // 5)] + \
        [('unbiased', {'big': tier != 'quick', 'seed': subseed('c22u', seed, r)}) for r in range(6)] + \
        [('prior', {'seed': subseed('c22p', seed, r)}) for r in range(6)]


def run(name, prm, rec):
    rng = np.random.RandomState(prm['seed'])
    for _ in range(prm.get('n', 1)):
        tf.reset_default_graph()
        globals()['do_' + name](rng, prm, rec)


def normal(v, m, s):
    return -.5 * np.log(2 * np.pi) - np.log(s) - .5 * ((v - m) / s) ** 2


class Problem(object):
    """z1 ~ N(0, s1) [, z2 ~ N(a z1, s2)], x ~ N(last, sx); proposal normals
    with other means and scales (z2's depending on z1)."""

    def __init__(self, rng, same=None):
        self.two = bool(rng.randint(2))
        self.chains = int(rng.choice([1, 3, 8]))
        self.ndata = int(rng.choice([1, 2, 4]))
        self.dim = int(rng.choice([1, 2, 3]))
        f = lambda lo, hi: float(np.float32(rng.uniform(lo, hi)))
        self.s1, self.s2, self.sx, self.a = f(.7, 1.5), f(.5, 1.2), f(.5, 1.5), f(-1, 1)
        self.pm = rng.normal(0, .5, self.dim).astype(np.float32)
        self.ps1, self.ps2, self.pa = f(.7, 1.6), f(.6, 1.5), f(-1, 1)
        self.x = rng.normal(0, 1.5, (self.ndata, self.dim)).astype(np.float32)
        self.const = same
        self.fed, self.ph = bool(rng.randint(2)), None
        self.off = None
        r = rng.rand()
        if same is None and r < .5:
            # marginal likelihoods (or the weights of chains) hundreds of nats apart
            self.off = (rng.choice([0., 3., -90., 120., -700., 700.], (self.chains, self.ndata)
                                   if r < .2 else self.ndata)).astype(np.float32)

    def mean(self):
        """the proposal's mean, fed with the data in half of the problems"""
        if not self.fed:
            return tf.constant(self.pm)
        if self.ph is None:
            self.ph = tf.placeholder(tf.float32, [self.dim])
        return self.ph

    def names(self):
        return ['z1', 'z2'] if self.two else ['z1']

    def nets(self, zs, ph, with_name_order):
        sh = [self.ndata, self.dim]

        @zs.meta_bayesian_net(scope='model')
        def model():
            bn = zs.BayesianNet()
            z = bn.normal('z1', tf.zeros(sh), std=self.s1, group_ndims=1, n_samples=self.chains)
            if self.two:
                z = bn.normal('z2', self.a * z, std=self.s2, group_ndims=1)
            bn.normal('x', z, std=self.sx, group_ndims=1)
            return bn

        @zs.meta_bayesian_net(scope='proposal')
        def proposal():
            bn = zs.BayesianNet()
            z = bn.normal('z1', tf.zeros(sh) + self.mean(), std=self.ps1, group_ndims=1,
                          n_samples=self.chains)
            if self.two:
                bn.normal('z2', self.pa * z + .3, std=self.ps2, group_ndims=1)
            return bn
        m, p = model(), proposal()
        if self.const is not None:
            c = self.const
            return (lambda obs: p.observe(**obs).log_joint() + c), p
        if self.off is not None:
            return (lambda obs: m.observe(**obs).log_joint() + tf.constant(self.off)), p
        return m, p

    def feed(self, ph):
        return {ph: self.x} if self.ph is None else {ph: self.x, self.ph: self.pm}

    def log_prior(self, z):
        r = normal(z['z1'], self.pm, self.ps1).sum(-1)
        if self.two:
            r = r + normal(z['z2'], self.pa * z['z1'] + np.float64(np.float32(.3)), self.ps2).sum(-1)
        return r

    def log_joint(self, z):
        if self.const is not None:
            return self.log_prior(z) + self.const
        r = normal(z['z1'], 0., self.s1).sum(-1)
        last = z['z1']
        if self.two:
            r = r + normal(z['z2'], self.a * z['z1'], self.s2).sum(-1)
            last = z['z2']
        r = r + normal(self.x, last, self.sx).sum(-1)
        return r if self.off is None else r + self.off

    def log_f(self, z, t):
        z = {k: np.asarray(v, np.float64) for k, v in z.items()}
        return self.log_prior(z) * (1 - t) + self.log_joint(z) * t

    def marginal(self):
        v = self.s1 ** 2
        if self.two:
            v = self.a ** 2 * v + self.s2 ** 2
        return normal(self.x.astype(np.float64), 0., np.sqrt(v + self.sx ** 2)).sum(-1)


class Proxy(object):
    """Records what AIS asks the session to do."""

    def __init__(self, sess, var, user):
        self.sess, self.var, self.user = sess, var, user
        self.log = []
        self.graph = sess.graph

    def run(self, fetches, feed_dict=None, **kw):
        before = self.sess.run(self.var)
        out = self.sess.run(fetches, feed_dict=feed_dict, **kw)
        after = self.sess.run(self.var)
        extra = {k: v for k, v in (feed_dict or {}).items() if k not in self.user}
        self.log.append({'before': before, 'after': after, 'extra': list(extra.values()),
                         'user': {k: (feed_dict or {}).get(k) for k in self.user}})
        return out

    def __getattr__(self, k):
        return getattr(self.sess, k)


def build(rng, pb, n_temp, n_adapt, adapt):
    import zhusuan as zs
    ph = tf.placeholder(tf.float32, [[pb.ndata, pb.dim], [None, pb.dim], [None, None]][rng.randint(3)])
    m, p = pb.nets(zs, ph, True)
    shape = [pb.chains, pb.ndata, pb.dim]
    names = pb.names()
    if rng.randint(2):
        names = names[::-1]
    var = {k: tf.Variable(rng.normal(0, 5, shape).astype(np.float32), trainable=False) for k in names}
    kw = {'step_size': float(rng.choice([.15, .4])), 'n_leapfrogs': int(rng.choice([2, 5]))}
    if adapt:
        kw.update(adapt_step_size=True, target_acceptance_rate=.7)
        if rng.randint(2) and pb.chains > 1:
            kw.update(adapt_mass=True, mass_collect_iters=3)
    from zhusuan.evaluation import AIS
    ais = AIS(m, p, zs.HMC(**kw), {'x': ph}, var, n_temperatures=n_temp, n_adapt=n_adapt,
              verbose=bool(rng.rand() < .1))
    sess = session(int(rng.choice([1, 4])), 1)
    sess.run(tf.global_variables_initializer())
    return ais, sess, var, ph, kw


def temperature(e):
    return None if len(e['extra']) != 1 or np.ndim(e['extra'][0]) else float(e['extra'][0])


def quiet(f):
    import contextlib
    import io
    with contextlib.redirect_stdout(io.StringIO()):
        return f()


def analyse(rec, pb, log, n_temp, ctx):
    """-> (log weights, fresh states) recomputed from the record, or None"""
    init = None
    for i, e in enumerate(log):
        if temperature(e) is None and any(not np.array_equal(e['before'][k], e['after'][k]) for k in e['before']):
            init = i
    rec.check(init is not None, 'fresh', 'no fresh states were drawn', **ctx)
    if init is None:
        return None
    trans = []
    for i, e in enumerate(log[init + 1:]):
        t = temperature(e)
        moved = any(not np.array_equal(e['before'][k], e['after'][k]) for k in e['before'])
        if t is None:
            rec.check(not moved, 'unexpected-move', 'states changed outside a transition', **ctx)
        elif t > 0 or moved:
            trans.append((t, e['before']))
    ts = [t for t, _ in trans]
    ok = len(ts) == n_temp and all(b > a for a, b in zip([0.] + ts, ts)) and bool(ts) and \
        np.float32(ts[-1]) == np.float32(1.)
    rec.check(ok, 'ladder', 'temperatures after the fresh draw do not increase from 0 to 1 in %d steps' % n_temp,
              temperatures=ts[:6] + ts[-3:], count=len(ts), **ctx)
    if not ok:
        return None
    lw, prev = 0., 0.
    for t, x in trans:
        t = float(np.float32(t))
        lw = lw + pb.log_f(x, t) - pb.log_f(x, prev)
        prev = t
    rec.event('transitions', len(ts))
    rec.event('chain weights', np.size(lw))
    return lw, log[init]['after'], log[init]['before']


def lme0(lw):
    m = lw.max(0)
    return np.log(np.exp(lw - m).mean(0)) + m


def do_replay(rng, prm, rec):
    pb = Problem(rng)
    n_temp = int(rng.choice([1, 2, 3, 5, 10, 20]))
    n_adapt = int(rng.choice([0, 1, 3]))
    adapt = bool(rng.randint(2))
    ais, sess, var, ph, kw = build(rng, pb, n_temp, n_adapt, adapt)
    ctx = {'offsets': None if pb.off is None else pb.off.shape, 'two': pb.two, 'chains': pb.chains, 'data': pb.ndata, 'dim': pb.dim, 'n_temperatures': n_temp,
           'n_adapt': n_adapt, 'hmc': kw}
    seen = []
    for r in range(3):
        pb.x = rng.normal(0, 1.5, pb.x.shape).astype(np.float32)
        user = pb.feed(ph)
        keys = list(user)
        px = Proxy(sess, var, user)
        out = quiet(lambda: ais.run(px, user))
        c = dict(ctx, run=r)
        rec.check(list(user) == keys, 'feed-mutated', "the user's feed_dict was modified", **c)
        rec.check(all(all(v is not None for v in e['user'].values()) for e in px.log if temperature(e) is not None), 'feed-lost',
                  'a transition ran without the user\'s feeds', **c)
        res = analyse(rec, pb, px.log, n_temp, c)
        if res is None:
            continue
        lw, fresh, before = res
        want = float(np.mean(lme0(lw)))
        tol = 1e-5 * (n_temp + 2) * (1 + np.max(np.abs(lw)) + np.max(np.abs(pb.log_joint(
            {k: v.astype(float) for k, v in fresh.items()}))))
        rec.check(np.ndim(out) == 0 and abs(float(out) - want) <= tol, 'estimate',
                  'returned %r, the recorded chains give %r' % (out, want), tol=tol, **c)
        for k in fresh:
            flat = fresh[k].ravel()
            rec.check(len(np.unique(flat)) == flat.size and
                      not any(np.any(np.isin(flat, o)) for o in seen), 'fresh-repeated',
                      'fresh states repeat earlier ones', latent=k, **c)
            # a draw from the proposal cannot be 12 standard deviations away
        z = (fresh['z1'] - pb.pm) / pb.ps1
        rec.check(np.all(np.abs(z) < 9), 'fresh-law', 'fresh states are not from the proposal', z=z, **c)
        if pb.two:
            z = (fresh['z2'] - pb.pa * fresh['z1'] - .3) / pb.ps2
            rec.check(np.all(np.abs(z) < 9), 'fresh-law', 'fresh states of dependent latents do not belong together',
                      z=z, **c)
            rec.event('two latents')
        seen += [v.ravel() for v in fresh.values()]
        rec.event('replayed run')
        if pb.off is not None:
            rec.event('far apart')
        if adapt:
            rec.event('adapting')
        rec.case((ctx, r), sample=dict(c, result=float(out)))
    sess.close()


def do_exact(rng, prm, rec):
    c = float(np.float32(rng.choice([-300., -3.7, 0., 2.5, 90.])))
    pb = Problem(rng, same=c)
    n_temp = int(rng.choice([1, 2, 5, 12]))
    ais, sess, var, ph, kw = build(rng, pb, n_temp, int(rng.choice([0, 2])), bool(rng.randint(2)))
    out = quiet(lambda: ais.run(sess, pb.feed(ph)))
    ctx = {'const': c, 'n_temperatures': n_temp, 'two': pb.two, 'hmc': kw}
    rec.check(abs(float(out) - c) <= 2e-5 * (n_temp + 2) * (30 + abs(c)), 'exact',
              'model = proposal * exp(%g) but the estimate is %r' % (c, out), **ctx)
    rec.event('exact')
    rec.case(('exact', c, n_temp, pb.two, pb.chains, pb.ndata, pb.dim, kw), sample=ctx)
    sess.close()


def do_unbiased(rng, prm, rec):
    pb = Problem(rng)
    pb.off = None
    pb.ndata, pb.dim, pb.chains = 1, 1, 1500
    pb.x = rng.normal(0, 1., (1, 1)).astype(np.float32)
    pb.pm = pb.pm[:1]
    pb.ps1, pb.ps2 = max(pb.ps1, 1.1 * pb.s1), max(pb.ps2, 1.1 * pb.s2)
    n_temp = int(rng.choice([2, 4, 8]))
    ais, sess, var, ph, kw = build(rng, pb, n_temp, int(rng.choice([0, 2])), False)
    true = float(pb.marginal()[0])

    def draw(n):
        w = []
        for _ in range(n):
            px = Proxy(sess, var, pb.feed(ph))
            out = quiet(lambda: ais.run(px, pb.feed(ph)))
            res = analyse(rec, pb, px.log, n_temp, {'unbiased': True})
            if res is None:
                return np.zeros(0)
            rec.check(abs(float(out) - lme0(res[0])[0]) < 1e-3, 'estimate', 'estimate is not that of the chains')
            w.append(np.exp(res[0].ravel() - true))
        return np.concatenate(w)
    m = 2 if not prm['big'] else 8
    bad, p1, p2 = zst.two_stage(draw, lambda w: zst.mean_p(w, 1.) if w.size else 1., 2 * m, 8 * m)
    rec.check(not bad, 'bias', 'mean of the weights is not the marginal likelihood (p=%.1e, %.1e)' % (p1, p2 or 1),
              n_temperatures=n_temp, hmc=kw)
    rec.event('unbiasedness tests')
    rec.case(('unbiased', n_temp, kw, pb.two, prm['seed']), sample={'n_temperatures': n_temp, 'p': p1})
    sess.close()


def do_prior(rng, prm, rec):
    """The states a run starts from are fresh proposal draws."""
    pb = Problem(rng)
    pb.off = None
    pb.chains, pb.ndata = 400, 2
    pb.x = rng.normal(0, 1., (2, pb.dim)).astype(np.float32)
    ais, sess, var, ph, kw = build(rng, pb, 1, int(rng.choice([0, 2])), bool(rng.randint(2)))

    def draw(n):
        z = []
        for _ in range(n):
            px = Proxy(sess, var, pb.feed(ph))
            quiet(lambda: ais.run(px, pb.feed(ph)))
            res = analyse(rec, pb, px.log, 1, {'prior': True})
            if res is None:
                return []
            f = {k: v.astype(float) for k, v in res[1].items()}
            z.append(((f['z1'] - pb.pm) / pb.ps1).reshape(400, -1))
            if pb.two:
                z[-1] = np.concatenate([z[-1], ((f['z2'] - pb.pa * f['z1'] - .3) / pb.ps2).reshape(400, -1)], -1)
        return z

    def pv(z):
        if not len(z):
            return 1.
        a = np.stack(z)
        ps = [zst.ks(st.norm.cdf(a)), zst.corr_p(a[1:], a[:-1]), zst.corr_p(a[:, 1:], a[:, :-1]),
              zst.corr_p(a[..., 1:], a[..., :-1])]
        return min(ps) * 4
    bad, p1, p2 = zst.two_stage(draw, pv, 3, 10)
    rec.check(not bad, 'prior', 'initial states are not independent proposal draws (p=%.1e, %.1e)' % (p1, p2 or 1))
    rec.event('proposal law tests')
    rec.case(('prior', pb.two, pb.dim, prm['seed']), sample={'p': p1})
    sess.close()
