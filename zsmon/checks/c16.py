"""C16: every HMC transition is a leapfrog proposal with a Metropolis test."""
import numpy as np
import tensorflow as tf
from scipy import stats as st
from zsmon import hmcmon as hm
from zsmon import stats as zst
from zsmon.core import subseed

RULE = ('Each evaluation is one HMC iteration of all chains: state before, everything HMCInfo reports and the state '
        'after are recorded and replayed in float64 from the reported momentum (tolerances from perturbed replays). '
        'Random targets with 1-3 coupled latents of different ranks, chain shapes () to rank 2, step sizes from '
        'tiny to divergent, 1-20 leapfrog steps given as int or fed tensor, function and net models, targets with '
        'regions of -inf or NaN density, fixed step size or adaptation flags fed as False. The acceptance decisions '
        'are tested against the reported rates (two-stage). Distinct: (model form, chain shape, data shapes, step '
        'size, leapfrogs, iteration).')
ASSUMPTIONS = ['float32 trajectories are only judged where the perturbed replay shows they are resolved',
               'randomness of accept decisions is tested with false-alarm chance below 1e-15']
REQUIRED = {'chain transitions': 4000, 'accepted': 1000, 'rejected': 500, 'non-finite proposals': 30, 'resolved': 3000,
            'decision tests': 8, 'bounded support': 200, 'net model': 300}


def items(tier, seed):
    n, reps, it = (2, 40, 12) if tier == 'quick' else (6, 96, 40)
    return [('replay', {'n': n, 'iters': it, 'seed': subseed('c16', seed, r)}) for r in range(reps)] + \
        [('decide', {'seed': subseed('c16a', seed, r), 'big': tier != 'quick'}) for r in range(12)] + \
        [('bounded', {'seed': subseed('c16b', seed, r), 'iters': 2 * it}) for r in range(8)]


def run(name, prm, rec):
    globals()['do_' + name](np.random.RandomState(prm['seed']), prm, rec)


CHAINS = [(), (1,), (4,), (2, 3), (7,)]


def do_replay(rng, prm, rec):
    import zhusuan as zs
    for it in range(prm['n']):
        tf.reset_default_graph()
        chain = CHAINS[rng.randint(len(CHAINS))]
        form = ('function', 'custom', 'net')[rng.randint(3)]
        tg = hm.NormalNet(rng, chain) if form == 'net' else hm.Target(rng, chain, quartic=bool(rng.randint(2)))
        eps = float(np.float32(np.exp(rng.uniform(np.log(.02), np.log(1.2)))))
        if rng.rand() < .15:
            eps = float(rng.choice([5., 50., 1e4]))
        n = int(rng.choice([1, 2, 3, 5, 10, 20]))
        feed = {}
        kw = {'step_size': eps}
        nl = n
        if rng.rand() < .4:
            nl = tf.placeholder(tf.int32, [])
        kw['n_leapfrogs'] = nl
        if rng.rand() < .3:
            kw['step_size'] = tf.constant(eps, tf.float32)
        ad = ('none', 'fed')[rng.randint(2)]
        if ad == 'fed':
            kw['adapt_step_size'] = tf.placeholder(tf.bool, [])
            feed[kw['adapt_step_size']] = False
            if rng.randint(2):
                kw['adapt_mass'] = tf.placeholder(tf.bool, [])
                feed[kw['adapt_mass']] = False
        ch = hm.Chain(zs, tg, tg.init(rng, float(rng.choice([.3, 1., 3.]))), form != 'function',
                      inter=int(rng.choice([1, 4])), **kw)
        mass = {k: 1. for k in tg.names}
        ctx0 = {'form': form, 'chain': chain, 'data': [tg.data[k] for k in tg.names], 'eps': eps, 'adapt': ad}
        prev_p = []
        for t in range(prm['iters']):
            if nl is not n:
                n = int(rng.choice([1, 2, 4, 7]))
                feed[nl] = n
            q = ch.state()
            out = ch.step(feed)
            after = ch.state()
            rp = hm.Replay(tg, q, out['p'], eps, n, mass, rng)
            ctx = dict(ctx0, n_leapfrogs=n, iteration=t)
            hm.judge(rec, tg, q, out, after, rp, ctx)
            rec.check(abs(out['eps'] - eps) <= 1e-5 * eps, 'step-size', 'step size changed without adaptation',
                      got=out['eps'], **ctx)
            for k in tg.names:
                rec.check(np.shape(out['p'][k]) == np.shape(q[k]), 'momentum-shape', 'momentum has another shape',
                          **ctx)
            flat = np.concatenate([np.ravel(out['p'][k]) for k in tg.names])
            rec.check(len(np.unique(flat)) == len(flat) and not any(np.array_equal(flat, o) for o in prev_p),
                      'momentum-reused', 'momentum values are repeated', **ctx)
            prev_p = prev_p[-3:] + [flat]
            if form == 'net':
                rec.event('net model', np.size(out['rate']))
            rec.case((form, chain, ctx0['data'], round(np.log(eps)), n, ad, t), sample=ctx)
        ch.close()


def decision_pvalue(pairs):
    """p-value that accept ~ Bernoulli(rate) for recorded (rate, accepted)."""
    r = np.concatenate([a for a, _ in pairs])
    a = np.concatenate([b for _, b in pairs]).astype(float)
    use = (r > 0) & (r < 1)
    r, a = r[use], a[use]
    ps = [1.]
    edges = [0, .2, .4, .6, .8, 1.0001]
    groups = [np.ones(len(r), bool)] + [(r >= lo) & (r < hi) for lo, hi in zip(edges, edges[1:])]
    for g in groups:
        v = np.sum(r[g] * (1 - r[g]))
        if v > 60:
            z = np.sum(a[g] - r[g]) / np.sqrt(v)
            ps.append(2 * st.norm.sf(abs(z)) * len(groups))
    # neighbouring chains decide independently
    h = len(r) // 2 * 2
    x = (a - r)
    if h > 400:
        ps.append(zst.corr_p(x[0:h:2], x[1:h:2]) * 3)
    return min(ps)


def do_decide(rng, prm, rec):
    """Many chains at a coarse step size: are the coins fair?"""
    import zhusuan as zs
    chain = [(500,), (20, 25)][rng.randint(2)]
    tg = hm.Target(rng, chain, n=int(rng.randint(1, 3)), quartic=bool(rng.randint(2)))
    a = max(np.max(tg.a[k]) for k in tg.names) + tg.c + 2 * max(np.max(tg.d[k]) for k in tg.names)
    eps = float(rng.uniform(.9, 1.5) / np.sqrt(a))
    ch = hm.Chain(zs, tg, tg.init(rng, .5), False, step_size=eps, n_leapfrogs=int(rng.choice([1, 2, 3])))
    ctx = {'chain': chain, 'eps': eps}

    def draw(iters):
        acc = []
        for t in range(iters):
            q = ch.state()
            out = ch.step()
            after = ch.state()
            moved = np.ones(chain, bool)
            for k in tg.names:
                moved &= np.any(after[k].reshape(chain + (-1,)) != q[k].reshape(chain + (-1,)), -1)
            acc.append((np.asarray(out['rate'], float), moved))
        return acc
    m = 1 if not prm['big'] else 4
    bad, p1, p2 = zst.two_stage(draw, decision_pvalue, 8 * m, 30 * m)
    rec.check(not bad, 'decision', 'accept decisions do not follow the reported acceptance rates (p=%.1e, %.1e)'
              % (p1, p2 or 1), **ctx)
    rec.event('decision tests')
    rec.event('decisions', 8 * m * 500)
    rec.case(('decide', chain, [tg.data[k] for k in tg.names], round(eps, 1)), sample=dict(ctx, p=p1))
    ch.close()


class Bounded(hm.Target):
    """exponential density on x > 0, -inf or NaN elsewhere"""

    def __init__(self, rng, chain, bad):
        hm.Target.__init__(self, rng, chain, n=1)
        self.data = {self.names[0]: (2,)}
        self.axes = {self.names[0]: (len(chain),)}
        self.bad = bad

    def tf_log_joint(self, o):
        x = tf.convert_to_tensor(o[self.names[0]])
        lp = tf.reduce_sum(-x, -1) + 0. * o['data']
        ok = tf.reduce_all(x > 0, -1)
        return tf.where(ok, lp, tf.ones_like(lp) * self.bad)

    def log_joint(self, x):
        v = np.asarray(x[self.names[0]], np.float64)
        return np.where(np.all(v > 0, -1), -v.sum(-1), self.bad)

    def grad(self, x):
        # tf.where passes the gradient of the branch taken only
        v = np.asarray(x[self.names[0]], np.float64)
        ok = np.all(v > 0, -1)[..., None]
        return {self.names[0]: np.where(ok, -np.ones_like(v), 0.)}


def do_bounded(rng, prm, rec):
    import zhusuan as zs
    for bad in (-np.inf, np.nan, np.inf):
        tf.reset_default_graph()
        chain = (6,)
        tg = Bounded(rng, chain, bad)
        eps = float(rng.choice([.2, .7, 1.5]))
        n = int(rng.choice([1, 2, 4]))
        k = tg.names[0]
        ch = hm.Chain(zs, tg, {k: rng.uniform(.2, 1., chain + (2,)).astype(np.float32)}, False, step_size=eps,
                      n_leapfrogs=n)
        for t in range(prm['iters']):
            q = ch.state()
            out = ch.step()
            after = ch.state()
            rp = hm.Replay(tg, q, out['p'], eps, n, {k: 1.}, rng)
            ctx = {'density outside': bad, 'eps': eps, 'n_leapfrogs': n, 'iteration': t}
            edge = np.any(np.abs(rp.q[k]) < 1e-3, -1)
            outside = ~np.all(rp.q[k] > 0, -1) & ~edge
            rec.check(np.all(out['rate'][outside] == 0), 'outside-accepted',
                      'positive acceptance rate for a proposal with non-finite density', got=out['rate'], **ctx)
            rec.check(np.all(after[k] > 0), 'left-support', 'a chain left the support', got=after, **ctx)
            if not np.any(edge):
                hm.judge(rec, tg, q, out, after, rp, ctx)
            rec.event('bounded support', 6)
            rec.event('proposals outside', np.sum(outside))
            rec.case(('bounded', bad, eps, n, t), sample=ctx)
        ch.close()
