"""C17: HMC adaptation follows dual averaging and stops when switched off."""
import numpy as np
import tensorflow as tf
from zsmon import hmcmon as hm
from zsmon import stats as zst
from zsmon.core import subseed

RULE = ('Each evaluation is one HMC iteration in a history with random on/off sequences of the two adaptation flags. '
        'Shadow recursions (dual averaging with a free but constant mu; pooled decayed variance of the recorded '
        'visited states, from its definition) predict the reported step size and the mass; the transition is replayed '
        'with them, so a wrong mass or step size shows in the Hamiltonians, the proposal and the acceptance rate. '
        'Long histories (hundreds of iterations, slow decays) are judged by kinetic energies and reported step sizes. '
        'In some histories a second sampler of the same graph runs in between. '
        'Distinct: (flag pattern, chain shape, data shapes, parameters, iteration).')
ASSUMPTIONS = ['mu of the dual averaging recursion is left free (any constant)',
               'the searched step size is judged through the transition made with it; where rounding leaves open on which '
               'side of the target an acceptance rate lies, either outcome is accepted']
REQUIRED = {'step size predicted': 200, 'averaged step size': 80, 'adapted mass': 150, 'unit mass': 150,
            'frozen mass': 60, 'never adapted': 20, 'restart': 15, 'momentum tests': 4, 'resolved': 1200, 'neighbour run': 50,
            'search replayed': 8, 'long histories: iterations': 1400}


def items(tier, seed):
    n, reps, it = (1, 40, 26) if tier == 'quick' else (3, 96, 60)
    return [('history', {'n': n, 'iters': it, 'seed': subseed('c17', seed, r)}) for r in range(reps)] + \
        [('long', {'iters': 350 if tier == 'quick' else 2500, 'seed': subseed('c17g', seed, r)}) for r in range(8)] + \
        [('momentum', {'seed': subseed('c17m', seed, r)}) for r in range(8)]


def run(name, prm, rec):
    globals()['do_' + name](np.random.RandomState(prm['seed']), prm, rec)


class DualAveraging(object):
    def __init__(self, eps, delta, gamma, t0, kappa):
        self.delta, self.gamma, self.t0, self.kappa = delta, gamma, t0, kappa
        self.mu = None
        self.t, self.h, self.bar = 0, 0., np.log(eps)

    def update(self, alpha, fresh, seen):
        """returns the predicted step size (None the first time: mu is read off)"""
        if fresh:
            self.t, self.h = 0, 0.
        self.t += 1
        r = 1. / (self.t + self.t0)
        self.h = (1 - r) * self.h + r * (self.delta - alpha)
        s = np.sqrt(self.t) / self.gamma * self.h
        pred = None
        if self.mu is None:
            self.mu = np.log(seen) + s
        else:
            pred = np.exp(self.mu - s)
        w = self.t ** -self.kappa
        self.bar = w * (self.mu - s) + (1 - w) * self.bar if self.t > 1 else self.mu - s
        return pred


class MovingVariance(object):
    """Definition: weights decay^(T-i) over the recorded states, pooled over
    chains."""

    def __init__(self, target, decay):
        self.tg, self.d, self.x = target, decay, []

    def add(self, q):
        self.x.append({k: np.asarray(v, np.float64) for k, v in q.items()})

    def variance(self, k):
        if not self.x:
            return np.ones(self.tg.data[k])
        nc = int(np.prod(self.tg.chain)) if self.tg.chain else 1
        X = np.stack([s[k].reshape((nc,) + self.tg.data[k]) for s in self.x])
        w = self.d ** np.arange(len(X))[::-1]
        w = np.repeat(w[:, None], nc, 1)
        w = (w / w.sum()).reshape(w.shape + (1,) * len(self.tg.data[k]))
        m = (w * X).sum((0, 1))
        return (w * (X - m) ** 2).sum((0, 1))


def flags(rng, n):
    k = rng.randint(5)
    if k == 0:
        return [True] * n
    if k == 1:
        return [False] * n
    if k == 2:
        s = rng.randint(2, n - 2)
        return [True] * s + [False] * (n - s)
    if k == 3:
        s = rng.randint(1, n // 2)
        return [False] * s + [True] * (n - s)
    p = rng.uniform(.3, .8)
    return [bool(v) for v in rng.rand(n) < p]


def fit_score(tg, q, out, after, e, n, mass):
    """how badly a transition with step size e fits what was observed"""
    rp = hm.Replay(tg, q, out['p'], e, n, mass, np.random.RandomState(0), 1e-4)
    with np.errstate(all='ignore'):
        good = np.isfinite(rp.h1) & (rp.htol < .5)
        dev = np.abs(out['h1'] - rp.h1) / rp.htol
        fit = np.where(np.isfinite(rp.h1), dev <= 1, ~(out['h1'] <= np.max(rp.h0) + 1))
        where = np.ones(np.shape(out['rate']), bool)
        stay = np.ones(np.shape(out['rate']), bool)
        for k in tg.names:
            where &= np.all(~(np.abs(after[k] - rp.q[k]) > rp.tol[k]), tg.axes[k])
            stay &= np.all(after[k] == q[k], tg.axes[k])
        fit &= where | stay
        dev = np.where(good, dev, 1.)
    return (int(np.sum(~fit)), int(np.sum(~good)), float(np.max(dev)), int(np.sum(~fit & good))), rp


def fits(*a):
    """no chain whose trajectory float32 resolves contradicts the step size"""
    return fit_score(*a)[0][3] == 0


def searched(tg, q, p, eps, target, mass):
    """Exponents j of the step sizes eps * 1.5^j the search may end with: grown while
    the mean acceptance rate of a single leapfrog step reaches the target, shrunk
    once when it does not (both where rounding leaves that open); None: unbounded."""
    out = set()
    for j in range(60):
        with np.errstate(all='ignore'):
            rp = hm.Replay(tg, q, p, eps * 1.5 ** j, 1, mass, np.random.RandomState(0), 1e-4)
            r = np.where(np.isfinite(rp.rate) & np.isfinite(rp.lp1), rp.rate, 0.)
            tol = np.where(np.isfinite(rp.rtol), rp.rtol, 0. if not np.any(np.isfinite(rp.h1)) else 1.)
            m, e = float(np.mean(r)), float(np.mean(tol))
        if m - e < target:
            out.add(j - 1)
        if m + e < target:
            return out
    return None


def do_history(rng, prm, rec):
    import zhusuan as zs
    for it in range(prm['n']):
        tf.reset_default_graph()
        chain = [(4,), (2, 3), (8,), ()][rng.randint(4)]
        tg = hm.Target(rng, chain, quartic=bool(rng.randint(2)))
        n = int(rng.choice([1, 2, 3, 5]))
        eps0 = float(np.float32(rng.choice([.05, .1, .2, .3])))
        par = {'target_acceptance_rate': float(rng.choice([.8, .6, .9])), 'gamma': float(rng.choice([.05, .1, .5])),
               't0': int(rng.choice([100, 10, 3])), 'kappa': float(rng.choice([.75, .6, .9]))}
        kw = dict(par, step_size=eps0, n_leapfrogs=n)
        fs, fm = flags(rng, prm['iters']), flags(rng, prm['iters'])
        fix_s = len(set(fs)) == 1 and rng.randint(2)
        mass_on = rng.rand() < .75
        collect, decay, fed_m = 0, .99, False
        if mass_on:
            collect = int(rng.choice([2, 4, 7, 10])) if chain else int(rng.choice([7, 10]))
            decay = float(rng.choice([.99, .9, .6]))
            fed_m = not (len(set(fm)) == 1 and rng.randint(2))
            if collect != 10 or rng.randint(2):
                kw['mass_collect_iters'] = collect
            if decay != .99 or rng.randint(2):
                kw['mass_decay'] = decay
        for k in list(par):        # leave defaults unset now and then
            if kw[k] == {'target_acceptance_rate': .8, 'gamma': .05, 't0': 100, 'kappa': .75}[k] and rng.randint(2):
                del kw[k]
        form = bool(rng.randint(2))
        two = rng.rand() < .4      # another sampler in the same graph and session
        inter, init = int(rng.choice([1, 4])), tg.init(rng, 1.)
        as_tensor = {k for k in kw if rng.rand() < .4} if rng.randint(2) else ()

        def build():
            ps = tf.placeholder(tf.bool, []) if not fix_s else None
            pm = tf.placeholder(tf.bool, []) if fed_m else None
            k2 = dict(kw, adapt_step_size=fs[0] if ps is None else ps)
            for k in as_tensor:
                k2[k] = tf.constant(kw[k], tf.int32 if k in ('n_leapfrogs', 'mass_collect_iters') else tf.float32)
                rec.event('parameters given as tensors')
            if mass_on:
                k2['adapt_mass'] = fm[0] if pm is None else pm
            near = None
            if two:
                nv = tf.Variable(np.ones([3, 2], np.float32), trainable=False)
                near, _ = zs.HMC(step_size=.3, n_leapfrogs=2, adapt_step_size=True, adapt_mass=True,
                                 mass_collect_iters=3).sample(
                    lambda o: -2. * tf.reduce_sum(tf.square(o['v']), -1), {}, {'v': nv})
            return ps, pm, near, hm.Chain(zs, tg, init, form, inter=inter, **k2)
        ps, pm, near, ch = build()
        da = DualAveraging(eps0, par['target_acceptance_rate'], par['gamma'], par['t0'], par['kappa'])
        mv = MovingVariance(tg, decay)
        cur, ever, stops = eps0, False, []
        ctx0 = dict(par, eps0=eps0, chain=chain, n_leapfrogs=n, collect=collect, decay=decay, mass=mass_on,
                    data=[tg.data[k] for k in tg.names])
        for t in range(1, prm['iters'] + 1):
            s_on, m_on = fs[t - 1], mass_on and fm[t - 1]
            feed = {}
            if ps is not None:
                feed[ps] = s_on
            if pm is not None:
                feed[pm] = m_on
            if near is not None and rng.randint(2):
                ch.sess.run(near)
                rec.event('neighbour run')
            q = ch.state()
            out = ch.step(feed)
            after = ch.state()
            ctx = dict(ctx0, iteration=t, adapt_step=s_on, adapt_mass=m_on, neighbour=near is not None,
                       **({'stopped after': list(stops)} if stops else {}))
            if m_on:
                mv.add(q)
            var = {k: mv.variance(k) for k in tg.names}
            if mass_on and t >= collect:
                if min(np.min(v) for v in var.values()) < 1e-4:
                    break                                   # a chain that never moved
                mass = {k: 1. / v for k, v in var.items()}
                rec.event('adapted mass' if m_on else 'frozen mass')
            else:
                mass = {k: np.ones(tg.data[k]) for k in tg.names}
                rec.event('unit mass')
            fresh = s_on and (t == 1 or t == collect)
            if fresh:
                # the searched step size: current one times a power of 1.5
                best = None
                for j in range(-40, 41):
                    e = cur * 1.5 ** j
                    score, rp = fit_score(tg, q, out, after, e, n, mass)
                    if best is None or score < best[0]:
                        best = (score, e, rp)
                used, rp = best[1], best[2]
                if best[0][0]:
                    ctx['note'] = 'no power of 1.5 fits'
                else:
                    may = searched(tg, q, out['p'], cur, par['target_acceptance_rate'], mass)
                    if may is not None:
                        # neighbouring step sizes may fit the same transition within rounding
                        may_h = [cur * 1.5 ** j for j in may]
                        j = int(round(np.log(used / cur) / np.log(1.5)))
                        if j not in may:
                            other = any(fits(tg, q, out, after, e, n, mass) for e in may_h)
                            rec.check(other, 'step-size-search', 'the transition used step size %g, the search '
                                      'gives %s' % (used, may_h), start=cur, **ctx)
                        rec.event('search replayed')
                rec.event('restart')
            else:
                used = cur
                rp = hm.Replay(tg, q, out['p'], used, n, mass, np.random.RandomState(t), 1e-4)
            hm.judge(rec, tg, q, out, after, rp, dict(ctx, step_size_used=used))
            seen = float(out['eps'])
            if s_on:
                pred = da.update(float(np.mean(out['rate'])), fresh, seen)
                ever = True
                if pred is not None:
                    rec.check(abs(np.log(seen) - np.log(pred)) <= 1e-3, 'dual-averaging',
                              'step size %g, dual averaging gives %g' % (seen, pred), t=da.t, **ctx)
                    rec.event('step size predicted')
            else:
                want = np.exp(da.bar) if ever else eps0
                rec.check(abs(np.log(seen) - np.log(want)) <= 1e-3, 'averaged-step-size',
                          'step size %g while adaptation is off, averaged value is %g' % (seen, want), **ctx)
                rec.event('averaged step size' if ever else 'never adapted')
            cur = seen
            if rng.rand() < prm.get('stop', 0):
                if rng.randint(2):
                    ch.restart()
                    rec.event('new session')
                else:
                    old = ch
                    tf.reset_default_graph()
                    ps, pm, near, ch = build()
                    ch.take_over(old)
                    rec.event('new graph')
                stops.append(t)
            rec.case((chain, ctx0['data'], collect, decay, par, fs[:t], fm[:t]), sample=ctx)
        ch.close()


def do_long(rng, prm, rec):
    """Long histories with slow decays. The states are set from outside; the mass is read off the kinetic energy
    and the step size off the report, in every iteration."""
    import zhusuan as zs
    from zsmon.tfu import session
    tf.reset_default_graph()
    chain, d = [(3,), (2, 2), (6,)][rng.randint(3)], int(rng.choice([1, 2]))
    decay = float(np.float32(rng.choice([.99, .995, .999, .9999])))
    par = {'target_acceptance_rate': float(rng.choice([.8, .6])), 'gamma': float(rng.choice([.05, .5])),
           't0': int(rng.choice([100, 10])), 'kappa': float(rng.choice([.75, .55]))}
    eps0, collect = float(np.float32(rng.choice([.05, .2]))), int(rng.choice([2, 10, prm['iters'] // 3]))
    v = tf.Variable(np.zeros(chain + (d,), np.float32), trainable=False)
    on = tf.placeholder(tf.bool, [])
    op, info = zs.HMC(step_size=eps0, n_leapfrogs=1, adapt_step_size=on, adapt_mass=True, mass_collect_iters=collect,
                      mass_decay=decay, **par).sample(
        lambda o: -.5 * tf.reduce_sum(tf.square(o['v']), -1), {}, {'v': v})
    ph = tf.placeholder(tf.float32, chain + (d,))
    put = tf.assign(v, ph).op
    da = DualAveraging(eps0, par['target_acceptance_rate'], par['gamma'], par['t0'], par['kappa'])
    sess = session(1, 1)
    sess.run(tf.global_variables_initializer())
    X = np.zeros((prm['iters'],) + chain + (d,))
    ctx0 = dict(par, decay=decay, collect=collect, chain=chain, dims=d)
    turn = int(prm['iters'] * rng.uniform(.3, .7))
    for t in range(1, prm['iters'] + 1):
        m, sd = (2., .2) if t < turn else (-.5, 1.)
        x = rng.normal(m, sd, chain + (d,)).astype(np.float32)
        X[t - 1] = x
        s_on = t < .8 * prm['iters']
        sess.run(put, {ph: x})
        _, p, h, lp, rate, seen = sess.run([op, info.init_momentum['v'], info.orig_hamiltonian, info.orig_log_prob,
                                            info.acceptance_rate, info.updated_step_size], {on: s_on})
        ctx = dict(ctx0, iteration=t)
        w = decay ** np.arange(t)[::-1]
        w /= w.sum()
        flat = X[:t].reshape(t, -1, d)
        mean = np.einsum('t,tcd->d', w, flat) / flat.shape[1]
        var = np.einsum('t,tcd->d', w, (flat - mean) ** 2) / flat.shape[1] if t >= collect else np.ones(d)
        k = .5 * np.sum(p.astype(np.float64) ** 2 * var, -1)
        rec.check(np.all(np.abs(h + lp - k) <= .02 * k + 1e-5 * (1 + np.abs(lp))), 'mass', 'kinetic energies do not fit the '
                  'decayed variance of the visited states', got=h + lp, want=k, **ctx)
        seen = float(seen)
        if s_on:
            pred = da.update(float(np.mean(rate)), t in (1, collect), seen)
            if pred is not None:
                rec.check(abs(np.log(seen) - np.log(pred)) <= 2e-3, 'dual-averaging',
                          'step size %g, dual averaging gives %g' % (seen, pred), t=da.t, **ctx)
        else:
            rec.check(abs(np.log(seen) - da.bar) <= 2e-3, 'averaged-step-size',
                      'step size %g while adaptation is off, averaged value is %g' % (seen, np.exp(da.bar)), **ctx)
        rec.event('long histories: iterations')
        rec.case(('long', ctx0, t), sample=ctx)
    sess.close()


def do_momentum(rng, prm, rec):
    """Momenta are N(0, mass), also after the mass was adapted."""
    import zhusuan as zs
    tf.reset_default_graph()
    chain = (300,)
    tg = hm.Target(rng, chain, n=2)
    for k in tg.names:
        tg.data[k], tg.axes[k] = (2,), (1,)
        tg.a[k], tg.b[k], tg.d[k] = rng.uniform(.2, 9., 2), np.zeros(2), np.zeros(2)
    ps, pm = tf.placeholder(tf.bool, []), tf.placeholder(tf.bool, [])
    adapted = bool(rng.randint(2))
    ch = hm.Chain(zs, tg, tg.init(rng, 1.), False, step_size=.1, n_leapfrogs=3, adapt_step_size=ps, adapt_mass=pm,
                  mass_collect_iters=3, mass_decay=.9)
    mv = MovingVariance(tg, .9)
    if adapted:
        for _ in range(8):
            mv.add(ch.state())
            ch.step({ps: True, pm: True})
    mass = {k: 1. / mv.variance(k) for k in tg.names}

    def draw(n):
        ps_ = []
        for _ in range(n):
            o = ch.step({ps: False, pm: False})
            ps_.append({k: o['p'][k] / np.sqrt(mass[k]) for k in tg.names})
        return ps_

    def pv(d):
        from scipy import stats as st
        x = np.concatenate([np.concatenate([s[k] for k in tg.names], -1) for s in d])     # [n, 4]
        ps_ = [zst.ks(st.norm.cdf(x[:, i])) * 4 for i in range(x.shape[1])]
        for i in range(x.shape[1]):
            ps_.append(zst.corr_p(x[1:, i], x[:-1, i]) * 30)
            for j in range(i):
                ps_.append(zst.corr_p(x[:, i], x[:, j]) * 30)
        return min(ps_)
    bad, p1, p2 = zst.two_stage(draw, pv, 10, 40)
    rec.check(not bad, 'momentum-law', 'momenta are not independent N(0, mass) (p=%.1e, %.1e)' % (p1, p2 or 1),
              adapted=adapted, mass=mass)
    rec.event('momentum tests')
    rec.case(('momentum', adapted, prm['seed']), sample={'adapted': adapted, 'p': p1})
    ch.close()
