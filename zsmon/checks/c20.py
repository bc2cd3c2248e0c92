"""C20: SGMCMC steps are atomic and resampling is periodic in any schedule."""
import numpy as np
import tensorflow as tf
from scipy import stats as st
from zsmon import sgmon as sg
from zsmon import stats as zst
from zsmon.core import subseed
from zsmon.checks.c19 import build, judge_info

RULE = ('Each evaluation is one run of a sampling op under a perturbed schedule: reads of the latents inside the log '
        'joint are delayed by random sleeps, 1-8 inter-op threads, 2-6 coupled latents. The move must equal the '
        'update computed from the state before the run (noise-free or drift-dominated settings), so reading any '
        'value already replaced shows. Resampling: with zero gradient and no friction the momentum is constant '
        'between resamplings, so every change of the step marks one; the marks must be the multiples of '
        'n_iter_resample_v for all latents in the same calls, with N(0, learning rate) draws (two-stage); without '
        'resampling the first move after the initialiser is such a draw too. Distinct: '
        '(algorithm, hyper-parameters, latents, threads, delays, run index).')
ASSUMPTIONS = ['schedules are sampled by delays and thread counts, not enumerated',
               'false-alarm chance per statistical test below 1e-15']
REQUIRED = {'delayed run': 300, 'SGLD': 40, 'PSGLD': 40, 'SGHMC': 40, 'SGNHT': 40, 'resampling marks': 150,
            'kept momentum': 250, 'never resampled': 80, 'resample law tests': 4, 'initial law tests': 4, 'elements judged': 2000}


def items(tier, seed):
    n, reps, it = (2, 32, 12) if tier == 'quick' else (6, 96, 40)
    return [('atomic', {'n': n, 'iters': it, 'seed': subseed('c20', seed, r), 'r': r}) for r in range(reps)] + \
        [('period', {'n': 2, 'seed': subseed('c20p', seed, r), 'iters': 25 if tier == 'quick' else 120, 'r': r})
         for r in range(reps)] + \
        [('period', {'n': 1, 'seed': subseed('c20q', seed, r), 'iters': 260 if tier == 'quick' else 2100, 'r': r,
                     'every': [11, 20, 50, 128]}) for r in range(8)] + \
        [('law', {'seed': subseed('c20l', seed, r), 'r': r}) for r in range(16)]


def run(name, prm, rec):
    globals()['do_' + name](np.random.RandomState(prm['seed']), prm, rec)


def do_atomic(rng, prm, rec):
    for it in range(prm['n']):
        tf.reset_default_graph()
        algo = sg.ALGOS[(prm['r'] + it) % 4]
        chain = [(), (3,), (2, 2)][rng.randint(3)]
        noisy = algo in ('SGLD', 'PSGLD')
        scale = float(10 ** rng.uniform(5, 8)) if noisy else float(10 ** rng.uniform(-1, 1))
        lr = float(np.float32((.1 if noisy else .05) * rng.uniform(.5, 1) / scale))
        if algo == 'PSGLD':
            lr = float(np.float32(10 ** rng.uniform(-2, -1)))
        threads = int(rng.choice([1, 2, 4, 8]))
        delay = float(rng.choice([0., .002, .005]))
        s, hp, fed = build(rng, algo, chain, True, lr, prm['iters'], False, threads, scale,
                           n=int(rng.randint(2, 7)), delays=delay, couple=rng.rand() < .8)
        tg = s.t
        ctx0 = {'algo': algo, 'hp': hp, 'chain': chain, 'latents': len(tg.names), 'threads': threads,
                'delays': tg.delays}
        for t in range(prm['iters']):
            tg.obs = float(np.float32(rng.normal()))
            q = s.state()
            resampled = s.resamples()
            info = s.step()
            after = s.state()
            res = s.residual(q, after, resampled)
            ctx = dict(ctx0, run=t)
            for k in tg.names:
                if res[k] is None:
                    continue
                ex, sd, tol = res[k]
                lim = 9 * sd + tol
                rec.check(np.all(np.abs(ex) <= lim), 'atomic',
                          'the move of a latent is not the update computed from the state before the run',
                          latent=k, excess=ex, limit=lim, **ctx)
                rec.event('elements judged', np.size(ex))
            judge_info(rec, s, info, after, ctx)
            rec.event(algo)
            if delay:
                rec.event('delayed run')
            rec.case((algo, hp, chain, len(tg.names), threads, tg.delays, t), sample=ctx)
            if not all(np.all(np.abs(v) < 1e4) for v in after.values()):
                break
        s.close()


def flat_model(names):
    """A log joint without gradient."""
    def log_joint(o):
        return tf.add_n([tf.reduce_sum(o[k] * 0., list(range(1, len(o[k].shape)))) for k in names])
    return log_joint


class Flat(object):
    def __init__(self, rng, n, chain=4):
        self.names = ['w%d' % i for i in range(n)]
        dims = [(), (2,), (3,), (2, 2)]
        self.data = {k: dims[rng.randint(4)] for k in self.names}
        self.shape = {k: (chain,) + self.data[k] for k in self.names}
        self.obs = 0.

    def init(self, rng, scale=0.):
        return {k: np.zeros(self.shape[k], np.float32) for k in self.names}

    def grad(self, x):
        return {k: np.zeros(self.shape[k]) for k in self.names}
    grad_mag = grad


def flat_sampler(rng, algo, tg, hp, fed, threads):
    import zhusuan as zs
    return sg.Sampler(zs, algo, tg, tg.init(rng), hp, False, threads, fed, model=flat_model(tg.names))


def flat_hp(algo, n, second):
    hp = {'learning_rate': 1., 'n_iter_resample_v': n, 'second_order': second}
    if algo == 'SGHMC':
        hp.update(friction=0., variance_estimate=0.)
    else:
        hp.update(variance_extra=0., tune_rate=0.)
    return hp


def do_period(rng, prm, rec):
    """With zero gradient, friction and noise each move is the momentum."""
    for it in range(prm['n']):
        tf.reset_default_graph()
        algo = ('SGHMC', 'SGNHT')[(prm['r'] + it) % 2]
        every = prm.get('every', [None, 0, 1, 2, 3, 5, 7])
        n = every[rng.randint(len(every))]
        tg = Flat(rng, int(rng.randint(1, 9)))
        hp = flat_hp(algo, n, bool(rng.randint(2)))
        fed = ['n_iter_resample_v'] if n is not None and rng.randint(2) else []
        threads = int(rng.choice([1, 2, 4, 8]))
        s = flat_sampler(rng, algo, tg, hp, fed, threads)
        ctx0 = {'algo': algo, 'n_iter_resample_v': n, 'latents': len(tg.names), 'threads': threads, 'fed': fed,
                'second_order': hp['second_order']}
        q = s.state()
        prev, marks = None, []
        for t in range(1, prm['iters'] + 1):
            s.step()
            after = s.state()
            move = {k: after[k].astype(float) - q[k] for k in tg.names}
            mag = {k: 1e-5 * (1 + np.abs(after[k]).max()) for k in tg.names}
            if n in (None, 0):
                # the momenta were initialised with a learning rate of 0
                for k in tg.names:
                    rec.check(np.all(np.abs(move[k]) <= mag[k]), 'never',
                              'momentum resampled although n_iter_resample_v is %r' % n, call=t, latent=k, **ctx0)
                rec.event('never resampled')
            else:
                if prev is not None:
                    # fraction of changed elements (an unchanged draw has probability 0)
                    ch = {k: bool(np.any(np.abs(move[k] - prev[k]) > 4 * mag[k])) for k in tg.names}
                    allc = {k: bool(np.all(np.abs(move[k] - prev[k]) > 0)) for k in tg.names}
                    rec.check(len(set(ch.values())) == 1, 'partial',
                              'momenta of some latents were resampled and of others not', call=t, changed=ch, **ctx0)
                    if all(ch.values()):
                        marks.append(t)
                        rec.event('resampling marks')
                        rec.check(all(allc.values()), 'partial-elements', 'only some elements were resampled', call=t,
                                  **ctx0)
                    else:
                        rec.event('kept momentum')
                elif any(np.any(np.abs(m) > 0) for m in move.values()):
                    marks.append(t)
                if prev is None:
                    # the first call starts from momentum 0: a move means it was resampled
                    pass
            prev, q = move, after
            rec.case((ctx0, t), sample=dict(ctx0, call=t))
        if n not in (None, 0):
            first = marks[0] if marks else None
            want = list(range(first, prm['iters'] + 1, n)) if first else []
            rec.check(first is not None and first <= n and marks == want, 'period',
                      'momentum was resampled in calls %s, not once every %d calls' % (marks, n), **ctx0)
        s.close()


def do_law(rng, prm, rec):
    """Initial and resampled momenta are N(0, learning rate) and independent."""
    initial = bool(prm['r'] // 2 % 2)
    tf.reset_default_graph()
    algo = ('SGHMC', 'SGNHT')[prm['r'] % 2]
    tg = Flat(rng, int(rng.randint(1, 4)), chain=60)
    hp = flat_hp(algo, [None, 0][rng.randint(2)] if initial else 1, bool(rng.randint(2)))
    lr = hp['learning_rate'] = float(np.float32(rng.choice([.01, .3, 2.])))
    s = flat_sampler(rng, algo, tg, hp, [], int(rng.choice([1, 4])))

    def draw(n):
        z = []
        for _ in range(n):
            if initial:
                s.initialize()
            q = s.state()
            s.step()
            after = s.state()
            z.append(np.concatenate([((after[k].astype(float) - q[k]) / np.sqrt(lr)).ravel() for k in tg.names]))
            for k, v in s.var.items():
                v.load(np.zeros(tg.shape[k], np.float32), s.sess)
        return np.array(z)

    def pv(z):
        ps = [zst.ks(st.norm.cdf(z)), zst.corr_p(z[1:], z[:-1]), zst.corr_p(z[:, 1:], z[:, :-1])]
        h = z.shape[1] // 2
        ps.append(zst.corr_p(z[:, :h], z[:, h:2 * h]))
        v = np.sum(z ** 2)
        ps.append(2 * min(st.chi2.cdf(v, z.size), st.chi2.sf(v, z.size)))
        ofs, parts = 0, []
        for k in tg.names:
            m = int(np.prod(tg.shape[k]))
            parts.append(z[:, ofs:ofs + m])
            ofs += m
        for i in range(len(parts)):
            for j in range(i):
                m = min(parts[i].shape[1], parts[j].shape[1])
                ps.append(zst.corr_p(parts[i][:, :m], parts[j][:, :m]))
        return min(ps) * len(ps)
    bad, p1, p2 = zst.two_stage(draw, pv, 40, 150)
    rec.check(not bad, 'law', '%s momenta are not independent N(0, learning rate) (p=%.1e, %.1e)'
              % ('initial' if initial else 'resampled', p1, p2 or 1), algo=algo, hp=hp)
    rec.event('initial law tests' if initial else 'resample law tests')
    rec.case(('law', initial, algo, hp, tg.data), sample={'algo': algo, 'lr': lr, 'p': p1})
    s.close()
