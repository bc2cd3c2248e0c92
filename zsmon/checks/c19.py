"""C19: SGMCMC updates follow the published update equations."""
import numpy as np
import tensorflow as tf
from scipy import stats as st
from zsmon import sgmon as sg
from zsmon import stats as zst
from zsmon.core import subseed

RULE = ('Each evaluation is one run of a sampling op: states before and after and all reported statistics are '
        'recorded, momentum and friction are tracked in float64, and the part of the move not explained by the update '
        'equation is compared with the documented noise: exactly zero (to rounding) for noise-free settings, bounded '
        'by 9 standard deviations when the drift dominates, and standard normal and independent over latents, '
        'elements, chains and runs (two-stage) otherwise. Random coupled multi-latent targets given as function or '
        'net, minibatch data fed per run, hyper-parameters constant, default or fed and changing per run, both '
        'integrators, vector and scalar friction. Distinct: (algorithm, hyper-parameters, shapes, form, run index).')
ASSUMPTIONS = ['momentum resampling happens in calls 1, n+1, 2n+1, ...', 'false-alarm chance per test below 1e-15']
REQUIRED = {**{a + ' latents of one shape': 2 for a in sg.ALGOS},
            'SGHMC second order noise tests': 2, 'SGNHT second order noise tests': 2, 'SGLD': 140, 'PSGLD': 140, 'SGHMC': 140, 'SGNHT': 140, 'deterministic update': 1500, 'drift dominated': 500,
            'noise tests': 8, 'alpha': 250, 'mean_k': 600, 'resampled': 40, 'fed hyper-parameter': 100,
            'neighbour run': 100}


def items(tier, seed):
    n, reps, it = (2, 48, 12) if tier == 'quick' else (8, 128, 30)
    return [('exact', {'n': n, 'iters': it, 'seed': subseed('c19', seed, r), 'r': r}) for r in range(reps)] + \
        [('exact', {'n': 1, 'iters': 150 if tier == 'quick' else 800, 'seed': subseed('c19g', seed, r), 'r': r})
         for r in range(8)] + \
        [('noise', {'seed': subseed('c19n', seed, r), 'r': r, 'big': tier != 'quick'}) for r in range(24)]


def run(name, prm, rec):
    globals()['do_' + name](np.random.RandomState(prm['seed']), prm, rec)


CHAINS = [(), (1,), (4,), (2, 3), (7,)]
FEDS = {'SGLD': [], 'PSGLD': [], 'SGHMC': ['friction', 'variance_estimate', 'n_iter_resample_v'],
        'SGNHT': ['variance_extra', 'tune_rate', 'n_iter_resample_v']}


def judge_info(rec, s, info, after, ctx):
    for k in s.t.names:
        rec.check(np.array_equal(info['q'][k], after[k], equal_nan=True), 'q', 'reported q is not the stored state', latent=k,
                  got=info['q'][k], want=after[k], **ctx)
        if 'mean_k' in info:
            w, g = s.kinetic[k], info['mean_k'][k]
            tol = 1e-4 * (np.abs(w) + 1e-8) + 10 * s.verr[k].max() * (np.sqrt(np.max(w)) + s.verr[k].max())
            rec.check(np.shape(g) == np.shape(w) and np.all(np.abs(g - w) <= tol), 'mean_k',
                      'mean_k is not the mean squared new momentum', latent=k, got=g, want=w, **ctx)
            rec.event('mean_k')
        if 'alpha' in info:
            w, g = s.alpha[k], info['alpha'][k]
            tol = 1e-4 * (np.abs(w) + 1e-3) + 20 * (1 + abs(s.full['tune_rate'])) * s.verr[k].max() * \
                (np.sqrt(np.max(s.kinetic[k])) + 1e-3)
            rec.check(np.shape(g) == np.shape(w) and np.all(np.abs(g - w) <= tol), 'alpha',
                      'friction does not follow the thermostat equation', latent=k, got=g, want=w, **ctx)
            rec.event('alpha')
            s.alpha[k] = np.asarray(g, np.float64)      # resynchronise rounding


def build(rng, algo, chain, quiet, lr, iters, as_meta, inter, scale=1., n=None, resample=True, delays=None,
          couple=False, second=None, same=None):
    import zhusuan as zs
    tg = sg.Scaled(rng, chain, n=n, quartic=False, same=same)
    tg.scale = scale
    if couple:
        tg.couple(rng)
    if delays:
        tg.delays = {k: (delays if rng.rand() < .7 else 0.) for k in tg.names}
    hp = sg.hyper(rng, algo, quiet, lr)
    if algo in ('SGHMC', 'SGNHT'):
        hp['second_order'] = bool(rng.randint(2)) if second is None else second
        if not resample or (hp['second_order'] and (not quiet or algo == 'SGNHT')):
            hp['n_iter_resample_v'] = [None, 0][rng.randint(2)]
        else:
            hp['n_iter_resample_v'] = [None, 0, 3, 5, iters + 9][rng.randint(5)]
        if hp['second_order'] and rng.randint(2):
            del hp['second_order']
    fed = [k for k in FEDS[algo] if k in hp and hp[k] is not None and rng.randint(2)]
    s = sg.Sampler(zs, algo, tg, tg.init(rng, 1.), hp, as_meta, inter, fed)
    return s, hp, fed


def do_exact(rng, prm, rec):
    for it in range(prm['n']):
        tf.reset_default_graph()
        algo = sg.ALGOS[(prm['r'] + it) % 4]
        chain = CHAINS[rng.randint(len(CHAINS))]
        form = bool(rng.randint(2))
        noisy = algo in ('SGLD', 'PSGLD')
        scale = float(10 ** rng.uniform(2, 7)) if noisy else float(10 ** rng.uniform(-1, 1))
        lr = float(np.float32((.1 if noisy else .03) * rng.uniform(.3, 1) / scale))
        if algo == 'PSGLD':
            lr = float(np.float32(10 ** rng.uniform(-4, -1)))
        two = rng.rand() < .4      # another sampler of the same kind in the same graph and session

        def neighbour():
            import zhusuan as zs
            if not two:
                return None
            nv = tf.Variable(np.ones([3, 2], np.float32), trainable=False)
            return getattr(zs, algo)(learning_rate=.01).sample(
                lambda o: -tf.reduce_sum(tf.square(o['v']), -1), {}, {'v': nv})[0]
        near = neighbour()
        s, hp, fed = build(rng, algo, chain, True, lr, prm['iters'], form, int(rng.choice([1, 4])), scale)
        ctx0 = {'algo': algo, 'hp': hp, 'fed': fed, 'chain': chain, 'data': [s.t.data[k] for k in s.t.names],
                'net': form}
        stops = []
        for t in range(prm['iters']):
            now = {}
            if rng.rand() < .5:
                now['learning_rate'] = float(np.float32(lr * rng.choice([0., .25, .5, 1.])))
            if algo == 'SGHMC' and 'friction' in fed and 'variance_estimate' in fed and rng.rand() < .4:
                f = float(rng.choice([0., .1, .5]))
                now.update(friction=f, variance_estimate=f)
            if 'tune_rate' in fed and rng.rand() < .4:
                now['tune_rate'] = float(rng.choice([0., .5, 2.]))
            if now:
                rec.event('fed hyper-parameter')
            s.t.obs = float(np.float32(rng.normal()))
            ctx = dict(ctx0, run=t, now=now, neighbour=near is not None,
                       **({'stopped after': list(stops)} if stops else {}))
            if near is not None and rng.randint(2):
                s.sess.run(near)
                rec.event('neighbour run')
            q = s.state()
            s.full.update(now)
            resampled = s.resamples()
            info = s.step(**now)
            after = s.state()
            res = s.residual(q, after, resampled)
            for k in s.t.names:
                if resampled:
                    rec.event('resampled')
                if res[k] is None:
                    continue
                ex, sd, tol = res[k]
                rec.check(np.shape(after[k]) == np.shape(q[k]), 'shape', 'latent changed its shape', **ctx)
                lim = 9 * sd + tol
                rec.check(np.all(np.abs(ex) <= lim), 'update',
                          'the move of a latent differs from the update equation by more than its noise',
                          latent=k, excess=ex, limit=lim, q=q[k], got=after[k], **ctx)
                rec.event('drift dominated' if noisy else 'deterministic update', np.size(ex))
            judge_info(rec, s, info, after, ctx)
            rec.event(algo)
            rec.case((algo, hp, fed, chain, ctx0['data'], form, t), sample=ctx)
            if not all(np.all(np.abs(v) < 1e4) for v in after.values()):
                break
            if rng.rand() < prm.get('stop', 0):
                if rng.randint(2):
                    s.restart()
                    rec.event('new session')
                else:
                    tf.reset_default_graph()
                    near = neighbour()
                    s = s.rebuilt()
                    rec.event('new graph')
                stops.append(t)
        rec.check(set(s.fields) == {'SGLD': {'q'}, 'PSGLD': {'q'}, 'SGHMC': {'q', 'mean_k'},
                                    'SGNHT': {'q', 'mean_k', 'alpha'}}[algo], 'fields',
                  'sgmcmc_info has other fields than documented', got=s.fields)
        s.close()


def do_noise(rng, prm, rec):
    tf.reset_default_graph()
    algo = sg.ALGOS[prm['r'] % 4]
    chain = [(40,), (5, 8), (40,), (1,)][rng.randint(4)]
    lr = float(np.float32(rng.choice([.02, .1])))
    same = prm['r'] // 8 % 3 < 2
    s, hp, fed = build(rng, algo, chain, False, lr, 10 ** 6, bool(rng.randint(2)), int(rng.choice([1, 4])), .5,
                       n=int(rng.randint(2, 4)) if same else int(rng.randint(1, 4)), resample=False,
                       second=prm['r'] // 4 % 2 == 1, same=same)
    if same:
        rec.event(algo + ' latents of one shape')
    ctx = {'algo': algo, 'hp': hp, 'chain': chain, 'data': [s.t.data[k] for k in s.t.names]}
    per = int(sum(np.prod(chain + s.t.data[k]) for k in s.t.names))
    resync, gone = [0], [False]

    def draw(n):
        z = []
        for i in range(max(12, n // per)):
            q = s.state()
            s.t.obs = float(np.float32(rng.normal()))
            info = s.step()
            after = s.state()
            if not all(np.all(np.abs(v) < 1e4) for v in after.values()):
                gone[0] = True          # the dynamics diverged: nothing to judge from here on
            if gone[0]:
                break
            res = s.residual(q, after, False)
            row, fine = [], True
            for k in s.t.names:
                ex, sd, tol = res[k]
                row.append((ex / sd).reshape(-1))
                fine &= bool(np.all(tol < .02 * sd))
            judge_info(rec, s, info, after, dict(ctx, run=i))
            rec.event(algo)
            if fine:
                z.append(np.concatenate(row))
            else:
                resync[0] += 1
                if resync[0] > 200:
                    break
        return np.array(z)

    def pv(z):
        if len(z) < 5:
            return 1.
        ps = [zst.ks(st.norm.cdf(z)), zst.mean_p(z, 0.)]
        v = np.sum(z ** 2)
        ps.append(2 * min(st.chi2.cdf(v, z.size), st.chi2.sf(v, z.size)))
        for f in (lambda x: x, np.abs):
            ps.append(zst.corr_p(f(z[1:]), f(z[:-1])))
            if z.shape[1] > 1:
                ps.append(zst.corr_p(f(z[:, 1:]), f(z[:, :-1])))
                h = z.shape[1] // 2
                ps.append(zst.corr_p(f(z[:, :h]), f(z[:, h:2 * h])))
        # latents are independent of each other element by element
        ofs, parts = 0, []
        for k in s.t.names:
            m = int(np.prod(chain + s.t.data[k]))
            parts.append(z[:, ofs:ofs + m])
            ofs += m
        for i in range(len(parts)):
            for j in range(i):
                m = min(parts[i].shape[1], parts[j].shape[1])
                ps.append(zst.corr_p(parts[i][:, :m], parts[j][:, :m]))
        return min(ps) * len(ps)
    m = 3000 if not prm['big'] else 20000
    bad, p1, p2 = zst.two_stage(draw, pv, m, 4 * m)
    rec.check(not bad, 'noise', 'the noise is not independent N(0, documented variance) (p=%.1e, %.1e)' %
              (p1, p2 or 1), **ctx)
    rec.event('noise tests')
    if hp.get('second_order', algo in ('SGHMC', 'SGNHT')):
        rec.event(algo + ' second order noise tests')
    rec.case(('noise', algo, hp, chain, ctx['data']), sample=dict(ctx, p=p1))
    s.close()
