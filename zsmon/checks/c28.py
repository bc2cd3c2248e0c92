"""C28: what is resumed from a checkpoint goes on as if it had not been stopped."""
import numpy as np
import tensorflow as tf
from zsmon.checks import c13, c17, c19
from zsmon.core import subseed
from zsmon.tfu import resume, session

RULE = ('Each evaluation is one run of a sampling op or surrogate in a history that is stopped at random points: all '
        'global variables are saved with tf.train.Saver, the session is closed, and the history goes on in a new '
        'session, of the same graph or of a new graph built by the same program, after restoring them. The shadows '
        'of C17 (dual averaging, decayed variance), C19 (momentum, preconditioner, friction, resampling period) and '
        'C13 (moving mean) live outside TensorFlow and are not told about the stops. Distinct: configuration and run '
        'index with the points it was stopped at.')
ASSUMPTIONS = ['the random numbers after a stop are fresh ones, only the laws and the deterministic parts continue']
REQUIRED = {'new session': 100, 'new graph': 100, 'step size predicted': 100, 'averaged step size': 10,
            'adapted mass': 30, 'frozen mass': 8, 'SGLD': 80, 'PSGLD': 80, 'SGHMC': 100, 'SGNHT': 100, 'alpha': 100,
            'resampled': 20, 'moving mean subtracted': 60}


def items(tier, seed):
    n, reps, it = (1, 16, 22) if tier == 'quick' else (2, 64, 40)
    return [('hmc', {'n': n, 'iters': it, 'seed': subseed('c28', seed, r), 'stop': .2}) for r in range(reps)] + \
        [('sg', {'n': 2 * n, 'iters': 12, 'seed': subseed('c28s', seed, r), 'r': r, 'stop': .25})
         for r in range(2 * reps)] + \
        [('reinforce', {'n': 2 * n, 'seed': subseed('c28r', seed, r)}) for r in range(reps)]


def run(name, prm, rec):
    globals()['do_' + name](np.random.RandomState(prm['seed']), prm, rec)


def do_hmc(rng, prm, rec):
    c17.do_history(rng, prm, rec)


def do_sg(rng, prm, rec):
    c19.do_exact(rng, prm, rec)


def do_reinforce(rng, prm, rec):
    """learning signals given directly: log densities are fed"""
    import zhusuan as zs
    for it in range(prm['n']):
        decay = float(rng.choice([.8, .5, .9, .99]))
        inter = int(rng.choice([1, 4]))

        def build():
            tf.reset_default_graph()
            lj, lq = tf.placeholder(tf.float64, [None, None]), tf.placeholder(tf.float64, [None, None])
            z = tf.zeros([1, 1])
            obj = zs.variational.elbo(lambda o: lj, {}, latent={'z': [z, lq]}, axis=0)
            w = tf.Variable(1., dtype=tf.float64)
            cost = obj.reinforce(decay=decay)
            # the score of sample i: d cost / d lq = -signal / K
            g = tf.gradients(cost, lq)[0]
            sess = session(inter, 1)
            sess.run(tf.global_variables_initializer())
            return lj, lq, cost, g, w, sess
        lj, lq, cost, g, w, sess = build()
        mm = c13.MovingMean(float(np.float32(decay)))
        stops = []
        ofs = float(rng.choice([0., 3., -50.]))
        for t in range(8):
            K, B = int(rng.randint(1, 4)), int(rng.randint(1, 4))
            a, b = rng.normal(ofs, 2, (K, B)), rng.normal(0, 2, (K, B))
            out, grad = sess.run([cost, g], {lj: a, lq: b})
            sig = a - b - mm.value
            if t:
                rec.event('moving mean subtracted')
            mm.update(np.mean(a - b))
            c = {'decay': decay, 'run': t, 'stopped after': list(stops)}
            want = np.mean(-a - sig * b, 0)
            tol = 1e-6 * (1 + np.abs(ofs)) * 10
            rec.check(np.allclose(out, want, rtol=1e-6, atol=tol), 'cost', 'surrogate value does not continue the '
                      'moving mean of the earlier runs', got=out, want=want, **c)
            rec.check(np.allclose(grad, -sig / K, rtol=1e-6, atol=tol), 'signal', 'learning signal does not continue '
                      'the moving mean of the earlier runs', got=-grad * K, want=sig, **c)
            rec.case(('reinforce', decay, inter, t, tuple(stops)), sample=c)
            if rng.rand() < .35:
                if rng.randint(2):
                    sess = resume(sess, lambda: session(inter, 1))
                    rec.event('new session')
                else:
                    old = sess
                    lj, lq, cost, g, w, new = build()
                    new.close()
                    sess = resume(old, lambda: session(inter, 1, cost.graph))
                    rec.event('new graph')
                stops.append(t)
        sess.close()
