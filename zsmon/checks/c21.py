"""C21: flow log-densities satisfy the change-of-variables formula."""
import numpy as np
import tensorflow as tf
from zsmon.core import subseed
from zsmon.tfu import session, hide

RULE = ('Each evaluation is one flow run at random parameter values: the Jacobian of every returned sample with '
        'respect to every input sample is measured (reverse-mode gradients of each output coordinate, cross-checked '
        'against finite differences of the flow itself), its log |determinant| in float64 is compared with the change '
        'of log density at each position; shapes, input gradients across positions and repeatability are checked. '
        'Planar and IAF (linear and random nonlinear networks, both updates), 0-6 layers, 1-5 dims, rank 2-4, '
        'static/partial/unknown leading shapes; plus dependency probes of linear_ar and mismatching shapes. '
        'Distinct: (flow, dims, rank, layers, update, network, declared shape, parameters).')
ASSUMPTIONS = ["planar layers with w'u between -6 and 20 (float32 cannot represent the correction far beyond)",
               "custom autoregressive networks return positive s for update='normal'"]
REQUIRED = {'planar positions': 1000, 'iaf normal positions': 500, 'iaf gru positions': 500, 'corrected layers': 60,
            'finite difference': 200, 'linear_ar probes': 100, 'rejected': 80, 'custom network calls': 60, 'far inputs': 20}


def items(tier, seed):
    n, reps = (5, 32) if tier == 'quick' else (24, 64)
    return [('planar', {'n': n, 'seed': subseed('c21', seed, r)}) for r in range(reps)] + \
        [('iaf', {'n': n, 'seed': subseed('c21i', seed, r)}) for r in range(reps)] + \
        [('linear', {'n': 2 * n, 'seed': subseed('c21l', seed, r)}) for r in range(reps // 4)] + \
        [('reject', {'n': 4 * n, 'seed': subseed('c21r', seed, r)}) for r in range(reps // 4)]


def run(name, prm, rec):
    rng = np.random.RandomState(prm['seed'])
    for _ in range(prm['n']):
        tf.reset_default_graph()
        globals()['do_' + name](rng, rec)


LEADS = [(1,), (4,), (2, 3), (5,), (2, 1, 2)]


def inputs(rng):
    d = int(rng.choice([1, 2, 3, 5]))
    lead = LEADS[rng.randint(len(LEADS))]
    x = rng.normal(0, float(rng.choice([.3, 1., 2.])), lead + (d,)).astype(np.float32)
    lp = rng.normal(0, 3, lead).astype(np.float32)
    how = ('static', 'rank', 'partial', 'const')[rng.randint(4)]
    feed = {}
    if how == 'const':
        px, pl = tf.constant(x), tf.constant(lp)
        if rng.randint(2):
            px, pl = x, lp
    else:
        px = tf.placeholder(tf.float32, hide(lead, how, rng) + [d])
        pl = tf.placeholder(tf.float32, hide(lead, how, rng))
        feed = {px: x, pl: lp}
    return d, lead, x, lp, how, px, pl, feed


def random_params(rng, sess, scale):
    for v in tf.trainable_variables():
        shp = v.get_shape().as_list()
        v.load(rng.normal(0, scale, shp).astype(np.float32), sess)


def measure(rng, rec, flow, ctx, kind, scale, check_params=None):
    """flow(x, lp) -> (z, lp'). Judges one flow at random inputs/parameters."""
    d, lead, x, lp, how, px, pl, feed = inputs(rng)
    xin = tf.identity(tf.convert_to_tensor(px))
    z, lz = flow(xin, pl)
    ctx = dict(ctx, d=d, lead=lead, declared=how)
    if z.get_shape().ndims is not None:
        rec.check(z.get_shape()[-1] in (d, None) or z.get_shape()[-1].value in (d, None), 'static-shape',
                  'static shape of the samples changed', got=str(z.get_shape()), **ctx)
    zf = tf.reshape(z, [-1, d])
    grads = [tf.gradients(zf[:, i], xin)[0] for i in range(d)]
    rows = tf.stack([g if g is not None else tf.zeros_like(xin) for g in grads], -2)       # [..., out, in]
    sess = session(1, 1)
    sess.run(tf.global_variables_initializer())
    for rep in range(4):
        if rep or rng.rand() < .8:
            for _ in range(20):
                random_params(rng, sess, scale)
                if check_params is None or check_params(sess):
                    break
            else:
                continue
        if feed:
            far = kind == 'planar' and rng.rand() < .25
            x = rng.normal(0, 400. if far else float(rng.choice([.3, 1., 2.])), lead + (d,)).astype(np.float32)
            if far:
                rec.event('far inputs')
            lp = rng.normal(0, 3, lead).astype(np.float32)
            feed = {px: x, pl: lp}
        observe(rng, rec, sess, z, lz, rows, px, feed, x, lp, d, lead, kind, ctx)
    sess.close()


def observe(rng, rec, sess, z, lz, rows, px, feed, x, lp, d, lead, kind, ctx):
    zz, lzz, J = sess.run([z, lz, rows], feed)
    rec.check(np.shape(zz) == lead + (d,) and np.shape(lzz) == lead, 'shape',
              'shapes are not preserved', got=[np.shape(zz), np.shape(lzz)], **ctx)
    if np.shape(zz) != lead + (d,) or np.shape(lzz) != lead:
        return
    regular = np.all(np.isfinite(J), (-1, -2)) & np.all(np.abs(zz) < 1e4, -1)
    sane = regular & np.isfinite(lzz)
    if kind.startswith('iaf'):           # exp(z W) leaves float32 for large z: nothing to judge there
        regular &= np.linalg.cond(np.where(regular[..., None, None], J, np.eye(d)).astype(np.float64)) < 1e4
        rec.check(np.all(sane[regular]), 'finite', 'the map is regular but its log density is not finite', z=zz,
                  lp=lzz, **ctx)
        if not np.any(sane):
            return
    else:
        rec.check(np.all(np.isfinite(lzz)) and np.all(np.isfinite(zz)), 'finite', 'flow output is not finite', z=zz,
                  lp=lzz, **ctx)
    J = np.where(sane[..., None, None], J.astype(np.float64), np.eye(d))
    sign, ld = np.linalg.slogdet(J)
    cond = np.linalg.cond(J)
    with np.errstate(all='ignore'):
        got = lp.astype(np.float64) - lzz
    tol0 = 2e-5 * (1 + np.abs(lp) + np.abs(lzz))
    tol = tol0 + 3e-6 * cond * (1 + np.max(np.abs(J), (-1, -2)))
    ok = sane & np.isfinite(ld) & (cond < 1e4)
    rec.check(np.all((np.abs(got - ld) <= tol)[ok]), 'change-of-variables',
              'log density change is not minus log |det Jacobian|', got=got, want=ld, tol=tol, condition=cond, **ctx)
    # an (almost) singular map cannot keep its density: the true log |det| is at most this
    sv = np.linalg.svd(J, compute_uv=False)
    with np.errstate(divide='ignore'):
        most = np.sum(np.log(sv + 1e-4 * sv.max(-1, keepdims=True) * (cond > 1e4)[..., None]), -1)
    rec.check(np.all((got <= most + tol0 + .1)[sane & (cond > 1e4)]), 'singular',
              'the map is (almost) singular, but the log density change is not that of such a map', got=got, most=most,
              **ctx)
    rec.event(kind + ' positions', int(np.sum(ok)))
    # the measured Jacobian is that of the map: finite differences through the flow
    if feed and rng.rand() < .5 and np.all(sane):
        n = x.size // d
        i = rng.randint(n)
        j = rng.randint(d)
        h = 2e-2
        pert = []
        for sgn in (1, -1):
            x2 = x.reshape(-1, d).copy()
            x2[i, j] += sgn * h
            f2 = dict(feed)
            f2[px] = x2.reshape(x.shape)
            pert.append((x2[i, j], sess.run([z, lz], f2)))
        dx = float(pert[0][0]) - float(pert[1][0])
        dz = (pert[0][1][0].astype(float) - pert[1][1][0]).reshape(-1, d) / dx
        jj = J.reshape(-1, d, d)[i, :, j]
        other = np.delete(np.arange(n), i)
        rec.check(np.all(dz[other] == 0) and np.array_equal(np.delete(pert[0][1][1].ravel(), i),
                                                            np.delete(lzz.ravel(), i)), 'cross-position',
                  'one position depends on another', **ctx)
        # central difference error: third derivative, bounded via the two one-sided ones
        z0 = zz.reshape(-1, d)[i].astype(float)
        fwd = (pert[0][1][0].reshape(-1, d)[i] - z0) / (float(pert[0][0]) - float(x.reshape(-1, d)[i, j]))
        bwd = (z0 - pert[1][1][0].reshape(-1, d)[i]) / (float(x.reshape(-1, d)[i, j]) - float(pert[1][0]))
        lim = 1.5 * np.abs(fwd - bwd) + 2e-3 * (1 + np.abs(jj)) + 3e-6 * np.abs(z0) / h
        rec.check(np.all(np.abs(dz[i] - jj) <= lim), 'jacobian', 'gradient of the returned sample is not its slope',
                  got=jj, want=dz[i], lim=lim, **ctx)
        rec.event('finite difference')
    rec.case((kind, ctx, x.tobytes()), nontrivial=bool(np.any(np.abs(ld) > 1e-3)), sample=ctx)


def do_planar(rng, rec):
    from zhusuan.transform import planar_normalizing_flow
    n = int(rng.choice([0, 1, 1, 2, 3, 6]))
    scale = float(rng.choice([.1, .5, 1., 1.5]))

    def guard(sess):
        # w and u have shape [d, 1]; whichever pairs belong together, all products are bounded
        vs = [sess.run(v).ravel() for v in tf.trainable_variables() if v.get_shape().ndims == 2]
        fine = True
        for i in range(len(vs)):
            fine &= float(vs[i].dot(vs[i])) > (.05 if scale > .2 else 1e-3)
            for j in range(i):
                fine &= -6 < float(vs[i].dot(vs[j])) < 20
        if fine:
            rec.event('corrected layers', sum(float(vs[i].dot(vs[i + 1])) < -.5 for i in range(0, len(vs) - 1, 2)))
        return fine
    measure(rng, rec, lambda x, lp: planar_normalizing_flow(x, lp, n), {'flow': 'planar', 'layers': n, 'scale': scale},
            'planar', scale, guard)


def do_iaf(rng, rec):
    from zhusuan.transform import inv_autoregressive_flow, linear_ar
    n = int(rng.choice([0, 1, 1, 2, 3, 5]))
    update = ('normal', 'gru')[rng.randint(2)]
    net = ('linear', 'custom')[rng.randint(2)]
    scale = float(rng.choice([.1, .3, .6]))
    calls = []
    with_hidden = rng.rand() < .3 and net == 'custom'

    def custom(name, id, z, hidden):
        calls.append((name, id, hidden))
        d = int(z.get_shape()[-1])
        mask = tf.constant(np.triu(np.ones((d, d)), 1), tf.float32)
        w1 = tf.Variable(tf.random_normal([d, d]), name='w1')
        w2 = tf.Variable(tf.random_normal([d, d]), name='w2')
        b = tf.Variable(tf.zeros([d]), name='b')
        f = tf.reshape(z, [-1, d])
        m = tf.reshape(tf.sin(tf.matmul(f, w1 * mask)) + b, tf.shape(z))
        s = tf.reshape(tf.tanh(tf.matmul(f, w2 * mask)), tf.shape(z))
        if hidden is not None:
            s = s + tf.tanh(hidden)
        return m, (tf.nn.softplus(s) + .2 if update == 'normal' else s)
    hid = [None]

    def flow(x, lp):
        if with_hidden:
            hid[0] = tf.zeros_like(x) + .3
        kw = {} if update == 'normal' and rng.randint(2) else {'update': update}
        return inv_autoregressive_flow(x, hid[0], lp, linear_ar if net == 'linear' else custom, n, **kw)
    ctx = {'flow': 'iaf', 'layers': n, 'update': update, 'net': net, 'hidden': with_hidden, 'scale': scale}
    measure(rng, rec, flow, ctx, 'iaf ' + update, scale)
    if net == 'custom':
        rec.event('custom network calls', len(calls))
        rec.check(len(calls) == n and len(set(c[1] for c in calls)) == n, 'layers',
                  'the autoregressive network is not applied once per layer with its own id',
                  ids=[c[1] for c in calls], **ctx)
        rec.check(all((c[2] is None) == (not with_hidden) for c in calls), 'hidden', 'hidden is not passed on', **ctx)


def do_linear(rng, rec):
    from zhusuan.transform import linear_ar
    d = int(rng.choice([1, 2, 3, 6]))
    lead = LEADS[rng.randint(len(LEADS))]
    x = rng.normal(0, 1, lead + (d,)).astype(np.float32)
    ph = tf.placeholder(tf.float32, hide(lead, ('static', 'rank')[rng.randint(2)], rng) + [d])
    m, s = linear_ar('ar', int(rng.randint(4)), ph) if rng.randint(2) else linear_ar('ar', 0, ph, hidden=None)
    sess = session(1, 1)
    sess.run(tf.global_variables_initializer())
    random_params(rng, sess, .7)
    m0, s0 = sess.run([m, s], {ph: x})
    ctx = {'d': d, 'lead': lead}
    rec.check(np.shape(m0) == np.shape(x) and np.shape(s0) == np.shape(x) and np.all(s0 > 0), 'ar-output',
              'outputs of linear_ar have another shape or s is not positive', got=[np.shape(m0), np.shape(s0)], **ctx)
    for i in range(d):
        x2 = x.copy()
        x2[..., i] += 1.
        m1, s1 = sess.run([m, s], {ph: x2})
        rec.check(np.array_equal(m1[..., :i + 1], m0[..., :i + 1]) and np.array_equal(s1[..., :i + 1], s0[..., :i + 1]),
                  'autoregressive', 'an output depends on its own or a later input', position=i, **ctx)
        if i + 1 < d:
            rec.check(np.all(np.any(m1[..., i + 1:] != m0[..., i + 1:], -1)) and
                      np.all(np.any(s1[..., i + 1:] != s0[..., i + 1:], -1)), 'autoregressive-dead',
                      'later outputs ignore an input', position=i, **ctx)
        rec.event('linear_ar probes')
    rec.case(('linear', d, lead, x.tobytes()), nontrivial=d > 1, sample=ctx)
    sess.close()


BAD = [((3, 2), (2,)), ((3, 2), ()), ((3, 2), (3, 2)), ((2, 3, 2), (3,)), ((2, 3, 2), (2, 1)), ((3, 2), (1,)),
       ((2, 3, 2), (1, 3)), ((2, 3, 2), (3, 2)), ((4,), ()), ((1, 2), (3,)), ((2, 2), (2, 2, 1))]


def do_reject(rng, rec):
    from zhusuan.transform import planar_normalizing_flow, inv_autoregressive_flow, linear_ar
    sx, sl = BAD[rng.randint(len(BAD))]
    flow = ('planar', 'iaf')[rng.randint(2)]
    how = ('static', 'rank', 'partial')[rng.randint(3)]
    x, lp = np.ones(sx, np.float32), np.zeros(sl, np.float32)
    px = tf.placeholder(tf.float32, hide(sx[:-1], how, rng) + [sx[-1]])
    pl = tf.placeholder(tf.float32, hide(sl, how, rng))
    ctx = {'flow': flow, 'samples': sx, 'log_probs': sl, 'declared': how}
    try:
        if flow == 'planar':
            z, lz = planar_normalizing_flow(px, pl, 2)
        else:
            z, lz = inv_autoregressive_flow(px, None, pl, linear_ar, 2)
    except ValueError:
        rec.event('rejected')
        rec.case((ctx, 'static'), sample=ctx)
        return
    sess = session(1, 1)
    sess.run(tf.global_variables_initializer())
    try:
        out = sess.run([z, lz], {px: x, pl: lp})
        rec.violation('mismatch', 'mismatching shapes of samples and log densities are accepted',
                      got=[np.shape(o) for o in out], **ctx)
    except (tf.errors.InvalidArgumentError, ValueError):
        rec.event('rejected')
    rec.case((ctx, 'run'), sample=ctx)
    sess.close()
