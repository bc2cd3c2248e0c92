"""C30: what distributions, nodes, nets and objectives report about themselves is what they compute with."""
import numpy as np
import tensorflow as tf
from zsmon import dists as ds, shapes as sh
from zsmon.core import subseed
from zsmon.models import random_net
from zsmon.tfu import session, Feeder
from zsmon.vmodels import VModel

RULE = ('Each evaluation is one object asked for everything it reports about itself: a distribution (parameters, '
        'std and logstd whichever was given, numbers of categories and experiments, dtypes, support kind, '
        'group_ndims), built by the class or by any node route, and built again from what it reports, which must '
        'have the same density and support; a net and its nodes (names, distribution, owner, observed or not, static '
        'shape, dtype, the dictionary of nodes, every way of looking a node up, delegated sampling and densities); '
        'an objective (model, variational net, the net it evaluates). Distinct: (object, route, parameterisation, '
        'dtype, shapes known, arguments given).')
ASSUMPTIONS = ['the densities themselves are judged by C01']
REQUIRED = {'parameters': 300, 'far parameters': 4, 'rebuilt': 140, 'std and logstd': 20, 'n_categories': 60, 'n_experiments': 20,
            'support kind': 200, 'node': 200, 'lookup': 200, 'delegated': 60, 'deterministic': 60,
            'objective': 60, 'objective net': 40}

# what the attributes are called
PARAMS = {s.name: tuple(s.params) for s in ds.SPECS}


def items(tier, seed):
    reps, n = (2, 8) if tier == 'quick' else (16, 20)
    out = [('dist', {'name': s.name, 'n': n, 'seed': subseed('c30', seed, s.name, r)})
           for s in ds.SPECS for r in range(reps * (3 if 'std' in s.params else 1))]
    out += [(k, {'n': n, 'seed': subseed('c30', k, seed, r)}) for r in range(8 * reps) for k in ('nets', 'objectives')]
    return out


def run(name, prm, rec):
    import zhusuan as zs
    rng = np.random.RandomState(prm['seed'])
    for it in range(prm['n']):
        tf.reset_default_graph()
        globals()['do_' + name](zs, rng, prm, rec)


def close(a, b, tol):
    a, b = np.asarray(a, np.float64), np.asarray(b, np.float64)
    with np.errstate(all='ignore'):
        return a.shape == b.shape and bool(np.all((a == b) | (np.abs(a - b) <= tol * (1 + np.abs(b)))))


def bcast_equal(a, b, tol):
    try:
        s = np.broadcast_shapes(np.shape(a), np.shape(b))
    except ValueError:
        return False
    return close(np.broadcast_to(a, s), np.broadcast_to(b, s), tol)


def do_dist(zs, rng, prm, rec):
    spec = ds.BY_NAME[prm['name']]
    D = zs.distributions
    cfg = sh.config(rng, spec)
    pd = spec.param_dtypes[rng.randint(len(spec.param_dtypes))]
    p = ds.gen_params(spec, rng, cfg['shapes'], 'mod', pd, cfg['ev'])
    both = None
    far = rng.rand() < .4
    if far and 'std' in p:
        # far from 1, the mean with it
        e = rng.uniform(-1, 1) * {'float16': 4., 'float32': 40., 'float64': 300.}[pd]
        p = {'mean': ds.rnd(p['mean'] * np.exp(e), pd), 'std': ds.rnd(p['std'] * np.exp(e), pd)}
        rec.event('far parameters')
    if 'std' in p:
        both = {'std': p['std'], 'logstd': np.log(p['std'])}
        if rng.randint(2):
            p['logstd'] = ds.rnd(np.log(p.pop('std')), pd)
            both = {'std': np.exp(p['logstd']), 'logstd': p['logstd']}
    fd = Feeder()
    how = [sh.HOWS[i] for i in rng.randint(len(sh.HOWS), size=len(p))]
    pt = {k: fd.tensor(v, pd, h, rng, const=h == 'static' and rng.randint(2)) for (k, v), h in zip(p.items(), how)}
    kw = {}
    sd = pd
    if spec.discrete:
        sd = spec.sample_dtypes[rng.randint(len(spec.sample_dtypes))]
        kw['dtype'] = tf.as_dtype(sd)
    ne = None
    if 'n_experiments' in spec.extra:
        ne = int(rng.randint(1, 9))
        kw['n_experiments'] = ne if rng.randint(2) else fd.tensor(ne, 'int32')
    if 'normalize_logits' in getattr(spec, 'extra', {}) or spec.name in ('Multinomial', 'UnnormalizedMultinomial'):
        kw['normalize_logits'] = bool(rng.randint(2))
    group = int(rng.randint(0, len(cfg['batch']) + 1))
    gt = rng.randint(2)
    kw['group_ndims'] = fd.tensor(group, 'int32') if gt else group
    if spec.reparam and rng.randint(2):
        kw['is_reparameterized'] = bool(rng.randint(2))
    if spec.path and rng.randint(2):
        kw['use_path_derivative'] = bool(rng.randint(2))
    if spec.check_numerics and rng.randint(2):
        kw['check_numerics'] = bool(rng.randint(2))
    route = ('class', 'bn', 'stochastic', 'legacy')[rng.randint(4)]
    if route == 'class':
        names = (spec.name,) + tuple(spec.aliases)
        nm = names[rng.randint(len(names))]
        args, k2 = spec.bn_args(pt, **kw)
        d = getattr(D, nm)(*args, **k2)
    else:
        bn = zs.BayesianNet()
        args, k2 = spec.bn_args(pt, **kw)
        if route == 'bn':
            node = getattr(bn, spec.bn)('v', *args, **k2)
        elif route == 'stochastic':
            node = bn.stochastic('v', spec.ctor(D, pt, **kw))
        else:
            with bn:
                node = getattr(zs, spec.name)('v', *args, **k2)
        d = node.dist
    c = {'dist': spec.name, 'route': route, 'given': sorted(list(kw) + list(p)), 'static': how, 'param_dtype': pd,
         'sample_dtype': sd, 'group_ndims': group}
    if rng.randint(2):
        # using the object first must not change what it reports
        d.log_prob(fd.tensor(ds.rnd(values(spec, rng, p, cfg, ne), sd), sd))
        if spec.samples:
            d.sample(2)
    rec.check(d.dtype == tf.as_dtype(sd), 'dtype', 'reports dtype %s' % d.dtype, **c)
    rec.check(d.param_dtype == tf.as_dtype(pd), 'param_dtype', 'reports param_dtype %s' % d.param_dtype, **c)
    rec.check(d.is_continuous == (not spec.discrete), 'is_continuous', 'reports is_continuous=%s' % d.is_continuous, **c)
    if spec.reparam:
        want = kw.get('is_reparameterized', True)
        rec.check(d.is_reparameterized == want, 'is_reparameterized', 'reports is_reparameterized=%s' %
                  d.is_reparameterized, **c)
    if spec.path:
        rec.check(d.use_path_derivative == kw.get('use_path_derivative', False), 'use_path_derivative',
                  'reports use_path_derivative=%s' % d.use_path_derivative, **c)
    if not gt:
        rec.check(isinstance(d.group_ndims, int) and d.group_ndims == group, 'group_ndims', 'reports group_ndims=%r' %
                  (d.group_ndims,), **c)
    x = ds.rnd(values(spec, rng, p, cfg, ne), sd)
    xt = fd.tensor(x, sd)
    reported = {k: getattr(d, k) for k in spec.params if k not in ('std',)}
    if both:
        reported.update(std=d.std, logstd=d.logstd)
    fetch = {'rep': reported, 'g': tf.convert_to_tensor(d.group_ndims), 'lp': d.log_prob(xt), 'extra': {}}
    ncat = hasattr(d, 'n_categories')
    if ncat:
        n = d.n_categories
        if not isinstance(n, tf.Tensor):
            rec.check(isinstance(n, (int, np.integer)), 'n_categories-kind', 'n_categories is neither an integer nor '
                      'a tensor: %r' % (n,), **c)
        fetch['extra']['ncat'] = tf.convert_to_tensor(n)
    if ne is not None:
        if not isinstance(kw['n_experiments'], tf.Tensor) and spec.name != 'Multinomial':
            rec.check(not isinstance(d.n_experiments, tf.Tensor) and d.n_experiments == ne or
                      isinstance(d.n_experiments, tf.Tensor), 'n_experiments', 'reports n_experiments=%r' %
                      (d.n_experiments,), **c)
        fetch['extra']['ne'] = tf.convert_to_tensor(d.n_experiments)
    # built again from what it reports
    kk = dict(kw, group_ndims=d.group_ndims)
    if spec.discrete:
        kk['dtype'] = d.dtype
    if ne is not None:
        kk['n_experiments'] = d.n_experiments
    again = []
    for ls in ((False, True) if both else (False,)):
        q = {k: reported[k] for k in spec.params if k in reported and not (both and k in ('std', 'logstd'))}
        if both:
            q['logstd' if ls else 'std'] = reported['logstd' if ls else 'std']
        again.append(spec.ctor(D, q, **kk).log_prob(xt))
    fetch['again'] = again
    if spec.samples:
        fetch['s'] = d.sample(3)
    with session(1, 1) as sess:
        o = sess.run(fetch, fd.feed)
    tol = {'float16': 2e-2, 'float32': 1e-5, 'float64': 1e-12}[pd]
    for k, v in o['rep'].items():
        want = both[k] if both and k in both else p[k]
        same = bcast_equal(v, want, tol)
        if k == 'std' and pd != 'float16':
            with np.errstate(all='ignore'):
                same = same and bool(np.all(np.abs(v.astype(np.float64) / want - 1) <= tol * (20 + np.abs(both['logstd']))))
        rec.check(same, 'parameter', 'attribute %s is not the parameter it was given' % k, got=v,
                  want=want, **c)
        rec.event('parameters')
        if both and k in both:
            rec.event('std and logstd')
    rec.check(int(o['g']) == group, 'group_ndims', 'reports group_ndims=%s' % o['g'], **c)
    if ncat:
        real = x.shape[-1] if spec.name != 'Categorical' else list(p.values())[0].shape[-1]
        rec.check(int(o['extra']['ncat']) == real, 'n_categories', 'reports %s categories, it has %d' %
                  (o['extra']['ncat'], real), **c)
        rec.event('n_categories')
    if ne is not None:
        rec.check(int(o['extra']['ne']) == ne, 'n_experiments', 'reports %s experiments, was given %d' %
                  (o['extra']['ne'], ne), **c)
        rec.event('n_experiments')
    for a in o['again']:
        # the density may cancel: compare on the scale of its terms
        sc = 1. + np.abs(o['lp'].astype(np.float64))
        if pd == 'float16':
            continue
        ok = a.shape == o['lp'].shape and np.all((a == o['lp']) | (np.abs(a.astype(float) - o['lp']) <=
                                                 (2e-3 if pd == 'float32' else 1e-9) * sc))
        rec.check(bool(ok), 'rebuilt', 'the distribution built from what it reports has another density', got=a,
                  want=o['lp'], **c)
        rec.event('rebuilt')
    if spec.samples:
        s = o['s']
        rec.check(s.dtype == np.dtype(d.dtype.as_numpy_dtype), 'dtype', 'samples have dtype %s' % s.dtype, **c)
        if not d.is_continuous:
            rec.check(np.array_equal(s, np.round(s)), 'is_continuous', 'a discrete distribution drew fractions', got=s,
                      **c)
        elif s.size > 8 and spec.name not in ('FoldNormal',) and pd != 'float16' and not far:
            rec.check(not np.array_equal(s, np.round(s)), 'is_continuous', 'a continuous distribution drew integers',
                      got=s, **c)
        rec.event('support kind')
    rec.case((spec.name, route, sorted(kw), sorted(p), how, pd, sd), sample=c)


def values(spec, rng, p, cfg, ne):
    kw = {} if ne is None else {'n_experiments': ne}
    return sh.grid_values(spec, rng, p, dict(cfg, given=cfg['batch']), 'mod', **kw)


# -- nets ---------------------------------------------------------------------
def do_nets(zs, rng, prm, rec):
    lead = (None, None, 3)[rng.randint(3)]
    net = random_net(rng, int(rng.randint(2, 6)), lead=lead)
    obs = {n.name: np.asarray(n.value(rng)) for n in net if rng.rand() < .4}
    routes = [('shortcut', 'stochastic', 'legacy')[rng.randint(3)] for _ in net]
    returned, given, det, owner = {}, {}, {}, []

    @zs.meta_bayesian_net(scope=('m', None)[rng.randint(2)], reuse_variables=False)
    def build():
        # nodes of the old style are observed through the net
        bn = zs.BayesianNet(observed={n.name: obs[n.name] for n, r in zip(net, routes)
                                      if r == 'legacy' and n.name in obs})
        owner.append(bn)
        vals = {}
        for i, (nd, r) in enumerate(zip(net, routes)):
            if r == 'stochastic':
                d = nd.distribution(zs, vals)
                given[nd.name] = d
                vals[nd.name] = bn.stochastic(nd.name, d, n_samples=nd.n_samples)
            else:
                vals[nd.name] = nd.add(zs, bn, vals, r)
            returned[nd.name] = vals[nd.name]
            if rng.rand() < .4:
                v = tf.convert_to_tensor(vals[nd.name]) * 2.
                k = 'd%d' % i
                det[k] = (v, bn.deterministic(k, v), nd.name)
        return bn
    meta = build()
    bn = meta.observe(**{n.name: (obs[n.name] if rng.randint(2) else tf.constant(obs[n.name]))
                         for n, r in zip(net, routes) if n.name in obs and r != 'legacy'})
    c = {'net': [(nd.kind, r, nd.group) for nd, r in zip(net, routes)], 'observed': sorted(obs), 'n_samples': lead}
    rec.check(owner and bn is owner[-1], 'net', 'observe did not return the net the function built', **c)
    names = [nd.name for nd in net]
    rec.check(isinstance(bn.nodes, dict) and sorted(bn.nodes) == sorted(names + list(det)), 'nodes',
              'nodes lists %s' % sorted(bn.nodes), **c)
    fetch, fetch2 = {}, {}
    sn = 'zz'
    for nd, r in zip(net, routes):
        n = bn.nodes[nd.name]
        cc = dict(c, node=nd.name, route=r)
        rec.check(n is returned[nd.name], 'nodes', 'nodes holds another object than the one returned', **cc)
        rec.check(bn[nd.name] is n and bn.get(nd.name) is n and bn.get([nd.name])[0] is n, 'lookup',
                  'lookups return different objects', **cc)
        rec.event('lookup')
        rec.check(n.name == nd.name, 'name', 'node reports name %r' % n.name, **cc)
        rec.check(n.bn is bn and n.net is bn, 'owner', 'node reports another net', **cc)
        rec.check(n.is_observed() == (nd.name in obs), 'is_observed', 'node reports is_observed()=%s' %
                  n.is_observed(), **cc)
        rec.check(n.dist is n.distribution and type(n.dist).__name__ == nd.spec.name, 'dist', 'node reports '
                  'distribution %s' % type(n.dist).__name__, **cc)
        if r == 'stochastic':
            rec.check(n.dist is given[nd.name], 'dist', 'node reports another distribution object', **cc)
        rec.check(n.dtype == n.dist.dtype == n.tensor.dtype, 'dtype', 'dtype %s / %s / %s' % (
            n.dtype, n.dist.dtype, n.tensor.dtype), **cc)
        rec.check(n.shape.as_list() == n.get_shape().as_list() == n.tensor.shape.as_list()
                  if n.shape.ndims is not None else n.get_shape().ndims is None, 'shape', 'shape %s vs %s' % (
                      n.shape, n.get_shape()), **cc)
        x = tf.constant(nd.value(rng))
        fetch[nd.name] = {'t': n.tensor, 'n': n, 'i': tf.identity(n), 'o': bn.outputs(nd.name), 'x': x,
                          'lp': n.log_prob(x), 'dlp': n.dist.log_prob(x), 'p': n.prob(x), 'dp': n.dist.prob(x),
                          'cl': n.cond_log_p, 'cl2': bn.cond_log_prob(nd.name), 'cl3': bn.local_log_prob([nd.name])[0],
                          'at': n.dist.log_prob(n.tensor), 'q': bn.query(nd.name, outputs=True, local_log_prob=True),
                          's': n.sample(5), 'ds': n.dist.sample(5)}
        rec.event('node')
    order = [names[i] for i in rng.permutation(len(names))]
    rec.check(all(a is bn.nodes[k] for a, k in zip(bn.get(order), order)) and
              all(a is bn.nodes[k] for a, k in zip(bn.get(tuple(order)), order)), 'lookup',
              'get() of several names is not in the order asked for', asked=order, **c)
    many = bn.query(order, outputs=True, local_log_prob=True)
    cond = bn.cond_log_prob(order)
    for k, (v, ret, par) in det.items():
        rec.check(bn[k] is ret and bn.get(k) is ret and bn.nodes[k] is ret, 'deterministic', 'lookups of a '
                  'deterministic node differ from what was returned', node=k, **c)
        fetch2[k] = (v, ret, bn.outputs(k), bn.nodes[par].tensor)
        rec.event('deterministic')
    with session(1, 1) as sess:
        o, o2, om, oc = sess.run([fetch, fetch2, many, cond])
    eq = lambda a, b: np.array_equal(a, b, equal_nan=True)
    for nd in net:
        r, cc = o[nd.name], dict(c, node=nd.name)
        rec.check(eq(r['t'], r['n']) and eq(r['t'], r['i']) and eq(r['t'], r['o']) and eq(r['t'], r['q'][0]), 'value',
                  'the ways of reading a node disagree', got={k: r[k] for k in 'tnio'}, **cc)
        st = bn.nodes[nd.name].shape
        rec.check(st.is_compatible_with(r['t'].shape), 'shape', 'reports shape %s, has %s' % (st, r['t'].shape), **cc)
        rec.check(eq(r['cl'], r['cl2']) and eq(r['cl'], r['cl3']) and eq(r['cl'], r['q'][1]) and
                  close(r['cl'], r['at'], 1e-12), 'cond_log_p', 'the ways of reading a conditional log density disagree',
                  got={k: r[k] for k in ('cl', 'cl2', 'cl3', 'at')}, **cc)
        rec.check(close(r['lp'], r['dlp'], 1e-12) and close(r['p'], r['dp'], 1e-12), 'delegated',
                  'density of the node is not that of its distribution', got=r['lp'], want=r['dlp'], **cc)
        rec.check(r['s'].shape == r['ds'].shape and r['s'].dtype == r['ds'].dtype, 'delegated',
                  'sample() of the node has shape %s, its distribution %s' % (r['s'].shape, r['ds'].shape), **cc)
        if nd.name in obs:
            rec.check(eq(r['t'], obs[nd.name]), 'observed', 'an observed node does not carry the observation', **cc)
        rec.event('delegated')
        rec.case(('node', nd.kind, nd.group, nd.name in obs, lead, len(nd.parents)), sample=cc)
    for k, a, b in zip(order, om, oc):
        rec.check(eq(a[0], o[k]['t']) and eq(a[1], o[k]['cl']) and eq(b, o[k]['cl']), 'lookup',
                  'query() or cond_log_prob() of several names is not in the order asked for', asked=order, node=k, **c)
    for k, v in o2.items():
        rec.check(eq(v[0], v[1]) and eq(v[0], v[2]) and eq(v[0], 2. * v[3]), 'deterministic',
                  'a deterministic node does not carry its tensor', node=k, **c)


# -- objectives ---------------------------------------------------------------
def do_objectives(zs, rng, prm, rec):
    V = zs.variational
    K = int(rng.randint(2, 5))
    m = VModel(rng, int(rng.randint(1, 4)), int(rng.randint(1, 3)), int(rng.randint(2)), K, aux=bool(rng.randint(2)))
    tv = m.variables()
    q = m.variational(zs, tv)
    fn = rng.rand() < .3
    model = m.tf_log_joint(zs, tv) if fn else m.meta(zs, tv)
    which = ('elbo', 'importance_weighted_objective', 'klpq')[rng.randint(3)]
    obs = m.observed()
    pairs = rng.rand() < .4
    if pairs:
        lat = dict(zip(m.latent, q.query(m.latent, outputs=True, local_log_prob=True)))
        e = getattr(V, which)(model, obs, latent=lat, axis=0)
    else:
        e = getattr(V, which)(model, obs, variational=q, axis=0)
    c = {'objective': which, 'function': fn, 'pairs': pairs, 'K': K}
    if rng.randint(2):
        # what the caller does with the dictionary afterwards is of no concern
        for k in list(obs):
            obs[k] = tf.zeros([1], tf.float64)
        rec.event('dictionary changed')
    rec.check(e.meta_bn is (None if fn else model), 'meta_bn', 'reports another model', **c)
    rec.check(e.variational is (None if pairs else q), 'variational', 'reports another variational net', **c)
    rec.event('objective')
    fetch = {'z': {n: q[n] for n in m.latent}}
    if fn:
        rec.check(e.bn is None, 'bn', 'reports a net for a model given as a function', **c)
    else:
        bn = e.bn
        rec.check(bn is e.bn and isinstance(bn, zs.BayesianNet) and bn is not q, 'bn', 'reports another net on each '
                  'access', **c)
        rec.check(all(bn[n.name].is_observed() for n in m.p), 'bn-observed', 'not all nodes of its net are observed', **c)
        rec.check(sorted(bn.nodes) == sorted(n.name for n in m.p), 'bn-nodes', 'its net has other nodes', **c)
        fetch['bn'] = {n.name: bn[n.name] for n in m.p}
        fetch['lj'] = bn.log_joint()
        rec.event('objective net')
    if which != 'klpq':
        fetch['e'], fetch['t'], fetch['c'] = e, e.tensor, tf.identity(e)
    with session() as sess:
        sess.run(tf.global_variables_initializer())
        o = sess.run(fetch)
    if which != 'klpq':
        rec.check(np.array_equal(o['e'], o['t']) and np.array_equal(o['e'], o['c']), 'tensor',
                  'the ways of reading an objective disagree', **c)
        z = o['z']
        lw = m.log_joint(z) - m.log_q(z)
        mx = lw.max(0)
        want = lw.mean(0) if which == 'elbo' else mx + np.log(np.mean(np.exp(lw - mx), 0))
        rec.check(close(o['e'], want, 1e-8), 'objective', 'the value is not that of the model and the variational net it '
                  'reports', got=o['e'], want=want, **c)
    if 'bn' in o:
        for n in m.p:
            t = o['z'][n.name] if n.name in o['z'] else m.obs[n.name]
            rec.check(np.array_equal(o['bn'][n.name], t), 'bn-values', 'its net does not carry the samples and '
                      'observations', node=n.name, **c)
        rec.check(close(o['lj'], m.log_joint(o['z']), 1e-8), 'bn-joint', 'the log joint of its net is not the model\'s',
                  **c)
    rec.case((which, fn, pairs, K, len(m.p), len(m.q)), sample=c)
