"""C07: log joint and node bookkeeping over construction histories."""
import numpy as np
import tensorflow as tf
from zsmon import models as md
from zsmon.core import subseed
from zsmon.tfu import session

RULE = ('Each evaluation is one answer of a net (log_joint, cond_log_prob, get, indexing, outputs, '
        'local_log_prob, query, or the refusal of an invalid request) at one point of a random '
        'construction history over one to three interleaved nets, compared with a NumPy shadow '
        'net that recomputes every conditional density from the node values of the same session '
        'run. Distinct: (history seed, step, request).')
ASSUMPTIONS = ['nodes are float64 with batch shape [4]; the correctness of single densities is '
               'C01\'s subject', 'a custom log_joint is set before the first log_joint() call']
REQUIRED = {'log_joint': 200, 'rejected duplicate': 100, 'cond_log_prob': 200, 'query': 100,
            'custom log_joint': 5, 'legacy nodes': 50, 'rejected bad observation': 10}


def items(tier, seed):
    n, reps = (64, 3) if tier == 'quick' else (300, 8)
    return [('history', {'seed': subseed('c07', seed, i), 'reps': reps}) for i in range(n)] + \
        [('custom', {'seed': subseed('c07c', seed, i)}) for i in range(8 if tier == 'quick' else 40)]


class Shadow(object):
    """One real net and what it must contain."""

    def __init__(self, zs, rng, idx, obs_names):
        self.rng, self.idx = rng, idx
        self.group = int(rng.randint(2))
        self.lead = (None, None, 3)[rng.randint(3)]
        self.defs, self.det, self.handles, self.order = {}, {}, {}, []
        self.obs = {}
        self.obs_np = {}
        self.kinds = {}
        for n in obs_names:
            k = md.KINDS[rng.randint(len(md.KINDS))]
            self.kinds[n] = k
            d = md.NodeDef(rng, n, [], self.group, k)
            v = d.observation(rng, () if self.lead is None or rng.randint(2) else (self.lead,))
            self.obs_np[n] = np.asarray(v)
            form = rng.randint(3)
            self.obs[n] = v if form == 0 else tf.constant(v, tf.float64) if form == 1 else \
                tf.placeholder_with_default(tf.constant(v, tf.float64), None)
        self.bad = 'bad%d' % idx
        self.obs[self.bad] = np.ones((7,))
        how = rng.randint(3)
        if how == 0 or not obs_names:
            self.bn = zs.BayesianNet(observed=dict(self.obs))
            self.route = 'observed='
        else:
            meta = zs.MetaBayesianNet(lambda: zs.BayesianNet())
            self.bn = meta.observe(**self.obs)
            self.route = 'observe()'
        self.routes = ('shortcut', 'stochastic', 'legacy') if self.route == 'observed=' else \
            ('shortcut', 'stochastic')
        # deprecated: only nodes built through the net see observed=
        self.pending = list(obs_names) + ['s%d' % i for i in range(6)]
        self.rng.shuffle(self.pending)

    def vals(self):
        v = {n: h for n, h in self.handles.items() if n in self.defs}
        v.update(self.det)
        return {n: tf.convert_to_tensor(h) for n, h in v.items()}


def attempt(f):
    try:
        return f(), None
    except Exception as e:
        return None, e


def run(name, prm, rec):
    if name == 'custom':
        return custom(prm, rec)
    for r in range(prm['reps']):
        history(subseed(prm['seed'], r), rec)


def history(seed, rec):
    import zhusuan as zs
    tf.reset_default_graph()
    rng = np.random.RandomState(seed)
    nets = []
    for i in range(rng.randint(1, 4)):
        nets.append(Shadow(zs, rng, i, ['o%d' % k for k in range(rng.randint(0, 4))]))
    probes = []      # (kind, net, payload tensor(s), expected fn(values), ctx)
    trace = []
    for step in range(rng.randint(12, 30)):
        s = nets[rng.randint(len(nets))]
        op = rng.choice(['add', 'add', 'add', 'det', 'dup', 'joint', 'joint', 'ask', 'bad', 'invalid'])
        ctx = {'seed': seed, 'step': step, 'net': s.idx, 'op': op, 'built by': s.route}
        trace.append(op)
        if op == 'add' and s.pending:
            n = s.pending.pop()
            par = [str(p) for p in rng.permutation(s.order)[:rng.randint(0, 4)]]
            d = md.NodeDef(rng, n, par, s.group, s.kinds.get(n), None)
            lead_ok = s.lead is not None and not par and n not in s.obs
            ns = s.lead if lead_ok and rng.randint(2) else None
            route = s.routes[rng.randint(len(s.routes))]
            h = d.add(zs, s.bn, {k: v for k, v in s.vals().items() if k in par}, route, n_samples=ns)
            if route == 'legacy':
                rec.event('legacy nodes')
            s.defs[n], s.handles[n] = d, h
            s.order.append(n)
            rec.check(h.name == n and h.bn is s.bn and h.is_observed() == (n in s.obs_np) and
                      h.dist.group_ndims == s.group, 'node-attributes',
                      'new node has wrong name, net, observed flag or group_ndims', node=n, route=route, **ctx)
        elif op == 'det' and len(s.order) < 12:
            n = 'd%d' % len(s.det)
            if n in s.bn.nodes:
                continue
            par = [str(p) for p in rng.permutation(s.order)[:2]]
            v = s.vals()
            t = tf.constant(rng.normal(0, 1, md.B)) + sum([tf.sin(v[p]) for p in par], 0.)
            h = s.bn.deterministic(n, t)
            rec.check(h is t, 'deterministic-return', 'deterministic() does not return its input', **ctx)
            s.det[n] = h
            s.handles[n] = h
            s.order.append(n)
        elif op == 'dup' and s.order:
            n = s.order[rng.randint(len(s.order))]
            before = dict(s.bn.nodes)
            d = md.NodeDef(rng, n, [], s.group)
            how = s.routes[rng.randint(len(s.routes))] if rng.rand() < .7 else 'det'
            f = (lambda: s.bn.deterministic(n, tf.zeros([4], tf.float64))) if how == 'det' else \
                (lambda: d.add(zs, s.bn, {}, how))
            _, e = attempt(f)
            rec.check(e is not None, 'duplicate-accepted', 'second node under an existing name accepted',
                      name=n, how=how, **ctx)
            after = dict(s.bn.nodes)
            rec.check(set(before) == set(after) and all(before[k] is after[k] for k in before),
                      'duplicate-changed-net', 'a refused node changed the net', name=n, how=how, **ctx)
            rec.event('rejected duplicate')
            rec.case((seed, step, 'dup'))
        elif op == 'bad' and s.bad not in s.bn.nodes:
            before = dict(s.bn.nodes)
            d = md.NodeDef(rng, s.bad, [], s.group, 'normal')
            route = s.routes[rng.randint(len(s.routes))]
            _, e = attempt(lambda: d.add(zs, s.bn, {}, route))
            rec.check(e is not None, 'bad-observation-accepted', 'observation of wrong shape accepted', **ctx)
            rec.check(dict(s.bn.nodes) == before, 'bad-observation-changed-net',
                      'a refused node changed the net', route=route, **ctx)
            rec.event('rejected bad observation')
            rec.case((seed, step, 'bad'))
        elif op == 'joint':
            lj = s.bn.log_joint()
            defs = list(s.defs.values())
            probes.append(('log_joint', s, lj, defs, ctx))
        elif op == 'ask' and s.order:
            ask(rng, s, rec, probes, ctx)
        elif op == 'invalid':
            invalid(rng, s, rec, ctx)
    for s in nets:
        probes.append(('log_joint', s, s.bn.log_joint(), list(s.defs.values()), {'seed': seed, 'step': 'end'}))
        rec.check(sorted(s.bn.nodes) == sorted(s.order) and all(s.bn.nodes[k] is s.handles[k] for k in s.order),
                  'nodes', 'net.nodes is not exactly the nodes added', got=list(s.bn.nodes), want=s.order,
                  seed=seed)
    fetch = {'v%d' % s.idx: {n: tf.convert_to_tensor(h) for n, h in s.handles.items()} for s in nets if s.handles}
    fetch['p'] = [tf.convert_to_tensor(p[2], dtype=tf.float64) for p in probes]
    with session() as sess:
        for rep in range(2):
            out = sess.run(fetch, {})
            for (kind, s, t, defs, ctx), got in zip(probes, out['p']):
                vals = out.get('v%d' % s.idx, {})
                for n, v in s.obs_np.items():
                    if n in vals and rep == 0:
                        rec.check(np.array_equal(vals[n], v), 'observed-value',
                                  'observed node does not have the observed value', node=n, **ctx)
                if kind == 'value':
                    want = vals[defs]
                else:
                    want = 0.
                    for d in defs:
                        want = want + d.logp(vals)
                rec.event(kind)
                rec.case((seed, ctx['step'], kind, rep), nontrivial=kind != 'log_joint' or bool(defs),
                         sample={'history': trace, 'nets': len(nets)})
                rec.check(md.close(got, want), kind, '%s differs from the shadow net' % kind, got=got, want=want,
                          nodes=[d.name for d in defs] if kind != 'value' else defs, history=trace, **ctx)


def ask(rng, s, rec, probes, ctx):
    """get, indexing, cond_log_prob, outputs, local_log_prob, query."""
    k = rng.randint(1, 4)
    names = [str(n) for n in rng.choice(s.order, k)]
    st = [str(n) for n in rng.choice(sorted(s.defs), k)] if s.defs else []
    form = rng.randint(3)
    wrap = (lambda x: x, tuple, lambda x: iter(list(x)))[form]
    same = lambda a, b: len(a) == len(b) and all(x is y for x, y in zip(a, b))
    got = s.bn.get(wrap(names))
    rec.check(isinstance(got, list) and same(got, [s.handles[n] for n in names]), 'get',
              'get(list) returned the wrong nodes', names=names, **ctx)
    rec.check(s.bn.get(names[0]) is s.handles[names[0]] and s.bn[names[0]] is s.handles[names[0]],
              'get', 'get(name) returned the wrong node', names=names[:1], **ctx)
    outs = s.bn.outputs(wrap(names))
    for n, t in zip(names, outs):
        probes.append(('value', s, t, n, dict(ctx, ask='outputs')))
    probes.append(('value', s, s.bn.outputs(names[0]), names[0], dict(ctx, ask='outputs')))
    rec.check(len(outs) == len(names), 'outputs', 'outputs() has wrong length', names=names, **ctx)
    if st:
        for f, what in ((s.bn.cond_log_prob, 'cond_log_prob'), (s.bn.local_log_prob, 'local_log_prob')):
            r = f(wrap(st))
            rec.check(len(r) == len(st), what, '%s has wrong length' % what, names=st, **ctx)
            for n, t in zip(st, r):
                probes.append(('cond_log_prob', s, t, [s.defs[n]], dict(ctx, ask=what)))
            probes.append(('cond_log_prob', s, f(st[0]), [s.defs[st[0]]], dict(ctx, ask=what)))
        q = s.bn.query(wrap(st), outputs=True, local_log_prob=True)
        rec.check(len(q) == len(st), 'query', 'query() has wrong length', names=st, **ctx)
        rec.event('query')
        for n, pair in zip(st, q):
            probes.append(('value', s, pair[0], n, dict(ctx, ask='query')))
            probes.append(('cond_log_prob', s, pair[1], [s.defs[n]], dict(ctx, ask='query')))
        a, b = s.bn.query(st[0], outputs=True, local_log_prob=True)
        probes.append(('value', s, a, st[0], dict(ctx, ask='query')))
        probes.append(('cond_log_prob', s, b, [s.defs[st[0]]], dict(ctx, ask='query')))
        c, = s.bn.query(st[0], local_log_prob=True)
        probes.append(('cond_log_prob', s, c, [s.defs[st[0]]], dict(ctx, ask='query')))
        d, = s.bn.query(names[0], outputs=True)
        probes.append(('value', s, d, names[0], dict(ctx, ask='query')))


def invalid(rng, s, rec, ctx):
    missing = 'no such node'
    bads = [lambda: s.bn.get(missing), lambda: s.bn[missing], lambda: s.bn.cond_log_prob(missing),
            lambda: s.bn.get(s.order[:1] + [missing]), lambda: s.bn.outputs(missing),
            lambda: s.bn.get([3]), lambda: s.bn.__setitem__('x', tf.zeros([]))]
    if s.order:
        bads.append(lambda: s.bn.query(s.order[0]))
    if s.det:
        n = sorted(s.det)[0]
        bads += [lambda: s.bn.cond_log_prob(n), lambda: s.bn.local_log_prob([n]),
                 lambda: s.bn.query(n, local_log_prob=True)]
    before = dict(s.bn.nodes)
    for i, f in enumerate(bads):
        _, e = attempt(f)
        rec.check(e is not None, 'invalid-request', 'invalid request %d answered' % i, **ctx)
        rec.event('rejected request')
        rec.case((ctx['seed'], ctx['step'], 'invalid', i))
    rec.check(dict(s.bn.nodes) == before, 'invalid-request-changed-net', 'nodes changed', **ctx)


def custom(prm, rec):
    """A user-set log_joint replaces the default and sees the right net."""
    import zhusuan as zs
    rng = np.random.RandomState(prm['seed'])
    tf.reset_default_graph()
    defs = md.random_net(rng, 4, group=0)
    calls = []

    @zs.meta_bayesian_net()
    def build():
        bn = zs.BayesianNet()
        for d in defs:
            d.add(zs, bn, {p: tf.convert_to_tensor(bn[p]) for p in d.parents})
        return bn

    m, other = build(), build()
    scale = float(rng.normal())

    def lj(bn):
        calls.append(bn)
        return scale * bn.cond_log_prob('n1') + tf.square(bn['n2'])

    if rng.randint(2):
        m.log_joint = lj
        bn = m.observe(n3=defs[3].value(rng))
    else:
        bn = m.observe(n3=defs[3].value(rng))
        m.log_joint = lj
    bn2 = other.observe()
    t, t2 = bn.log_joint(), bn2.log_joint()
    rec.check(bool(calls) and all(c is bn for c in calls), 'custom-net',
              'custom log_joint was not called with the net it belongs to')
    vals = {d.name: tf.convert_to_tensor(bn[d.name]) for d in defs}
    vals2 = {d.name: tf.convert_to_tensor(bn2[d.name]) for d in defs}
    with session() as sess:
        g, g2, v, v2 = sess.run([t, t2, vals, vals2])
    want = scale * defs[1].logp(v) + v['n2'] ** 2
    rec.check(md.close(g, want), 'custom-value', 'log_joint() is not the user-set one', got=g, want=want)
    rec.check(md.close(g2, sum(d.logp(v2) for d in defs)), 'custom-leak',
              'a log_joint set on one model affects another')
    bad = build()
    bad.log_joint = 3.
    _, e = attempt(lambda: bad.observe().log_joint())
    rec.check(e is not None, 'custom-noncallable', 'a non-callable log_joint was accepted')
    rec.event('custom log_joint')
    rec.case(('custom', prm['seed']))
    rec.evaluations += 2
