"""C08: isolation of observe() under nesting, failures, repetition and threads."""
import random
import sys
import threading
import time
import numpy as np
import tensorflow as tf
from zsmon import models as md
from zsmon.core import subseed
from zsmon.tfu import session

RULE = ('Each evaluation is one net returned by observe() (or one legacy net context) in a random '
        'program that nests observes of other models with the same node names, lets model '
        'functions fail half way, repeats observes and runs several threads with injected '
        'pauses; each node is judged: observed exactly if named in this observe, value equal to '
        'the given one, conditional density as recomputed from this net\'s own values. Distinct: '
        '(program seed, net index, thread).')
ASSUMPTIONS = ['threads build separate graphs (TensorFlow graph construction is not thread-safe '
               'within a graph)', 'interleavings are sampled by pauses and a 10 us switch interval']
REQUIRED = {'nets judged': 500, 'late nodes': 100, 'nested observes': 150, 'failed observes': 80, 'thread nets': 200,
            'overlapping threads': 20, 'variable sharing': 20, 'argument checks': 20}


def items(tier, seed):
    q = tier == 'quick'
    out = [('nest', {'seed': subseed('c08', seed, i), 'reps': 4}) for i in range(16 if q else 200)]
    out += [('threads', {'seed': subseed('c08t', seed, i), 'reps': 2 if q else 8}) for i in range(12 if q else 60)]
    out += [('variables', {'seed': subseed('c08v', seed, i)}) for i in range(8 if q else 60)]
    out += [('legacy', {'seed': subseed('c08l', seed, i)}) for i in range(8 if q else 60)]
    return out


class Boom(Exception):
    pass


class Program(object):
    """A pool of models over the same node names whose functions perform
    nested observes, failures and pauses between their nodes."""

    def __init__(self, zs, rng, n_models=3, pause=0.):
        self.zs, self.pause = zs, pause
        self.py = random.Random(int(rng.randint(1 << 30)))
        self.rng = rng
        self.nets = []
        self.log = []
        self.pending = []
        self.nested = self.failed = self.late = 0
        self.defs = [md.random_net(rng, 4) for _ in range(n_models)]
        self.plan = []
        for m in range(n_models):
            plan = {}
            for pos in range(6):
                r = rng.rand()
                if r < .16:
                    plan[pos] = 'observe'
                elif r < .24:
                    plan[pos] = 'observe-fail'
                elif r < .3:
                    plan[pos] = 'plain'
            self.plan.append(plan)
        self.metas = [self.make(m) for m in range(n_models)]
        self.fail_at = None
        self.depth = 0

    def make(self, m):
        prog = self

        @self.zs.meta_bayesian_net()
        def build(tag, scale=1.):
            assert tag == 'model%d' % m and scale == 2.
            fail = prog.fail_at
            prog.fail_at = None
            prog.action(m, 0)
            bn = prog.zs.BayesianNet()
            defs = prog.defs[m]
            # some models leave their last nodes to be added to the returned net
            k = prog.py.randrange(len(defs)) if fail is None and prog.py.random() < .3 else len(defs)
            for i, d in enumerate(defs[:k]):
                if fail == i:
                    raise Boom()
                d.add(prog.zs, bn, {p: tf.convert_to_tensor(bn[p]) for p in d.parents},
                      ('shortcut', 'stochastic')[i % 2])
                prog.action(m, i + 1)
            if k < len(defs):
                prog.pending.append((bn, list(defs[k:])))
            return bn

        return build('model%d' % m, scale=2.)

    def add_late(self, every=False):
        """Add missing nodes to nets that observe() returned earlier."""
        for bn, rest in self.pending:
            while rest and (every or self.py.random() < .3):
                d = rest.pop(0)
                d.add(self.zs, bn, {p: tf.convert_to_tensor(bn[p]) for p in d.parents})
                self.late += 1
                self.log.append(('late', d.name))

    def action(self, m, pos):
        self.add_late()
        if self.pause:
            time.sleep(self.py.random() * self.pause)
        what = self.plan[m].get(pos)
        if what is None or self.depth >= 3:
            return
        self.depth += 1
        try:
            other = self.py.randrange(len(self.metas))
            if what == 'observe':
                self.nested += 1
                self.observe(other)
            elif what == 'observe-fail':
                self.observe(other, fail=self.py.randrange(4))
            else:
                # a net built by hand inside a model function still belongs to
                # that model's observe: only exercise it, with the same names;
                # the net that is returned must be conditioned all the same
                bn = self.zs.BayesianNet()
                defs = self.defs[m]
                for d in defs[:self.py.randrange(len(defs) + 1)]:
                    d.add(self.zs, bn, {p: tf.convert_to_tensor(bn[p]) for p in d.parents})
        finally:
            self.depth -= 1

    def observe(self, m, fail=None):
        names = [d.name for d in self.defs[m]]
        obs = {}
        for d in self.defs[m]:
            if self.py.random() < .5:
                obs[d.name] = d.observation(self.rng)
        if self.py.random() < .2:
            obs['unrelated'] = np.zeros(3)
        given = dict(obs)
        self.fail_at = fail
        try:
            bn = self.metas[m].observe(**obs)
        except Boom:
            self.failed += 1
            self.log.append(('failed', m))
            return None
        self.fail_at = None
        self.nets.append((bn, self.defs[m], given))
        self.log.append(('observe', m, sorted(given), self.depth))
        return bn


def judge(prog, rec, ctx, n_event='nets judged'):
    """All nets a program returned, in one session run."""
    fetch = []
    if hasattr(prog, 'add_late'):
        prog.add_late(every=True)
        rec.event('late nodes', prog.late)
    for bn, defs, obs in prog.nets:
        fetch.append({'v': {d.name: tf.convert_to_tensor(bn[d.name]) for d in defs},
                      'lp': {d.name: bn.cond_log_prob(d.name) for d in defs},
                      'lj': bn.log_joint()})
    with session() as sess:
        out = sess.run(fetch)
    for k, ((bn, defs, obs), o) in enumerate(zip(prog.nets, out)):
        c = dict(ctx, net=k, observed=sorted(obs), log=prog.log[:30])
        rec.check(set(bn.nodes) == set(d.name for d in defs), 'foreign-nodes',
                  'net contains other nodes than its model defines', got=sorted(bn.nodes), **c)
        for d in defs:
            want = d.name in obs
            rec.check(bn[d.name].is_observed() == want, 'observed-flag',
                      'node %s is %sobserved' % (d.name, '' if not want else 'not '), **c)
            if want:
                rec.check(np.array_equal(o['v'][d.name], obs[d.name]), 'observed-value',
                          'node %s does not carry the value of its observe' % d.name, **c)
            rec.check(md.close(o['lp'][d.name], d.logp(o['v'])), 'dependants',
                      'node %s was not built from this net\'s own values' % d.name, **c)
        rec.check(md.close(o['lj'], sum(d.logp(o['v']) for d in defs)), 'log_joint',
                  'log joint of the net is wrong', **c)
        rec.event(n_event)
        rec.event('nets judged', 0 if n_event == 'nets judged' else 1)
        rec.case((ctx, k), sample={'log': prog.log[:20]})


def run(name, prm, rec):
    globals()[name](prm, rec)


def after(zs, rec, ctx):
    """Outside every observe nothing may be left over."""
    bn = zs.BayesianNet()
    x = bn.normal('n0', np.zeros(4), std=np.ones(4))
    rec.check(not x.is_observed(), 'leftover', 'an observation leaked out of observe()', **ctx)
    y = zs.Normal('n1', np.zeros(4), std=np.ones(4))
    rec.check(y.bn is None and not y.is_observed(), 'leftover-context',
              'a node created outside every net context attached to a net', **ctx)


def nest(prm, rec):
    import zhusuan as zs
    for r in range(prm['reps']):
        tf.reset_default_graph()
        rng = np.random.RandomState(subseed(prm['seed'], r))
        prog = Program(zs, rng)
        ctx = {'seed': prm['seed'], 'rep': r}
        early = None
        for i in range(5):
            m = rng.randint(3)
            fail = int(rng.randint(4)) if rng.rand() < .25 else None
            bn = prog.observe(m, fail)
            if early is None and bn is not None and not any(b is bn and rest for b, rest in prog.pending):
                early = (bn, dict(bn.nodes), bn.log_joint())
            after(zs, rec, ctx)
        if early:
            bn, nodes, lj = early
            rec.check(dict(bn.nodes) == nodes and bn.log_joint() is lj, 'earlier-net',
                      'a later observe altered an earlier net', **ctx)
        nets = [bn for bn, _, _ in prog.nets]
        rec.check(len(set(map(id, nets))) == len(nets), 'fresh', 'observe returned the same net twice', **ctx)
        rec.event('nested observes', prog.nested)
        rec.event('failed observes', prog.failed)
        if prog.nets:
            judge(prog, rec, ctx)


def threads(prm, rec):
    """Several threads observe the same and different models at once."""
    import zhusuan as zs
    old = sys.getswitchinterval()
    sys.setswitchinterval(1e-5)
    try:
        for r in range(prm['reps']):
            rng = np.random.RandomState(subseed(prm['seed'], r))
            n = int(rng.randint(2, 6))
            spans, errors, results = [], [], [None] * n
            barrier = threading.Barrier(n)
            shared_defs = md.random_net(rng, 4)

            # one model object observed by every thread
            @zs.meta_bayesian_net()
            def shared():
                bn = zs.BayesianNet()
                for d in shared_defs:
                    time.sleep(random.random() * 1e-3)
                    d.add(zs, bn, {p: tf.convert_to_tensor(bn[p]) for p in d.parents})
                return bn

            meta = shared()

            def work(i):
                try:
                    trng = np.random.RandomState(subseed(prm['seed'], r, i))
                    with tf.Graph().as_default():
                        prog = Program(zs, trng, pause=1e-3)
                        barrier.wait()
                        t0 = time.time()
                        for _ in range(2):
                            prog.observe(int(trng.randint(3)))
                            obs = {d.name: d.observation(trng) for d in shared_defs if trng.rand() < .5}
                            prog.nets.append((meta.observe(**obs), shared_defs, obs))
                            prog.log.append(('shared', sorted(obs)))
                        with zs.BayesianNet(observed={'n1': np.full(4, float(i))}) as lbn:
                            time.sleep(random.random() * 1e-3)
                            a = zs.Normal('n0', np.zeros(4), std=np.ones(4))
                            time.sleep(random.random() * 1e-3)
                            b = zs.Normal('n1', tf.convert_to_tensor(a), std=np.ones(4))
                        spans.append((t0, time.time()))
                        with session() as sess:
                            bv = sess.run(b)
                        results[i] = (prog, tf.get_default_graph(), sorted(lbn.nodes), a.is_observed(),
                                      bv, b.bn is lbn and a.bn is lbn)
                except BaseException as e:
                    errors.append((i, e))
                    barrier.abort()

            ts = [threading.Thread(target=work, args=(i,)) for i in range(n)]
            [t.start() for t in ts]
            [t.join() for t in ts]
            real = [e for _, e in errors if not isinstance(e, threading.BrokenBarrierError)]
            if real:
                raise real[0]
            spans.sort()
            rec.event('overlapping threads', sum(a[1] > b[0] for a, b in zip(spans, spans[1:])))
            for i, res in enumerate(results):
                ctx = {'seed': prm['seed'], 'rep': r, 'thread': i, 'threads': n}
                prog, g, names, aobs, bv, own = res
                rec.check(names == ['n0', 'n1'] and not aobs and own, 'legacy-thread',
                          'a legacy node attached to another thread\'s net', got=names, **ctx)
                rec.check(np.array_equal(bv, np.full(4, float(i))), 'legacy-thread-value',
                          'a legacy node took another thread\'s observation', got=bv, **ctx)
                with g.as_default():
                    rec.event('nested observes', prog.nested)
                    judge(prog, rec, ctx, 'thread nets')
    finally:
        sys.setswitchinterval(old)


def variables(prm, rec):
    import zhusuan as zs
    rng = np.random.RandomState(prm['seed'])
    ctx = {'seed': prm['seed']}
    # shared
    tf.reset_default_graph()
    k = int(rng.randint(2, 5))

    @zs.meta_bayesian_net(scope='net', reuse_variables=True)
    def build(width, data, extra=None):
        bn = zs.BayesianNet()
        w = tf.get_variable('w', [width], tf.float64, tf.random_normal_initializer())
        v = tf.get_variable('v', [width], tf.float64, tf.random_normal_initializer())
        bn.deterministic('wv', w * 1.)
        z = bn.normal('z', tf.zeros([width], tf.float64), std=np.ones(width))
        bn.normal('x', z * w + v, std=np.ones(width))
        return bn

    data, extra = [1, 2, 3], {'a': 1}
    m = build(3, data, extra=extra)
    outer = [None, 'outer'][rng.randint(2)]
    nets = [m.observe(**({'z': np.full(3, float(i))} if i % 2 else {})) for i in range(k)]
    allv = tf.global_variables()
    rec.check(len(allv) == 2 and len(set(v.name for v in allv)) == 2, 'variables-shared',
              'reuse_variables=True: %d variables after %d observes' % (len(allv), k), **ctx)
    with session() as sess:
        sess.run(tf.global_variables_initializer())
        ws = sess.run([bn['wv'] for bn in nets])
    rec.check(all(np.array_equal(ws[0], w) for w in ws), 'variables-shared',
              'reuse_variables=True: nets use different variables', **ctx)
    rec.event('variable sharing')
    rec.case(('shared', prm['seed'], k))
    # another model object of the same function has its own variables
    m2 = build(3, data, extra=extra)
    m2.observe()
    rec.check(len(tf.global_variables()) == 4, 'variables-models',
              'two models share variables', n=len(tf.global_variables()), **ctx)
    rec.check(data == [1, 2, 3] and extra == {'a': 1}, 'arguments', 'model arguments altered', **ctx)
    # unshared: with scope and without
    for scope in (None, 'plain'):
        tf.reset_default_graph()

        @zs.meta_bayesian_net(scope=scope)
        def build2():
            bn = zs.BayesianNet()
            w = tf.Variable(np.random.normal(size=3))
            bn.deterministic('wv', w * 1.)
            return bn

        m = build2()
        for i in range(k):
            m.observe()
        rec.check(len(tf.global_variables()) == k, 'variables-unshared',
                  'without reuse_variables %d observes made %d variables' % (k, len(tf.global_variables())),
                  scope=scope, **ctx)
        rec.check(scope is None or all(v.name.startswith(scope) for v in tf.global_variables()), 'scope',
                  'variables outside the requested scope', names=[v.name for v in tf.global_variables()], **ctx)
        rec.event('variable sharing')
        rec.case(('unshared', prm['seed'], k, scope))
    tf.reset_default_graph()

    @zs.meta_bayesian_net(scope='s')
    def build3():
        bn = zs.BayesianNet()
        bn.deterministic('wv', tf.get_variable('w', [2], tf.float64) * 1.)
        return bn

    m = build3()
    m.observe()
    try:
        m.observe()
        shared = len(tf.global_variables()) == 1
    except ValueError:
        shared = False
    rec.check(not shared, 'variables-unshared', 'get_variable shared without reuse_variables', **ctx)
    try:
        zs.MetaBayesianNet(build3, reuse_variables=True)
        rec.violation('reuse-without-scope', 'reuse_variables without scope accepted', **ctx)
    except ValueError:
        pass
    # arguments are not altered, and later changes by the caller do not reach the model
    seen = []

    def f(*a, **k):
        seen.append((tuple(a), dict(k)))
        k['new'] = 1
        return zs.BayesianNet()

    args, kwargs = [1, 'two'], {'three': 3.}
    m = zs.MetaBayesianNet(f, args=args, kwargs=kwargs)
    for _ in range(3):
        m.observe(three_obs=np.zeros(2))
    rec.check(seen == [((1, 'two'), {'three': 3.})] * 3 and args == [1, 'two'] and kwargs == {'three': 3.},
              'arguments', 'observe() changed the model\'s arguments', seen=seen, **ctx)
    del seen[:]
    zs.MetaBayesianNet(f).observe(a=1.)
    zs.MetaBayesianNet(f, args=(5,)).observe()
    zs.MetaBayesianNet(f, kwargs={'q': 6}).observe(z=np.ones(3))
    rec.check(seen == [((), {}), ((5,), {}), ((), {'q': 6})], 'arguments',
              'model function got wrong arguments', seen=seen, **ctx)
    rec.event('argument checks', 4)
    rec.case(('args', prm['seed']))


def legacy(prm, rec):
    """Net contexts (deprecated interface): nodes attach to the innermost net,
    also after a failure inside a context."""
    import zhusuan as zs
    for r in range(6):
        rng = np.random.RandomState(subseed(prm['seed'], r))
        tf.reset_default_graph()
        ctx = {'seed': prm['seed'], 'rep': r}
        made = []

        def level(depth):
            defs = md.random_net(rng, 4)
            obs = {d.name: d.observation(rng) for d in defs if rng.rand() < .5}
            bn = zs.BayesianNet(observed=obs)
            fail = int(rng.randint(5)) if rng.rand() < .3 else None
            with bn:
                for i, d in enumerate(defs):
                    if depth < 3 and rng.rand() < .3:
                        try:
                            level(depth + 1)
                        except Boom:
                            rec.event('failed observes')
                    if fail == i:
                        raise Boom()
                    args, kw = d.spec.bn_args(d.tf_params(
                        {p: tf.convert_to_tensor(bn[p]) for p in d.parents}), **d.kwargs())
                    getattr(zs, d.spec.name)(d.name, *args, **kw)
            made.append((bn, defs, obs))

        for _ in range(3):
            try:
                level(0)
            except Boom:
                rec.event('failed observes')
            after(zs, rec, ctx)
        p = type('P', (), {})()
        p.nets, p.log = made, ['legacy']
        if made:
            judge(p, rec, ctx)
