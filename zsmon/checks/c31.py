"""C31: building is separate from running, and nothing outlives its graph."""
import gc
import threading
import weakref
import numpy as np
import tensorflow as tf
from zsmon import progs
from zsmon.core import subseed
from zsmon.models import random_net
from zsmon.tfu import session
from zsmon.vmodels import VModel

RULE = ('Each evaluation is one program of the library built in a graph of its own, run several times with the number '
        'of operations of the graph watched (and with the graph finalized), then dropped: a weak reference tells '
        'whether the graph was freed. Programs are built several times over, so that only what accumulates counts. '
        'Nets, nodes and objectives are read again and again in one graph, which must not grow. Programs that fail '
        'while being built (a model that raises, invalid arguments, duplicate names) and programs built in other '
        'threads are dropped too. Distinct: (program, label, model seed).')
ASSUMPTIONS = ['CPython: unreachable objects are freed by gc.collect()']
REQUIRED = {'run': 400, 'freed': 500, 'finalized': 100, 'read again': 300, 'failed build': 60, 'thread': 20,
            'utilities': 30, 'net by hand': 20, 'net legacy': 20, 'net meta': 20, 'net own log joint': 15}


def items(tier, seed):
    n, reps = (5, 16) if tier == 'quick' else (20, 48)
    return [('programs', {'n': n, 'r': r, 'seed': subseed('c31', seed, r)}) for r in range(reps)] + \
        [(k, {'n': n, 'seed': subseed('c31', k, seed, r)}) for r in range(reps // 2)
         for k in ('reads', 'nets', 'failures', 'utilities')]


def run(name, prm, rec):
    import zhusuan as zs
    rng = np.random.RandomState(prm['seed'])
    for it in range(prm['n']):
        tf.reset_default_graph()
        globals()['do_' + name](zs, rng, it, prm, rec)


def dropped(make, rec, c, times=4):
    """Runs make(graph) in several graphs; they must not all stay alive."""
    refs = []
    for i in range(times):
        g = tf.Graph()
        refs.append(weakref.ref(g))
        make(g, i)
        del g
    gc.collect()
    gc.collect()
    alive = sum(r() is not None for r in refs)
    rec.check(alive <= 1, 'leak', '%d of %d graphs are still alive after the programs built in them were dropped' % (
        alive, times), **c)
    rec.event('freed', times - alive)


def do_programs(zs, rng, it, prm, rec):
    names = sorted(progs.PROGRAMS)
    name = names[(prm['r'] + it) % len(names)]
    ps = int(rng.randint(2 ** 31))
    c = {'program': name, 'model seed': ps}
    final = bool(rng.randint(2))
    inth = rng.rand() < .25

    def make(g, i):
        def work():
            with g.as_default():
                pr = progs.PROGRAMS[name](zs, np.random.RandomState(ps), lambda v: None)
                c['label'] = pr.label
                init = tf.global_variables_initializer()
                with session(1, 1, graph=g) as sess:
                    sess.run(init)
                    n0 = len(g.get_operations())
                    if final and i % 2:
                        g.finalize()
                        rec.event('finalized')
                    for t in range(2):
                        pr.step(sess, t)
                        n1 = len(g.get_operations())
                        rec.check(n1 == n0, 'grows', 'running a program added %d operations to its graph' % (n1 - n0),
                                  run=t, **c)
                        rec.event('run')
        if not inth:
            return work()
        err = []

        def guarded():
            try:
                work()
            except BaseException as e:
                err.append(e)
        th = threading.Thread(target=guarded)
        th.start()
        th.join()
        rec.event('thread')
        if err:
            raise err.pop()
    dropped(make, rec, c)
    rec.case((name, c.get('label'), ps, inth), sample=c)


def do_reads(zs, rng, it, prm, rec):
    """Values, densities and objectives are built once."""
    K = 3
    ps = int(rng.randint(2 ** 31))
    kind = ('elbo', 'importance_weighted_objective', 'klpq')[rng.randint(3)]
    c = {'objective': kind, 'model seed': ps}

    def make(g, i):
        r = np.random.RandomState(ps)
        with g.as_default():
            m = VModel(r, int(r.randint(1, 4)), int(r.randint(1, 3)), int(r.randint(2)), K)
            tv = m.variables()
            q = m.variational(zs, tv)
            o = getattr(zs.variational, kind)(m.meta(zs, tv), m.observed(), variational=q, axis=0)
            first = [q.log_joint(), o.bn, o.bn.log_joint(), o.meta_bn, o.variational]
            value = o if kind != 'klpq' else o.bn['x0']
            value.tensor
            for n in m.p:
                o.bn[n.name].tensor, o.bn[n.name].cond_log_p
            n0 = len(g.get_operations())
            for t in range(3):
                again = [q.log_joint(), o.bn, o.bn.log_joint(), o.meta_bn, o.variational]
                rec.check(all(a is b for a, b in zip(first, again)), 'rebuilt', 'reading an object again gives '
                          'another one', which=[i for i, (a, b) in enumerate(zip(first, again)) if a is not b], **c)
                value.tensor
                tf.convert_to_tensor(value)
                for n in m.p:
                    nd = o.bn[n.name]
                    nd.tensor, nd.cond_log_p, nd.shape, nd.dtype, nd.dist, nd.is_observed()
                    o.bn.get(n.name), o.bn.cond_log_prob(n.name), o.bn.get([n.name]), o.bn.nodes
                    tf.convert_to_tensor(nd)
                n1 = len(g.get_operations())
                rec.check(n1 == n0, 'grows', 'reading nodes, nets and objectives again added %d operations' % (n1 - n0),
                          **c)
                rec.event('read again')
            init = tf.global_variables_initializer()
            with session(1, 1, graph=g) as sess:
                sess.run(init)
                n0 = len(g.get_operations())
                g.finalize()
                for t in range(2):
                    # nodes and objectives can be fetched and fed like tensors
                    sess.run([value, q[m.latent[0]], o.bn['x0']])
                    rec.event('run')
                rec.check(len(g.get_operations()) == n0, 'grows', 'fetching nodes added operations', **c)
                rec.event('finalized')
    dropped(make, rec, c)
    rec.case(('reads', kind, ps), sample=c)


def do_nets(zs, rng, it, prm, rec):
    """Nets made by hand, by the legacy context and by meta nets are read again and again."""
    import warnings
    ps = int(rng.randint(2 ** 31))
    how = ('by hand', 'legacy', 'meta', 'own log joint')[it % 4]
    c = {'net': how, 'model seed': ps}

    def make(g, i):
        r = np.random.RandomState(ps)
        with g.as_default():
            net = random_net(r, int(r.randint(1, 5)), 0)
            seen = {k.name: tf.constant(k.value(r)) for k in net if r.rand() < .5}

            def fill(bn):
                vals = {}
                for k in net:
                    vals[k.name] = k.add(zs, bn, vals, 'legacy' if how == 'legacy' else
                                         ('shortcut', 'stochastic')[r.randint(2)])
                return bn
            if how == 'by hand':
                bn = fill(zs.BayesianNet(seen) if r.randint(2) else zs.BayesianNet(observed=seen))
            elif how == 'legacy':
                bn = fill(zs.BayesianNet(seen))
            else:
                meta = zs.meta_bayesian_net(scope='s', reuse_variables=bool(r.randint(2)))(
                    lambda: fill(zs.BayesianNet()))()
                if how == 'own log joint':
                    meta.log_joint = lambda b: sum(tf.reduce_sum(v) for v in b.cond_log_prob([k.name for k in net]))
                bn = meta.observe(**seen)
            # the first read of everything, in any order, may build operations
            reads = [lambda k=k, w=w: w(bn, k.name) for k in net for w in (
                lambda b, n: b[n].tensor, lambda b, n: b[n].cond_log_p, lambda b, n: b.cond_log_prob(n),
                lambda b, n: b.get(n), lambda b, n: tf.convert_to_tensor(b[n]))] + [lambda: bn.log_joint()] * 2
            if how in ('by hand', 'legacy'):
                names = [k.name for k in net]
                with warnings.catch_warnings():
                    warnings.simplefilter('ignore')
                reads += [lambda: bn.query(names, outputs=True, local_log_prob=True),
                          lambda: bn.local_log_prob(names), lambda: bn.outputs(names)]
            r.shuffle(reads)
            flat = lambda v: [x for y in v for x in flat(y)] if isinstance(v, (list, tuple)) else [v]
            first = [flat(f()) for f in reads]
            n0 = len(g.get_operations())
            for t in range(2):
                again = [flat(f()) for f in reads]
                n1 = len(g.get_operations())
                rec.check(n1 == n0, 'grows', 'reading a net again added %d operations' % (n1 - n0), **c)
                rec.check(all(a is b for x, y in zip(first, again) for a, b in zip(x, y)), 'rebuilt',
                          'reading a net again gives other objects', **c)
                rec.event('read again')
            j = bn.log_joint()
            with session(1, 1, graph=g) as sess:
                n0 = len(g.get_operations())
                g.finalize()
                bn.log_joint()
                a, b = sess.run([j, bn.log_joint()])
                rec.check(np.array_equal(a, b, equal_nan=True), 'rebuilt', 'log_joint read twice differs', a=a, b=b, **c)
                rec.event('run')
                rec.event('finalized')
                rec.event('net ' + how)
    dropped(make, rec, c)
    rec.case(('nets', how, ps), sample=c)


class Planned(Exception):
    pass


def do_failures(zs, rng, it, prm, rec):
    """What fails while it is built leaves nothing behind."""
    ps = int(rng.randint(2 ** 31))
    how = ('model raises', 'duplicate', 'incomplete', 'bad argument', 'legacy raises', 'log joint raises',
           'nested raises')[rng.randint(7)]
    c = {'failure': how, 'model seed': ps}

    def make(g, i):
        r = np.random.RandomState(ps)
        with g.as_default():
            net = random_net(r, 3)

            @zs.meta_bayesian_net(scope=('s', None)[r.randint(2)])
            def f(fail):
                bn = zs.BayesianNet()
                vals = {}
                for k, nd in enumerate(net):
                    vals[nd.name] = nd.add(zs, bn, vals, 'shortcut')
                    if fail and k == 1:
                        if how == 'nested raises':
                            f(False).observe()
                            f(True).log_joint
                        raise Planned()
                return bn
            try:
                if how in ('model raises', 'nested raises'):
                    f(True).observe(n0=tf.constant(net[0].value(r)))
                elif how == 'duplicate':
                    bn = f(False).observe()
                    bn.normal('n0', tf.zeros([4]), std=1.)
                elif how == 'incomplete':
                    q = zs.BayesianNet()
                    zs.variational.elbo(f(False), {}, variational=q).tensor
                elif how == 'bad argument':
                    bn = f(False).observe()
                    bn.normal('bad', tf.constant(0), std=tf.constant(1))
                elif how == 'legacy raises':
                    with zs.BayesianNet({'n0': tf.constant(net[0].value(r))}):
                        zs.Normal('n0', tf.zeros([4], tf.float64), std=tf.ones([4], tf.float64))
                        raise Planned()
                else:
                    def bad(o):
                        raise Planned()
                    zs.variational.elbo(bad, {'x': tf.zeros([2])}, latent={'z': (tf.zeros([2]), tf.zeros([2]))}).tensor
            except (Planned, ValueError, TypeError):
                rec.event('failed build')
            else:
                rec.violation('accepted', 'an invalid build did not raise', **c)
            # the library is as usable as before
            bn = zs.BayesianNet()
            n = bn.normal('n0', tf.zeros([4], tf.float64), std=tf.ones([4], tf.float64))
            rec.check(not n.is_observed(), 'context-left', 'a node of a later net is observed', **c)
            try:
                left = zs.Normal('n0', tf.zeros([4], tf.float64), std=tf.ones([4], tf.float64))
            except ValueError:
                left = None
            rec.check(left is not None and left.bn is None and not left.is_observed(), 'context-left',
                      'a node built outside any net belongs to a net', **c)
    dropped(make, rec, c)
    rec.case(('failures', how, ps), sample=c)


def do_utilities(zs, rng, it, prm, rec):
    """Everything that takes graph objects without being a program."""
    ps = int(rng.randint(2 ** 31))
    c = {'model seed': ps}
    from zhusuan.framework.utils import get_backward_ops, reuse_variables
    from zhusuan.utils import log_mean_exp, merge_dicts
    from zhusuan.diagnostics import effective_sample_size

    def make(g, i):
        r = np.random.RandomState(ps)
        with g.as_default():
            x = tf.constant(r.normal(0, 1, (3, 4)))
            y = log_mean_exp(x * 2., 0) + 1.

            @reuse_variables('net')
            def f(v):
                return v * tf.get_variable('w', [4], tf.float64)
            z = f(y) + f(f(y))
            n0 = len(g.get_operations())
            for t in range(3):
                a = get_backward_ops([z], treat_as_inputs=[y])
                b = get_backward_ops(z)
                merge_dicts({'a': x}, {'b': y})
                rec.check(len(g.get_operations()) == n0, 'grows', 'get_backward_ops added operations', **c)
            n = zs.BayesianNet().normal('n', z, std=tf.ones([4], tf.float64))
            n.tensor
            {n: 1}
            if r.randint(2):
                zs.planar_normalizing_flow(tf.zeros([3, 4]), tf.zeros([3]), 2)
            init = tf.global_variables_initializer()
            with session(1, 1, graph=g) as sess:
                sess.run(init)
                s = sess.run([z, n])
                effective_sample_size(r.normal(0, 1, (50, 2)))
                rec.event('run')
    dropped(make, rec, c)
    rec.event('utilities')
    rec.case(('utilities', ps), sample=c)
