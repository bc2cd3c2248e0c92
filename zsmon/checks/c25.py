"""C25: get_backward_ops returns the exact dependency cone in order."""
import numpy as np
import tensorflow as tf
from zsmon.core import subseed

RULE = ('Each evaluation is one call on a random graph: shared subgraphs, multi-output ops, control dependencies '
        '(also through groups, no-ops and assertions), '
        'repeated inputs, variables, stochastic nodes, disconnected parts and chains thousands of ops deep; random '
        'seed sets (single, list, tuple, with duplicates, several outputs of one op) and treat_as_inputs sets. The '
        'result is compared with a breadth-first reference cone and every followed edge is checked for order. '
        'Distinct: (graph, seeds, treat_as_inputs).')
ASSUMPTIONS = ['graphs without while loops (their control-flow cycles have no topological order)']
REQUIRED = {'calls': 800, 'edges': 10000, 'treated inputs hit': 500, 'control edges': 500, 'deep': 4,
            'several outputs': 200, 'without outputs': 80, 'treated seed': 100, 'nodes of a net': 50}


def items(tier, seed):
    n, reps = (6, 16) if tier == 'quick' else (40, 48)
    return [('graph', {'n': n, 'seed': subseed('c25', seed, r)}) for r in range(reps)] + \
        [('deep', {'n': 2, 'seed': subseed('c25d', seed, r), 'len': 1500 if tier == 'quick' else 6000})
         for r in range(4)] + \
        [('net', {'n': n, 'seed': subseed('c25n', seed, r)}) for r in range(4)]


def run(name, prm, rec):
    rng = np.random.RandomState(prm['seed'])
    for _ in range(prm['n']):
        tf.reset_default_graph()
        globals()['do_' + name](rng, prm, rec)


def follow(op, stop):
    return [t.op for t in op.inputs if t.name not in stop] + list(op.control_inputs)


def cone(seeds, stop):
    todo = [t.op for t in seeds if t.name not in stop]
    seen = {}
    while todo:
        op = todo.pop()
        if op.name in seen:
            continue
        seen[op.name] = op
        todo.extend(follow(op, stop))
    return seen


def judge(rec, seeds, stop, got, ctx):
    names = {t.name for t in stop}
    want = cone(seeds, names)
    pos = {}
    for i, op in enumerate(got):
        rec.check(op.name not in pos, 'duplicate', 'an operation is returned twice', op=op.name, **ctx)
        pos[op.name] = i
    rec.check(set(pos) == set(want), 'cone', 'returned operations are not the dependency cone',
              extra=sorted(set(pos) - set(want))[:5], missing=sorted(set(want) - set(pos))[:5], **ctx)
    for op in got:
        for src in follow(op, names):
            rec.check(src.name in pos and pos[src.name] < pos[op.name], 'order',
                      'an operation precedes one it depends on', op=op.name, needs=src.name, **ctx)
        rec.event('edges', len(op.inputs))
        rec.event('control edges', len(op.control_inputs))
        if any(t.name in names for t in op.inputs):
            rec.event('treated inputs hit')
    rec.event('calls')


def do_graph(rng, prm, rec):
    from zhusuan.framework.utils import get_backward_ops
    ts = [tf.placeholder(tf.float32, [2]) for _ in range(rng.randint(1, 4))]
    if rng.randint(2):
        ts.append(tf.convert_to_tensor(tf.Variable(tf.ones([2]))))
    ts.append(tf.constant([1., 2.]))
    n = int(rng.choice([3, 8, 25, 60]))
    pick = lambda: ts[rng.randint(len(ts))] if rng.rand() < .5 else ts[-1 - rng.randint(min(4, len(ts)))]
    multi = 0
    for _ in range(n):
        deps = [pick().op for _ in range(rng.randint(1, 3))] if rng.rand() < .3 else []
        if deps and rng.rand() < .4:
            # through operations without outputs
            deps = [tf.group(*deps)] if rng.randint(2) else [tf.Assert(tf.reduce_all(pick() > -1e9), [0.])] + deps
            if rng.randint(2):
                with tf.control_dependencies(deps):
                    deps = [tf.no_op()]
            rec.event('without outputs')
        with tf.control_dependencies(deps):
            k = rng.randint(7)
            if k == 0:
                ts.append(tf.exp(pick()))
            elif k == 1:
                ts.append(pick() + pick())
            elif k == 2:
                a = pick()
                ts.append(a * a)
            elif k == 3:
                ts.extend(tf.split(pick(), 2)[i] + tf.zeros([2]) for i in range(2))
            elif k == 4:
                u = tf.unstack(tf.stack([pick(), pick()]))
                ts.extend(u)
                multi += 1
            elif k == 5:
                ts.append(tf.add_n([pick() for _ in range(rng.randint(1, 5))]))
            else:
                ts.append(tf.identity(pick()))
    gname = (n, int(rng.randint(1 << 30)))
    for c in range(16):
        seeds = [ts[rng.randint(len(ts))] for _ in range(rng.randint(1, 5))]
        stop = [ts[rng.randint(len(ts))] for _ in range(rng.randint(0, 6))]
        if rng.rand() < .2 and stop:
            seeds.append(stop[0])
            rec.event('treated seed')
        if rng.rand() < .3:
            seeds += seeds[:1]
        arg = seeds
        if len(seeds) == 1 and rng.randint(2):
            arg = seeds[0]
        elif rng.randint(2):
            arg = tuple(seeds)
        kw = {}
        if stop or rng.randint(2):
            kw['treat_as_inputs'] = stop if rng.randint(2) else tuple(stop)
        elif rng.randint(2):
            kw['treat_as_inputs'] = None
        keep = (list(seeds), list(stop))
        nops = len(tf.get_default_graph().get_operations())
        got = get_backward_ops(arg, **kw)
        ctx = {'graph': gname, 'seeds': [t.name for t in seeds], 'stop': [t.name for t in stop]}
        rec.check(nops == len(tf.get_default_graph().get_operations()), 'graph-changed', 'the graph was changed', **ctx)
        rec.check(isinstance(got, list) and len(keep[0]) == len(seeds) and len(keep[1]) == len(stop), 'inputs-changed',
                  'an argument was modified', **ctx)
        judge(rec, seeds, stop, got, ctx)
        if multi:
            rec.event('several outputs')
        rec.case(ctx, sample=ctx)
    got = get_backward_ops([])
    rec.check(got == [], 'empty', 'no seeds give operations')


def do_deep(rng, prm, rec):
    from zhusuan.framework.utils import get_backward_ops
    t = a = tf.placeholder(tf.float32, [])
    mid = None
    for i in range(prm['len']):
        t = t + a if rng.rand() < .2 else tf.negative(t)
        if i == prm['len'] // 2:
            mid = t
    for stop in ([], [mid], [a]):
        got = get_backward_ops(t, treat_as_inputs=stop)
        judge(rec, [t], stop, got, {'deep': prm['len'], 'stop': [s.name for s in stop]})
        rec.case(('deep', prm['len'], len(stop), prm['seed']), sample={'length': prm['len']})
    rec.event('deep')


def do_net(rng, prm, rec):
    """Seeds and stops taken from the nodes of a net."""
    import zhusuan as zs
    from zhusuan.framework.utils import get_backward_ops
    bn = zs.BayesianNet()
    nodes, last = [], tf.zeros([2])
    for i in range(int(rng.randint(2, 6))):
        k = rng.randint(3)
        if k == 0:
            node = bn.normal('n%d' % i, last, std=1.)
        elif k == 1:
            node = bn.normal('n%d' % i, tf.tanh(last), std=1., group_ndims=1)
        else:
            node = bn.uniform('n%d' % i, last - 1., last + 1.)
        nodes.append(node.tensor)
        last = node + (last if rng.randint(2) else 0.)
    seeds = [bn['n%d' % i].cond_log_p for i in range(len(nodes)) if rng.randint(2)] or [nodes[-1]]
    stop = [t for t in nodes if rng.randint(2)]
    got = get_backward_ops(seeds, treat_as_inputs=stop)
    ctx = {'net': len(nodes), 'stop': [t.name for t in stop]}
    judge(rec, seeds, stop, got, ctx)
    rec.event('nodes of a net', len(nodes))
    rec.case((ctx, [s.name for s in seeds]), sample=ctx)
