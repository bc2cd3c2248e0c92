"""C26: results are a function of the program and the graph-level seed."""
import json
import os
import random
import shutil
import subprocess
import sys
import tempfile
import numpy as np
from zsmon import progs
from zsmon.core import subseed

RULE = ('Each evaluation is one complete program (sampling and scoring a distribution, a net, objectives and their '
        'gradients, reinforce, HMC, SGLD/PSGLD/SGHMC/SGNHT, AIS, flows; random models) executed again with the same '
        'graph-level seed: rebuilt in the same process with other states of the numpy and Python generators and '
        'other numbers of inter-op threads, in a second session, and in new processes with other hash seeds. All '
        'fetched results of all runs have to agree bit for bit; with another seed they have to differ; the global '
        'generators of numpy and Python have to be left alone. Distinct: (program, model seed, graph seed, way of '
        'repeating).')
ASSUMPTIONS = ['one intra-op thread per operation (sums over more threads may associate differently)']
REQUIRED = {'rebuilt': 150, 'second session': 150, 'other seed': 100, 'new process': 60, 'arrays': 4000}
PYTHON = sys.executable


def items(tier, seed):
    n, reps = (8, 24) if tier == 'quick' else (24, 96)
    names = sorted(progs.PROGRAMS)
    return [('again', {'n': n, 'seed': subseed('c26', seed, r), 'r': r}) for r in range(reps)] + \
        [('process', {'n': 3 * n, 'seed': subseed('c26p', seed, r), 'hash': r + 1}) for r in range(reps // 6)] if names \
        else []


def run(name, prm, rec):
    globals()['do_' + name](np.random.RandomState(prm['seed']), prm, rec)


def differ(a, b):
    """first result that differs, or None"""
    if sorted(a) != sorted(b):
        return 'different sets of results'
    for k in sorted(a):
        if a[k].dtype != b[k].dtype or a[k].shape != b[k].shape or a[k].tobytes() != b[k].tobytes():
            return k
    return None


def do_again(rng, prm, rec):
    names = sorted(progs.PROGRAMS)
    for i in range(prm['n']):
        name = names[(prm['r'] + i) % len(names)]
        ps, gs = int(rng.randint(2 ** 31)), int(rng.randint(1, 2 ** 31 - 1))
        np.random.seed(1)
        random.seed(1)
        n0, p0 = np.random.get_state(), random.getstate()
        pr, (a,) = progs.execute(name, ps, gs, 1)
        n1 = np.random.get_state()
        rec.check(random.getstate() == p0 and np.array_equal(n0[1], n1[1]) and n0[2:] == n1[2:], 'global-generator',
                  'the global generator of numpy or Python was used', program=pr.label)
        np.random.seed(int(rng.randint(2 ** 31)))
        random.seed(int(rng.randint(2 ** 31)))
        inter = int(rng.choice([1, 4, 8]))
        _, (b, c) = progs.execute(name, ps, gs, inter, sessions=2)
        for how, r in (('rebuilt', b), ('second session', c)):
            k = differ(a, r)
            rec.check(k is None, 'not-reproducible', '%s: %s differs although program and seed are the same (%s)'
                      % (pr.label, k, how), program=name, label=pr.label, seed=gs, threads=inter,
                      got=r.get(k), want=a.get(k))
            rec.event(how)
            rec.event('arrays', len(a))
            rec.case((name, pr.label, ps, gs, how, inter), sample={'program': pr.label, 'how': how})
        _, (d,) = progs.execute(name, ps, gs ^ 0x5bd1e995 & 0x7fffffff, 1)
        if name in ('hmc', 'sgmcmc', 'ais', 'flow'):     # (a handful of discrete results may agree by chance)
            rec.check(differ(a, d) is not None, 'seed-ignored',
                      '%s: another graph-level seed gives the same results' % pr.label, program=name)
        rec.event('other seed')
        rec.case((name, pr.label, ps, gs, 'other seed'))


def do_process(rng, prm, rec):
    names = sorted(progs.PROGRAMS)
    jobs = [[names[i % len(names)], int(rng.randint(2 ** 31)), int(rng.randint(1, 2 ** 31 - 1)),
             int(rng.choice([1, 4]))] for i in range(prm['n'])]
    d = tempfile.mkdtemp(prefix='zsmon-repro-')
    try:
        env = dict(os.environ, PYTHONHASHSEED=str(prm['hash']))
        cp = subprocess.run([PYTHON, '-W', 'ignore', '-m', 'zsmon.progs_main', json.dumps(jobs), d + '/out.npz'],
                            cwd=os.path.dirname(os.path.dirname(os.path.dirname(os.path.abspath(__file__)))),
                            env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
        if cp.returncode:
            raise RuntimeError(cp.stdout.decode(errors='replace')[-1500:])
        with np.load(d + '/out.npz') as z:
            out = {k: z[k] for k in z.files}
    finally:
        shutil.rmtree(d, ignore_errors=True)
    for i, (name, ps, gs, inter) in enumerate(jobs):
        pr, (a,) = progs.execute(name, ps, gs, 1)
        b = {k.split('|', 1)[1]: v for k, v in out.items() if k.startswith('%d|' % i)}
        k = differ(a, b)
        rec.check(k is None, 'not-reproducible', '%s: %s differs although program and seed are the same (new process)'
                  % (pr.label, k), program=name, label=pr.label, seed=gs, threads=inter, got=b.get(k), want=a.get(k))
        rec.event('new process')
        rec.event('arrays', len(a))
        rec.case((name, pr.label, ps, gs, 'process', prm['hash']), sample={'program': pr.label, 'how': 'process'})
