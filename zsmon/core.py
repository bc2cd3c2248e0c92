"""Runner, recorder and evidence writer shared by all checks.

A check module (zsmon/checks/cNN.py) provides

    RULE       str: how cases are made and what makes one non-trivial
    LEVEL_ASSUMPTIONS  list of str
    items(tier, seed)  -> list of (name, params) work items
    run(name, params, rec)   drives the real code and reports to ``rec``
    REQUIRED   optional {event: minimum}: monitors that must have been reached

Verdicts are three-valued: violated (exit 1), held on what was observed
(exit 0), inconclusive (exit 2: a monitor was never reached, the time budget
ran out, or the harness itself failed).
"""
import hashlib
import importlib
import json
import multiprocessing as mp
import os
import queue
import signal
import sys
import time
import traceback

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
BUDGET = {'quick': 800.0, 'thorough': 3300.0}
MAX_VIOLATIONS = 20
# An item still running after HANG[tier] seconds although every finished one took
# less than a tenth of that is an operation that does not terminate.
HANG = {'quick': 420.0, 'thorough': 1500.0}


def jsonable(x):
    import numpy as np
    if isinstance(x, dict):
        return {str(k): jsonable(v) for k, v in x.items()}
    if isinstance(x, (list, tuple)):
        return [jsonable(v) for v in x]
    if isinstance(x, np.ndarray):
        if x.size > 60:
            return {'shape': list(x.shape), 'head': jsonable(x.ravel()[:20])}
        return jsonable(x.tolist())
    if isinstance(x, (np.floating, float)):
        x = float(x)
        return x if x == x and abs(x) != float('inf') else repr(x)
    if isinstance(x, np.integer):
        return int(x)
    if isinstance(x, np.bool_):
        return bool(x)
    if x is None or isinstance(x, (bool, int, str)):
        return x
    return repr(x)


def subseed(*parts):
    h = hashlib.sha256(repr(parts).encode()).digest()
    return int.from_bytes(h[:4], 'little') & 0x7fffffff


class Stop(Exception):
    """Raised inside an item once enough violations were seen."""


class Recorder(object):
    def __init__(self, item):
        self.item = item
        self.evaluations = 0
        self.keys = set()
        self.events = {}
        self.samples = []
        self.violations = []
        self.notes = []

    def case(self, key, nontrivial=True, sample=None):
        """One execution judged by an oracle."""
        self.evaluations += 1
        if nontrivial:
            self.keys.add(hashlib.md5(repr(key).encode()).hexdigest()[:16])
        if sample is not None and len(self.samples) < 1:
            self.samples.append(jsonable(sample))

    def event(self, kind, n=1):
        self.events[kind] = self.events.get(kind, 0) + int(n)

    def violation(self, mech, message, **witness):
        self.violations.append({
            'mech': mech, 'message': message, 'witness': jsonable(witness),
            'item': jsonable(self.item)})
        if len(self.violations) >= 8:
            raise Stop()

    def check(self, cond, mech, message, **witness):
        if not cond:
            self.violation(mech, message, **witness)
        return bool(cond)

    def note(self, text):
        if len(self.notes) < 5:
            self.notes.append(text)

    def result(self):
        return {'item': self.item, 'evaluations': self.evaluations,
                'keys': self.keys, 'events': self.events,
                'samples': self.samples, 'violations': self.violations,
                'notes': self.notes, 'error': None}


HARNESS_ERRORS = (MemoryError, OSError, ImportError, KeyboardInterrupt)


def _attempt(mod, item):
    rec = Recorder(item)
    import tensorflow as tf
    try:
        tf.reset_default_graph()
        mod.run(item[0], item[1], rec)
    except Stop:
        pass
    except Exception as e:
        return rec, e, ''.join(
            traceback.format_exception(type(e), e, e.__traceback__))
    return rec, None, None


def run_item(mod, item):
    """Runs one work item. Every call an item makes outside an explicit
    must-raise monitor is a valid use of the code under test, so an exception
    that comes back when the item is run again is a violation; one that does
    not come back, or that stems from the sandbox, is inconclusive."""
    t0 = time.time()
    rec, exc, text = _attempt(mod, item)
    if exc is not None and not rec.violations:
        if not isinstance(exc, HARNESS_ERRORS):
            rec2, exc2, text2 = _attempt(mod, item)
            if type(exc2) is type(exc):
                rec2.violations.append({
                    'mech': 'exception', 'message': 'valid use raised {}: {}'.format(
                        type(exc).__name__, str(exc)[:300]),
                    'witness': {'traceback': text[-3000:]},
                    'item': jsonable(item)})
                exc = None
            elif exc2 is None and rec2.violations:
                exc = None
            rec = rec2
        if exc is not None:
            r = rec.result()
            r['error'] = text[-4000:]
            return r
    r = rec.result()
    r['wall'] = time.time() - t0
    return r


def _worker(mod, wid, tasks, results):
    signal.signal(signal.SIGINT, signal.SIG_IGN)
    while True:
        try:
            idx, item = tasks.get(timeout=1)
        except queue.Empty:
            continue
        if item is None:
            break
        results.put(('start', wid, idx, None))
        r = run_item(mod, item)
        results.put(('done', wid, idx, r))
    results.put(('exit', wid, None, None))


def run_parallel(mod, items, budget, n_workers, fail_fast=True, hang=HANG['quick']):
    ctx = mp.get_context('fork')
    tasks, results = ctx.Queue(), ctx.Queue()
    for i, it in enumerate(items):
        tasks.put((i, it))
    n_workers = max(1, min(n_workers, len(items)))
    for _ in range(n_workers):
        tasks.put((None, None))
    procs = [ctx.Process(target=_worker, args=(mod, w, tasks, results), daemon=True)
             for w in range(n_workers)]
    for p in procs:
        p.start()
    deadline = time.time() + budget
    out, current, exited, crashed, began = {}, {}, set(), [], {}
    n_viol = 0
    reason = None
    while len(exited) < n_workers:
        left = deadline - time.time()
        hung = [i for i, t in began.items() if time.time() - t > hang]
        if hung and len(out) >= 5 and max(r.get('wall', 0) for r in out.values()) < hang / 10:
            for i in hung:
                out[i] = Recorder(items[i]).result()
                out[i]['violations'].append({
                    'mech': 'hang', 'message': 'valid use did not come back within %d s' % hang,
                    'witness': {}, 'item': jsonable(items[i])})
            reason = 'stopped: hanging'
            break
        if left <= 0:
            reason = 'time budget exhausted'
            break
        try:
            kind, wid, idx, r = results.get(timeout=min(left, 2))
        except queue.Empty:
            for w, p in enumerate(procs):
                if w not in exited and not p.is_alive():
                    exited.add(w)
                    if w in current:
                        began.pop(current[w], None)
                        crashed.append(current.pop(w))
            continue
        if kind == 'start':
            current[wid] = idx
            began[idx] = time.time()
        elif kind == 'done':
            current.pop(wid, None)
            began.pop(idx, None)
            out[idx] = r
            n_viol += len(r['violations'])
            if fail_fast and n_viol >= MAX_VIOLATIONS:
                reason = 'stopped after {} violations'.format(n_viol)
                break
        else:
            exited.add(wid)
    for p in procs:
        if p.is_alive():
            p.terminate()
    for p in procs:
        p.join(5)
        if p.is_alive():
            p.kill()
    return out, crashed, reason


def load_known(pid):
    """Known findings: lines 'known: property=<id> mech=<mechanism> <text>'.
    'fixed:' lines suppress nothing."""
    path = os.path.join(VERIF, 'known_findings.txt')
    known = {}
    if os.path.exists(path):
        for line in open(path):
            parts = line.split()
            if parts[:1] == ['known:'] and 'property=' + pid in parts:
                mech = [p[5:] for p in parts if p.startswith('mech=')]
                if mech:
                    known[mech[0]] = line.strip()
    return known


def main(argv):
    pid = argv[0]
    replay = argv[2] if len(argv) > 2 and argv[1] == '--replay' else None
    tier = os.environ.get('VERIF_TIER', 'quick')
    if tier not in BUDGET:
        tier = 'quick'
    try:
        seed = int(os.environ.get('VERIF_SEED', '1'))
    except ValueError:
        seed = 1
    t0 = time.time()
    from . import boot
    boot.boot()
    mod = importlib.import_module('zsmon.checks.' + pid.lower())
    if replay:
        w = json.load(open(replay))
        os.environ['VERIF_TIER'] = w['tier']
        items = [it for it in mod.items(w['tier'], w['seed'])
                 if jsonable(it) == w['item']]
        if not items:
            print('replay: item not found')
            return 2
    else:
        items = mod.items(tier, seed)
    out, crashed, reason = run_parallel(
        mod, items, BUDGET[tier], int(os.environ.get('ZSMON_WORKERS', os.cpu_count() or 8)),
        hang=HANG[tier])
    return report(pid, mod, tier, seed, items, out, crashed, reason, t0)


def report(pid, mod, tier, seed, items, out, crashed, reason, t0):
    evaluations, keys, events, samples, violations, errors, notes = \
        0, set(), {}, [], [], [], []
    for idx in sorted(out):
        r = out[idx]
        evaluations += r['evaluations']
        keys |= r['keys']
        for k, v in r['events'].items():
            events[k] = events.get(k, 0) + v
        if r['samples'] and len(samples) < 8:
            samples.append({'item': jsonable(r['item']), 'case': r['samples'][0]})
        violations += r['violations']
        notes += r['notes']
        if r['error']:
            errors.append(r['error'])
    known = load_known(pid)
    new = [v for v in violations if v['mech'] not in known]
    old = [v for v in violations if v['mech'] in known]
    wall = time.time() - t0
    slow = sorted(((r.get('wall', 0), str(r['item'][0])) for r in out.values()), reverse=True)[:3]
    coverage = {
        'evaluations': evaluations, 'distinct_nontrivial': len(keys),
        'rule': mod.RULE, 'samples': samples,
        'items_planned': len(items), 'items_run': len(out),
        'monitor_events': events,
        'slowest_items': [[n, round(w, 2)] for w, n in slow],
    }
    if notes:
        coverage['notes'] = notes[:20]
    if reason:
        coverage['stopped'] = reason
    os.makedirs(os.path.join(VERIF, 'evidence'), exist_ok=True)
    with open(os.path.join(VERIF, 'evidence', pid + '.json'), 'w') as f:
        json.dump({'property': pid, 'tier': tier, 'seed': seed,
                   'level': 'exploration', 'coverage': coverage,
                   'assumptions': list(getattr(mod, 'ASSUMPTIONS', [])),
                   'wall_s': round(wall, 2), 'violations': len(new)}, f, indent=1)
    print('{}: tier={} seed={} items={}/{} evaluations={} distinct={} wall={:.1f}s'.format(
        pid, tier, seed, len(out), len(items), evaluations, len(keys), wall))
    print('  events: ' + ', '.join('{}={}'.format(k, events[k]) for k in sorted(events)))
    for mech in sorted(set(v['mech'] for v in old)):
        print('KNOWN-FINDING: property={} {}'.format(pid, known[mech]))
    if new:
        rdir = os.path.join(VERIF, 'replays')
        os.makedirs(rdir, exist_ok=True)
        seen = set()
        for n, v in enumerate(new):
            if (v['mech'], v['item'][0]) in seen or len(seen) >= 5:
                continue
            seen.add((v['mech'], v['item'][0]))
            path = os.path.join(rdir, '{}-{}.json'.format(pid, n))
            with open(path, 'w') as f:
                json.dump(dict(v, property=pid, tier=tier, seed=seed), f, indent=1)
            print('  {}: {} {}'.format(v['mech'], v['message'], json.dumps(v['witness'])[:600]))
            print('VIOLATION property={} replay={}'.format(pid, path))
        return 1
    if errors:
        print('INCONCLUSIVE: harness error in {} item(s)\n{}'.format(len(errors), errors[0]))
        return 2
    if crashed:
        print('INCONCLUSIVE: worker died in items {}'.format([items[i] for i in crashed][:3]))
        return 2
    if len(out) < len(items):
        print('INCONCLUSIVE: {} ({}/{} items)'.format(reason, len(out), len(items)))
        return 2
    missing = {k: v for k, v in getattr(mod, 'REQUIRED', {}).items()
               if events.get(k, 0) < v}
    if missing or evaluations == 0:
        print('INCONCLUSIVE: monitors not reached: {}'.format(missing))
        return 2
    print('HELD property={} on {} executions'.format(pid, evaluations))
    return 0


if __name__ == '__main__':
    sys.exit(main(sys.argv[1:]))
