"""Driver: run.sh C07 [--replay FILE]

Generates the cases of one property from VERIF_SEED / VERIF_TIER, runs each in a worker process
under its monitors, aggregates what was observed, writes evidence/<id>.json.
Exit 0 held on everything observed, 1 VIOLATION, 2 inconclusive (too little observed / harness error).
"""
import gc
import hashlib
import importlib
import json
import multiprocessing as mp
import os
import signal
import sys
import time
import traceback
import zlib
from multiprocessing.connection import wait as mp_wait

HERE = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get('VERIF_REPO', '/repo')
sys.path.insert(0, HERE)
sys.path.insert(0, REPO)
import warnings
warnings.simplefilter('ignore')
import numpy as np
from vlib.mon import Monitor, StopCase, HarnessTimeout

NPROC = 8
# how many times the quick workload is drawn: cheap checks can afford more
ROUNDS = {'C01': 4, 'C02': 5, 'C03': 4, 'C05': 2, 'C07': 6, 'C08': 2, 'C09': 2, 'C16': 2, 'C17': 2, 'C19': 2, 'C20': 2, 'C22': 2,
          'C23': 2, 'C24': 3, 'C25': 3, 'C26': 4, 'C27': 2, 'C28': 4, 'C29': 3, 'C30': 3, 'C31': 3, 'C32': 2, 'C33': 4}
CASE_LIMIT = 400       # seconds for one case: inconclusive, never a verdict
T0 = time.time()


def _alarm(signum, frame):
    raise HarnessTimeout()


def run_case(mod, case):
    m = Monitor(case)
    err = None
    signal.signal(signal.SIGALRM, _alarm)
    signal.alarm(CASE_LIMIT)
    try:
        mod.run(case, m)
    except StopCase:
        pass
    except HarnessTimeout:
        err = 'case exceeded %d s' % CASE_LIMIT
    except Exception as e:
        err = traceback.format_exc()
        frames = [f.filename for f in traceback.extract_tb(e.__traceback__)]
        if any(os.path.abspath(f).startswith(os.path.abspath(REPO) + os.sep) for f in frames):
            # the code under test failed on an in-domain input outside a guarded call
            m.violate('the code under test raised %s: %s' % (type(e).__name__, str(e)[:200]), traceback=err.splitlines()[-6:])
            err = None
        elif isinstance(e, (ValueError, IndexError, KeyError, TypeError, np.linalg.LinAlgError)) and m.events.get('calls'):
            # an oracle could not interpret what was returned (wrong type, length or shape)
            m.violate('malformed result (%s: %s)' % (type(e).__name__, str(e)[:200]), traceback=err.splitlines()[-6:])
            err = None
    finally:
        signal.alarm(0)
    return {'events': m.events, 'keys': sorted(m.keys), 'violations': m.violations,
            'samples': m.samples, 'err': err}


MOD = None


def _init():
    sys.stdout = open(os.devnull, 'w')
    os.environ['VERIF_WORKER'] = '1'


def _work(ic):
    i, case = ic
    t = time.time()
    r = run_case(MOD, case)
    r['t'] = time.time() - t
    return i, r


def _rss_mb():
    try:
        with open('/proc/self/statm') as f:
            return int(f.read().split()[1]) * 4 // 1024
    except OSError:
        return 0


def _loop(conn):
    _init()
    parent = os.getppid()
    while True:
        while not conn.poll(5):
            if os.getppid() != parent:
                os._exit(0)
        ic = conn.recv()
        if ic is None:
            return
        r = _work(ic)
        conn.send(r)
        if _rss_mb() > 600:
            gc.collect()             # arrays are invisible to the collector's own accounting


def workers(order, deadline):
    """Run the cases in NPROC forked workers; a worker that is killed from outside (memory) is replaced and
    its case run again. Yields (index, result), or None when the deadline has passed."""
    ctx = mp.get_context('fork')
    todo, busy, tries = list(reversed(order)), {}, {}

    def start():
        here, there = ctx.Pipe()
        p = ctx.Process(target=_loop, args=(there,), daemon=True)
        p.start()
        there.close()
        return p, here

    def feed(p, conn):
        if todo:
            ic = todo.pop()
            busy[conn] = (p, ic)
            conn.send(ic)
        else:
            p.kill()
    try:
        for _ in range(min(NPROC, len(order))):
            feed(*start())
        while busy:
            ready = mp_wait(list(busy), timeout=1)
            if time.time() > deadline and not ready:
                yield None
                return
            for conn in ready:
                p, ic = busy.pop(conn)
                try:
                    res = conn.recv()
                except (EOFError, OSError):
                    p.join(5)
                    tries[ic[0]] = tries.get(ic[0], 0) + 1
                    if tries[ic[0]] < 3:
                        todo.insert(0, ic)
                        time.sleep(1)
                    else:
                        yield ic[0], {'events': {}, 'keys': [], 'violations': [], 'samples': [], 't': 0.0,
                                      'err': 'the worker running this case was ended %d times' % tries[ic[0]]}
                    if todo:
                        feed(*start())
                    continue
                feed(p, conn)
                yield res
    finally:
        for p, _ in busy.values():
            p.kill()


def main():
    global MOD
    pid = sys.argv[1]
    tier = os.environ.get('VERIF_TIER', 'quick')
    seed = int(os.environ.get('VERIF_SEED', '1'))
    real_out = sys.stdout
    sys.stdout = open(os.devnull, 'w')          # the code under test prints a lot
    MOD = importlib.import_module('vlib.props.' + pid.lower())
    for name, module in list(sys.modules.items()):
        if name.split('.')[0] == 'oranssi' and getattr(module, '__file__', None):
            if not os.path.abspath(module.__file__).startswith(os.path.abspath(REPO) + os.sep):
                print('oranssi imported from', module.__file__, file=sys.stderr)
                return 2

    def say(*a):
        print(*a, file=real_out, flush=True)

    if len(sys.argv) > 3 and sys.argv[2] == '--replay':
        case = json.load(open(sys.argv[3]))['case']
        r = run_case(MOD, case)
        for v in r['violations']:
            say(json.dumps(v, indent=1))
        say(r['err'] or '', r['events'])
        if r['violations']:
            say('VIOLATION property=%s replay=%s' % (pid, sys.argv[3]))
            return 1
        return 2 if r['err'] else 0

    rng = np.random.default_rng([seed, zlib.crc32(pid.encode())])
    cases, known = [], set()
    for _ in range(ROUNDS.get(pid, 1) * (1 if tier == 'quick' else 4)):       # a thorough run ends at its deadline at the latest
        for c in MOD.cases(rng, tier):
            t = json.dumps(c)
            if t not in known:                       # cases without random content only once
                known.add(t)
                cases.append(json.loads(t))
    order = list(enumerate(cases))
    events, keys, samples, violations, errs = {}, set(), [], [], []
    done = 0
    slow = 0.0
    serial = getattr(MOD, 'SERIAL', False)
    deadline = T0 + getattr(MOD, 'DEADLINE', {}).get(tier, 800 if tier == 'quick' else 700)
    if serial:
        _init()
        it = map(_work, order)
    else:
        it = workers(order, deadline)
    cut = False
    for got in it:
        if got is None:
            cut = True
            break
        i, r = got
        done += 1
        slow = max(slow, r['t'])
        for k, v in r['events'].items():
            events[k] = events.get(k, 0) + v
        if len(keys) < 2000000:
            keys.update(r['keys'])
        if r['samples'] and len(samples) < 4:
            samples.append({'case': cases[i], 'observed': r['samples']})
        if r['err']:
            errs.append((i, r['err']))
        if r['violations']:
            violations.append((i, r['violations']))
            break
        if time.time() > deadline:
            cut = True
            break
    if not serial:
        it.close()
    # ------------------------------------------------------------------ verdict
    os.makedirs(os.path.join(HERE, 'evidence', 'replay'), exist_ok=True)
    rc = 0
    missing = {k: v for k, v in getattr(MOD, 'NEED', {}).items() if events.get(k, 0) < v}
    replay = None
    if violations:
        rc = 1
        i, vs = violations[0]
        h = hashlib.sha1(json.dumps(cases[i], sort_keys=True).encode()).hexdigest()[:10]
        replay = os.path.join('evidence', 'replay', '%s-%s.json' % (pid, h))
        with open(os.path.join(HERE, replay), 'w') as f:
            json.dump({'property': pid, 'case': cases[i], 'violations': vs}, f, indent=1)
    elif errs or missing or len(keys) < getattr(MOD, 'NEED_KEYS', 1):
        rc = 2
    ev = {'property': pid, 'tier': tier if tier in ('quick', 'thorough') else 'quick', 'seed': seed,
          'level': 'exploration',
          'coverage': {'evaluations': int(sum(v for k, v in events.items() if k != 'calls')),
                       'distinct_nontrivial': len(keys), 'rule': MOD.RULE,
                       'samples': samples or [{'case': cases[0] if cases else None}],
                       'cases': done, 'cases_planned': len(cases), 'events': events,
                       'slowest_case_s': round(slow, 2),
                       'signatures': sorted(keys)[:40]},
          'assumptions': getattr(MOD, 'ASSUMES', []) + [
              'PyPy, numpy, scipy and the PennyLane default.qubit simulator are trusted',
              'the reference model vlib/ref.py is trusted (cross-checked against PennyLane in C02/C03)'],
          'wall_s': round(time.time() - T0, 2), 'violations': len(violations)}
    with open(os.path.join(HERE, 'evidence', pid + '.json'), 'w') as f:
        json.dump(ev, f, indent=1)
    say('%s tier=%s seed=%d cases=%d/%d distinct=%d events=%s wall=%.1fs' % (
        pid, tier, seed, done, len(cases), len(keys), json.dumps(events, sort_keys=True), time.time() - T0))
    if rc == 1:
        for v in violations[0][1][:3]:
            say('  ' + v['msg'])
        say('VIOLATION property=%s replay=%s' % (pid, replay))
    elif rc == 2:
        say('INCONCLUSIVE property=%s missing=%s cut=%s errors=%d' % (pid, missing, cut, len(errs)))
        for i, e in errs[:2]:
            say('case', json.dumps(cases[i])[:600], '\n', e[-700:])
    return rc


if __name__ == '__main__':
    try:
        code = main()
    except Exception:
        traceback.print_exc()
        code = 2
    sys.stdout.flush() if not sys.stdout.closed else None
    os._exit(code)
