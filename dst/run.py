"""Runs a check: generates plans from the seed, executes them in forked workers, minimises and confirms a
violation, writes the evidence.   python -m dst.run <property> [--tier quick|thorough] | replay <file>"""
import argparse
import collections
import gc
import hashlib
import importlib
import json
import multiprocessing as mp
import os
import random
import shutil
import signal
import subprocess
import sys
import time
import traceback
import warnings

import numpy as np

from . import world
from .engine import ENGINE, Console, Deadlock
from .machine import Skip, Violation

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
OUT = os.path.join(ROOT, 'out')
RUN_CPU = 60        # seconds of CPU time after which a run counts as hung
RUN_REAL = 300


class Hang(BaseException):
    pass


class Ctx:
    def __init__(self):
        self.stats = collections.Counter()
        self.log = []
        self.states = set()
        self.schedules = set()
        self.console = Console()
        self.sim_s = 0.0           # simulated seconds
        self.concrete = None       # the same plan with its schedule spelled out
        self.scratch = None


def load_prop(pid):
    return importlib.import_module('dst.props.' + pid.lower())


_filters = None
_print = None


def reset_process():
    """the process-wide settings every run starts from"""
    global _filters, _print
    if _filters is None:
        _print = np.get_printoptions()
        warnings.resetwarnings()
        warnings.simplefilter('ignore')
        _filters = list(warnings.filters)
    warnings.filters[:] = _filters
    warnings._filters_mutated() if hasattr(warnings, '_filters_mutated') else None
    np.seterr(all='ignore')
    np.seterrcall(None)
    np.set_printoptions(**_print)
    np.random.seed(12345)
    random.seed(12345)


def make_plan(mod, pid, tier, seed, i):
    rng = random.Random('%s/%s/%d' % (seed, pid, i))
    p = mod.gen(rng, tier)
    return json.loads(json.dumps(p))


def execute(mod, plan, scratch=None):
    """one run; returns (violation or None, ctx, digest).  A pure function of the plan."""
    ctx = Ctx()
    ctx.scratch = scratch
    reset_process()
    world.World._stack[:] = []
    world.World.loading = None
    old = sys.stdout
    sys.stdout = ctx.console

    def alarm(sig, frame):
        raise Hang()
    signal.signal(signal.SIGPROF, alarm)
    signal.signal(signal.SIGALRM, alarm)
    signal.setitimer(signal.ITIMER_PROF, RUN_CPU)
    signal.setitimer(signal.ITIMER_REAL, RUN_REAL)
    v = None
    try:
        try:
            mod.run(plan, ctx)
        finally:
            signal.setitimer(signal.ITIMER_PROF, 0)
            signal.setitimer(signal.ITIMER_REAL, 0)
            ENGINE.mode = None
    except Violation as e:
        v = e
    except Skip:
        ctx.stats['skipped_runs'] += 1
    except Deadlock as e:
        v = Violation('no progress', str(e))
    except Hang:
        v = Violation('no progress', 'the run did not end within %d s of CPU time' % RUN_CPU)
    except (KeyboardInterrupt, SystemExit, MemoryError) as e:
        if type(e) not in (KeyboardInterrupt, MemoryError, SystemExit):
            v = Violation('exception escapes', repr(e))
        else:
            raise
    except (TypeError, ValueError, IndexError, AttributeError, ArithmeticError) as e:
        # the oracle could not digest what the code under test answered (any other exception here is an
        # error of the harness)
        tb = traceback.extract_tb(e.__traceback__)
        if os.environ.get('DST_DEBUG'):
            sys.stderr.write(''.join(traceback.format_exception(e)))
        v = Violation('unexpected %s' % type(e).__name__, '%s at %s' % (
            e, ' < '.join('%s:%d' % (os.path.basename(f.filename), f.lineno) for f in reversed(tb[-4:]))))
    except Exception as e:
        # the code under test raises where nothing was injected; anything else is an error of the harness
        tb = traceback.extract_tb(e.__traceback__)
        if not any(f.filename.startswith(world.REPO + os.sep) for f in tb):
            raise
        v = Violation('unexpected %s' % type(e).__name__, '%s at %s' % (
            e, ' < '.join('%s:%d' % (os.path.basename(f.filename), f.lineno) for f in reversed(tb[-4:]))))
    finally:
        sys.stdout = old
        for t in [n for n in sys.modules if n == 'wiz' or n.startswith('wiz.')]:
            del sys.modules[t]
        world.World._stack[:] = []
        world.World.loading = None
    rec = [ctx.log, sorted(ctx.schedules), [v.kind, v.detail] if v else None]
    digest = hashlib.sha1(json.dumps(rec, sort_keys=True, default=str).encode()).hexdigest()
    return v, ctx, digest


# ------------------------------------------------------------------ workers
def worker(mod, pid, tier, seed, w, nw, n, lowest, path, deadline, recheck):
    scratch = os.path.join(OUT, 'scratch', '%s-%d-%d' % (pid, os.getpid(), w))
    try:
        os.makedirs(scratch, exist_ok=True)
        gc.disable()
        tot = collections.Counter()
        states, scheds, digests, seenl = set(), set(), {}, set()
        res = dict(runs=0, viol=None, sim_s=0.0, samples=[], rechecks=0, mismatches=[], nontrivial=0)
        dig = set()
        k = 0
        for i in range(w, n, nw):
            if time.monotonic() > deadline or lowest.value < i:
                break
            plan = make_plan(mod, pid, tier, seed, i)
            v, ctx, d = execute(mod, plan, scratch)
            digests[i] = d
            res['runs'] += 1
            k += 1
            tot.update(ctx.stats)
            res['sim_s'] += ctx.sim_s
            states |= ctx.states
            scheds |= ctx.schedules
            if mod.nontrivial(ctx.stats) and not v:
                dig.add(d)
            if v is None and recheck and k % recheck == 1:
                v2, c2, d2 = execute(mod, plan, scratch)
                res['rechecks'] += 1
                if d2 != d:
                    res['mismatches'].append(i)
            if len(res['samples']) < 1 and v is None and mod.nontrivial(ctx.stats):
                res['samples'].append(dict(index=i, plan=plan, log=ctx.log[:40]))
            if v is not None:
                with lowest.get_lock():
                    lowest.value = min(lowest.value, i)
                res['viol'] = dict(index=i, plan=plan, kind=v.kind, detail=v.detail, digest=d)
                break
            if k % 20 == 0:
                gc.collect()
        res['stats'] = dict(tot)
        res['states'] = [int(x) for x in states]
        res['scheds'] = sorted(scheds)
        res['digests'] = digests
        res['distinct'] = sorted(dig)
        res['lines'] = ENGINE.total_lines
        res['calls'] = ENGINE.total_calls
        res['seen'] = sorted([f, l] for f, l in getattr(ENGINE, 'seen_lines', ()))
    except BaseException:
        res = dict(error=traceback.format_exc())
    shutil.rmtree(scratch, ignore_errors=True)
    with open(path + '.tmp', 'w') as f:
        json.dump(res, f, default=lambda x: x.item() if hasattr(x, "item") else str(x))
    os.replace(path + '.tmp', path)
    os._exit(0)


# ------------------------------------------------------------------ minimising
SHRINK_KEYS = {'steps', 'setup', 'qs', 'pre', 'ops', 'switches', 'aims', 'kills', 'threads', 'events', 'faults', 'calls', 'extra', 'pt', 'pf', 'p', 'saves', 'pieces', 'rows2'}


def _lists(x, path=()):
    if isinstance(x, dict):
        for k, v in x.items():
            if isinstance(v, list) and k in SHRINK_KEYS:
                yield path + (k,)
            yield from _lists(v, path + (k,))
    elif isinstance(x, list):
        for k, v in enumerate(x):
            yield from _lists(v, path + (k,))


def _get(x, path):
    for k in path:
        x = x[k]
    return x


def _with(plan, path, val):
    p = json.loads(json.dumps(plan))
    _get(p, path[:-1])[path[-1]] = val
    return p


def shrink(mod, viol, scratch, budget):
    t0 = time.monotonic()
    best = viol['plan']
    tries = [0]

    def fails(p):
        if time.monotonic() - t0 > budget:
            return False
        tries[0] += 1
        try:
            v, _, _ = execute(mod, p, scratch)
        except Exception:
            return False
        return v is not None and v.kind == viol['kind']

    changed, spelled = True, False
    while (changed or not spelled) and time.monotonic() - t0 < budget:
        if not changed:
            # only the schedule is left to be made smaller
            spelled = True
            _, c, _ = execute(mod, best, scratch)
            if c.concrete is None or not fails(c.concrete):
                break
            best = c.concrete
        changed = False
        for path in list(_lists(best)):
            try:
                lst = _get(best, path)
            except (KeyError, IndexError, TypeError):
                continue
            n = 2
            while len(lst) >= 1 and time.monotonic() - t0 < budget:
                size = max(1, len(lst) // n)
                for a in range(len(lst) - size, -size, -size):
                    a = max(a, 0)
                    c = lst[:a] + lst[a + size:]
                    if path[-1] == 'p' and not c:
                        continue
                    p = _with(best, path, c)
                    if fails(p):
                        best, lst, changed = p, c, True
                        break
                else:
                    if size == 1:
                        break
                    n = min(n * 2, len(lst))
        # drop optional parts
        for path in list(_dicts(best)):
            try:
                d = _get(best, path) if path else best
            except (KeyError, IndexError, TypeError):
                continue
            for k in ('inj', 'pt', 'pf', 'form', 'uform', 'o', 'U0', 'name', 'how'):
                if k in d and d[k] not in ({}, '', 'list'):
                    p = json.loads(json.dumps(best))
                    e = _get(p, path) if path else p
                    if k == 'o':
                        e[k] = {}
                    elif k in ('inj', 'pt', 'pf', 'form', 'uform', 'U0', 'how'):
                        del e[k]
                    else:
                        e[k] = ''
                    if fails(p):
                        best, changed = p, True
                        d = _get(best, path) if path else best
    return best, tries[0]


def _dicts(x, path=()):
    if isinstance(x, dict):
        yield path
        for k, v in x.items():
            yield from _dicts(v, path + (k,))
    elif isinstance(x, list):
        for k, v in enumerate(x):
            yield from _dicts(v, path + (k,))


# ------------------------------------------------------------------ commands
def known():
    p = os.path.join(ROOT, 'known_findings.json')
    if not os.path.exists(p):
        return []
    with open(p) as f:
        return [k for k in json.load(f) if k.get('status') == 'known']


def fresh_replay(path):
    r = subprocess.run([sys.executable, '-m', 'dst.run', 'replay', path, '--quiet'], cwd=ROOT, capture_output=True,
                       text=True, timeout=RUN_REAL + 300)
    return r.returncode, r.stdout + r.stderr


def replay(path, quiet=False):
    with open(path) as f:
        r = json.load(f)
    mod = load_prop(r['property'])
    scratch = os.path.join(OUT, 'scratch', 'replay-%d' % os.getpid())
    os.makedirs(scratch, exist_ok=True)
    gc.disable()
    world.preload()
    try:
        for i in r.get('before', ()):
            execute(mod, make_plan(mod, r['property'], r['tier'], r['seed'], i), scratch)
        v, ctx, d = execute(mod, r['plan'], scratch)
    finally:
        shutil.rmtree(scratch, ignore_errors=True)
    if v is None:
        print('NOT REPRODUCED')
        return 3
    same = v.kind == r['kind'] and d == r['digest']
    print('%s: %s: %s' % ('reproduced exactly' if same else 'reproduced (other details)', v.kind, v.detail))
    if not quiet:
        for l in ctx.log:
            print('   ', l)
    return 0 if same else 4


def main(argv=None):
    ap = argparse.ArgumentParser()
    ap.add_argument('what')
    ap.add_argument('file', nargs='?')
    ap.add_argument('--tier', default=os.environ.get('VERIF_TIER', 'quick'))
    ap.add_argument('--seed', type=int, default=int(os.environ.get('VERIF_SEED', '1')))
    ap.add_argument('--runs', type=int)
    ap.add_argument('--workers', type=int, default=int(os.environ.get('DST_WORKERS', '8')))
    ap.add_argument('--quiet', action='store_true')
    ap.add_argument('--digests', help='write the digest of every run to this file')
    ap.add_argument('--no-evidence', action='store_true')
    a = ap.parse_args(argv)
    if a.what == 'replay':
        return replay(a.file, a.quiet)
    pid = a.what.upper()
    mod = load_prop(pid)
    t0 = time.monotonic()
    os.makedirs(OUT, exist_ok=True)
    world.preload()
    if hasattr(mod, 'prepare'):
        mod.prepare()
    n = a.runs or mod.RUNS[a.tier]
    limit = {'quick': 420, 'thorough': 6 * 3600}[a.tier]
    work = os.path.join(OUT, 'work-%s-%d' % (pid, os.getpid()))
    os.makedirs(work)
    lowest = mp.Value('q', 1 << 60)
    nw = min(a.workers, n)
    procs = []
    for w in range(nw):
        path = os.path.join(work, '%d.json' % w)
        p = mp.get_context('fork').Process(target=worker, args=(
            mod, pid, a.tier, a.seed, w, nw, n, lowest, path, t0 + limit, getattr(mod, 'RECHECK', 50)))
        p.start()
        procs.append((p, path))
    results, errors = [], []
    for p, path in procs:
        p.join()
        if os.path.exists(path):
            with open(path) as f:
                r = json.load(f)
            if 'error' in r:
                errors.append(r['error'])
            else:
                results.append(r)
        else:
            errors.append('worker died with exit code %s' % p.exitcode)
    shutil.rmtree(work, ignore_errors=True)
    run_s = time.monotonic() - t0
    viols = sorted((r['viol'] for r in results if r['viol']), key=lambda v: v['index'])
    code = 0
    for k in known():
        if k['property'] == pid:
            print('KNOWN-FINDING: property=%s %s' % (pid, k['what']))
    viols = [v for v in viols if not any(k['property'] == pid and k['kind'] == v['kind'] and
                                         k['contains'] in v['detail'] for k in known())]
    if viols:
        v = viols[0]
        code = report(mod, pid, a, v, nw)
    elif errors:
        sys.stdout.write('ERROR in the harness\n' + errors[0])
        code = 2
    if a.digests:
        d = {}
        for r in results:
            d.update(r['digests'])
        with open(a.digests, 'w') as f:
            json.dump(dict(sorted(d.items(), key=lambda x: int(x[0]))), f)
    if not a.no_evidence:
        evidence(mod, pid, a, results, run_s, len(viols), t0)
    runs = sum(r['runs'] for r in results)
    if runs == 0:
        code = code or 2
    print('%s %s seed=%d: %d runs in %.1f s, %s' % (pid, a.tier, a.seed, runs, run_s,
                                                    'held' if code == 0 else 'exit %d' % code))
    mm = sum((r['mismatches'] for r in results), [])
    if mm:
        print('WARNING: %d runs were not repeated identically: %s' % (len(mm), mm[:10]))
    return code


def report(mod, pid, a, v, nw):
    scratch = os.path.join(OUT, 'scratch', '%s-shrink-%d' % (pid, os.getpid()))
    os.makedirs(scratch, exist_ok=True)
    os.makedirs(os.path.join(OUT, 'replay'), exist_ok=True)
    gc.disable()
    print('%s: violated in run %d: %s: %s' % (pid, v['index'], v['kind'], v['detail']))
    path = os.path.join(OUT, 'replay', '%s-seed%d-run%d.json' % (pid, a.seed, v['index']))
    base = dict(property=pid, tier=a.tier, seed=a.seed, index=v['index'])

    def attempt(plan, before=()):
        vv, ctx, d = (None, None, None)
        if not before:
            vv, ctx, d = execute(mod, plan, scratch)
            if vv is None:
                return False
            rec = dict(base, kind=vv.kind, detail=vv.detail, digest=d, plan=plan, log=ctx.log, before=[])
        else:
            rec = dict(base, kind=v['kind'], detail=v['detail'], digest=v['digest'], plan=plan, before=list(before))
        with open(path, 'w') as f:
            json.dump(rec, f, indent=1)
        try:
            rc, out = fresh_replay(path)
        except subprocess.TimeoutExpired:
            return v['kind'] == 'no progress'
        return rc in (0, 4)

    ok = False
    try:
        if v['kind'] == 'no progress':
            rec = dict(base, kind=v['kind'], detail=v['detail'], digest=v['digest'], plan=v['plan'], before=[])
            with open(path, 'w') as f:
                json.dump(rec, f, indent=1)
            ok = True
        else:
            small, tries = shrink(mod, v, scratch, float(os.environ.get('DST_SHRINK_S', '60')))
            ok = attempt(small)
            if ok:
                print('minimised in %d executions' % tries)
        if not ok:
            ok = attempt(v['plan'])
        if not ok:
            # depends on what ran before in the same process
            ok = attempt(v['plan'], range(v['index'] % nw, v['index'], nw))
        if not ok:
            print('note: the violation was observed, but a fresh process did not repeat it')
    finally:
        shutil.rmtree(scratch, ignore_errors=True)
    print('VIOLATION property=%s replay=%s' % (pid, path))
    return 1


def clean(x):
    if isinstance(x, float) and not np.isfinite(x):
        return str(x)
    if isinstance(x, dict):
        return {k: clean(v) for k, v in x.items()}
    if isinstance(x, (list, tuple)):
        return [clean(v) for v in x]
    return x


def evidence(mod, pid, a, results, run_s, nviol, t0):
    st = collections.Counter()
    states, scheds, distinct, seen = set(), set(), set(), set()
    digests = {}
    for r in results:
        st.update(r['stats'])
        states |= set(r['states'])
        scheds |= set(r['scheds'])
        distinct |= set(r['distinct'])
        digests.update(r['digests'])
        seen |= {(f, l) for f, l in r['seen']}
    runs = sum(r['runs'] for r in results)
    lines = collections.Counter()
    total = collections.Counter()
    for c in world.all_codes():
        ls = {(c.co_filename, l) for _, _, l in c.co_lines() if l}
        f = os.path.relpath(c.co_filename, world.REPO)
        total[f] += len(ls)
        lines[f] += len(ls & seen)
    probes = getattr(mod, 'PROBES', [])
    cov = dict(
        evaluations=runs, distinct_nontrivial=len(distinct), rule=mod.RULE,
        samples=[s for r in results for s in r['samples']][:2],
        runs_per_hour=round(runs / max(run_s, 1e-9) * 3600), seeds_per_hour=round(runs / max(run_s, 1e-9) * 3600),
        simulated_events=dict(lines=sum(r['lines'] for r in results), library_calls=sum(r['calls'] for r in results)),
        simulated_seconds=round(sum(r['sim_s'] for r in results), 3),
        faults={k: v for k, v in sorted(st.items()) if k.startswith('fault_')},
        fault_sites=len([k for k in st if k.startswith('where_')]),
        counters={k: v for k, v in sorted(st.items()) if not k.startswith(('fault_', 'where_'))},
        distinct_schedules=len(scheds), distinct_states=len(states),
        coverage_of_code={f: '%d/%d' % (lines[f], total[f]) for f in sorted(lines) if lines[f]},
        rare_situations={k: st.get(k, 0) for k in probes},
        rare_situations_never_reached=[k for k in probes if not st.get(k)],
        determinism=dict(rechecked=sum(r['rechecks'] for r in results),
                         mismatches=sum(len(r['mismatches']) for r in results),
                         digest=hashlib.sha1(json.dumps(sorted((int(i), d) for i, d in digests.items())).encode()).hexdigest()),
        real=mod.REAL, stubs=mod.STUBS,
    )
    os.makedirs(os.path.join(ROOT, 'evidence'), exist_ok=True)
    ev = dict(property=pid, tier=a.tier, seed=a.seed, level='exploration', coverage=cov,
              assumptions=mod.ASSUMPTIONS, wall_s=round(time.monotonic() - t0, 2), violations=nviol)
    p = os.path.join(ROOT, 'evidence', pid + '.json')
    with open(p + '.tmp', 'w') as f:
        json.dump(clean(ev), f, indent=1, default=str)
    os.replace(p + '.tmp', p)


if __name__ == '__main__':
    sys.exit(main())
