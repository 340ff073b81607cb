"""C10: process-wide state is neither changed nor relied upon"""
import atexit
import builtins
import decimal
import gc
import locale
import logging
import os
import random
import shutil
import signal
import socket
import sys
import threading
import warnings

import numpy as np

from .. import domain as D
from .. import kernels as K
from ..engine import ENGINE, SimCancel
from ..gen import Gen
from ..machine import BAD_Q, BAD_T, Sys, Violation
from ..world import World
from . import c17
from ._threads import aims, kills, resolve, switches
from ._hist import ASSUMPTIONS, REAL as R, STUBS

RUNS = {'quick': 3200, 'thorough': 80000}
PROBES = ['env_fp_raise', 'env_warn_error', 'env_fp_warn', 'env_print', 'env_fp_call', 'fault_line_int', 'fault_line_kbd', 'fault_call_mem',
          'fault_call_fpe', 'fault_console_oserror', 'rare_import', 'kernel_calls', 'kernel_failed', 'op_bad', 'env_error',
          'rare_same_value_in_strange_env', 'op_load', 'op_fq', 'op_flay',
          'rare_study', 'rare_stored', 'rare_store_failed', 'op_store', 'op_plane', 'op_model', 'fault_disk_eio', 'env_collector', 'op_par', 'switches', 'aimed_runs', 'fault_thread_cut_off', 'rare_loaded_in_thread', 'rare_same_function_in_threads']
RULE = ('one run = one set of process-wide settings (floating point error handling, warning filters, print options, '
        'random generators, working directory, environment) and 4-14 imports, updates, queries and library calls under '
        'it, some failing or cut off; or, in a quarter of the runs, set-ups of studies and saves and loads of files; some of the calls are made by 2-3 simulated threads at a time; the settings are compared after each, and the values with those under default '
        'settings; non-trivial = settings other than the defaults or a fault; distinct by digest of the history')
REAL = R + ['wiz.article_blockage.helper_functions', 'numpy error state, warnings, random generators, environment of the real process']
W = [('pos', 1), ('wind', 1), ('yaw', 2), ('load', 4), ('q', 5), ('fq', 2), ('flay', 1), ('read', 2), ('fread', 1), ('bad', 2),
     ('k', 7), ('imp', .8), ('chi', .3)]
MODS = ['SelfSimilar', 'Solver', 'VortexCylinder', 'VortexCylinderSkewed', 'VortexDoublet', 'VortexLine', 'VortexPoint',
        'VortexRing', 'WindFarm', 'WindTurbine', 'elliptic']


def gen(rng, tier):
    g = Gen(rng)
    env = dict(gc=rng.random() < 0.7, fp=rng.choice(['ignore', 'warn', 'raise', 'raise', 'call', 'mixed']), warn=rng.choice(['ignore', 'error', 'error', 'default', 'always']),
               prec=rng.choice([8, 3]), thr=rng.choice([1000, 1000, 5, 0]), width=rng.choice([75, 40]), seed=rng.randrange(1000), cwd=rng.random() < 0.3)
    if rng.random() < 0.2:
        return dict(env=dict(env, cwd=False), study=study(rng, tier))
    w = [(a, b) for a, b in W if a not in ('k', 'imp')]
    inj = dict(inj=[('line', 4), ('call', 3), ('console', 1)], inj_on=('q', 'fq', 'load', 'read', 'flay'), inj_p=0.4)
    ops = g.history(w, rng.randint(2, 9), turbines=(1, 2), farms=(0, 1), probe=0., load_first=0.95, farm_n=rng.choice([None, None, None, 4, 6]), **inj)
    out = []
    for o in ops:
        out.append(o)
        if o['op'] in ('q', 'fq') and rng.random() < 0.3:
            # near, far and degenerate points together
            t = g.t.get(o.get('t'), next(iter(g.t.values())))
            o['pts'] = dict(p=[[h + x * t['R'] for h, x in zip(t['hub'], p)] for p in extremes(rng)], form='arr')
        if rng.random() < 0.3:
            c = dict(op='k', c=K.make(rng, special=0.35, xyz=extremes(rng) if rng.random() < 0.3 else None))
            if rng.random() < 0.3:
                c['inj'] = g.inj([('line', 4), ('call', 3)])
            out.append(c)
            if rng.random() < 0.3:
                out.append(dict(op='k', c=K.nudge(rng, c['c'])))
        if rng.random() < 0.04:
            out.append(dict(op='imp'))
    if rng.random() < 0.35:
        for _ in range(rng.choice([1, 1, 2])):
            out.insert(rng.randint(len(g.t), len(out)), par(g, rng))
    return dict(env=env, ops=out)


def par(g, rng):
    """calls of 2-3 threads, each with at most one turbine of its own"""
    ts, th, same = list(g.t), [], None
    n = rng.choice([2, 2, 3])
    for i in range(n):
        l = []
        for _ in range(rng.randint(1, 3)):
            x = rng.random()
            if i < len(ts) and x < 0.7:
                l.append(g.op('load' if x < 0.15 and not any(o['op'] == 'load' for o in l) else 'read' if x < 0.25 else 'q', ts[i]))
                l[-1].pop('inj', None)
                if l[-1].get('pts', {}).get('form') == 'buf':
                    l[-1]['pts']['form'] = 'arr'
                if l[-1].get('form') == 'buf':
                    l[-1]['form'] = 'arr'
            else:
                c = K.make(rng, name=same if rng.random() < 0.6 else None, special=0.2)
                same = c['fn']
                l.append(dict(op='k', c=c))
        th.append(l)
    if rng.random() < 0.6:
        return dict(op='par', threads=th, switches=[], aims=aims(rng), kills=kills(rng, n, 0.1))
    return dict(op='par', threads=th, switches=switches(rng), kills=kills(rng, n, 0.25))


def study(rng, tier):
    ops = c17.gen(rng, tier)['ops']
    if rng.random() < 0.7:
        ops = [o for o in ops if o['op'] != 'par']
    for _ in range(rng.choice([1, 1, 2, 3])):
        o = dict(op='store', how=rng.choice(['save', 'save', 'load', 'unpicklable']), v=rng.randrange(100), name=rng.choice(['a', 'b', 'none']))
        if rng.random() < 0.4:
            o['inj'] = c17.inj(rng, 'plane')
        ops.insert(rng.randrange(len(ops) + 1), o)
    return ops


def extremes(rng):
    def far():
        return [D.rnd(rng.uniform(-1, 1) * rng.choice([12, 60, 400])) for _ in range(3)]

    def near():
        return [D.rnd(rng.uniform(-2, 2)) for _ in range(3)]

    def odd():
        z = D.rnd(rng.uniform(-3, 3))
        return rng.choice([[0., 0., 0.], [0., 0., 0.], [0., 0., z], [z, 0., 0.], [1., 0., z], [0., 1., 0.]])
    l = [odd()] + [rng.choice([far, far, near, odd])() for _ in range(rng.choice([1, 2, 4]))]
    rng.shuffle(l)
    return l


def _ignore(*a):
    pass


def state():
    rs = np.random.get_state()
    po = np.get_printoptions()
    return dict(
        fp=np.geterr(), fpcall=np.geterrcall(), bufsize=np.getbufsize(),
        filters=[tuple(map(repr, f)) for f in warnings.filters], showwarning=warnings.showwarning,
        printoptions=repr(sorted(po.items())), np_random=(rs[0], rs[1].tobytes(), rs[2]), random=hash(random.getstate()),
        environ=dict(os.environ), cwd=os.getcwd(), path=list(sys.path), streams=[id(x) for x in (sys.stdin, sys.stdout, sys.stderr)],
        recursion=sys.getrecursionlimit(), trace=sys.gettrace(), profile=sys.getprofile(), hook=sys.excepthook,
        displayhook=sys.displayhook, loglevel=logging.getLogger().level, loghandlers=list(map(id, logging.getLogger().handlers)),
        logdisable=logging.root.manager.disable, locale=locale.setlocale(locale.LC_ALL),
        signals=[repr(signal.getsignal(x)) for x in (signal.SIGINT, signal.SIGTERM, signal.SIGHUP, signal.SIGALRM, signal.SIGUSR1, signal.SIGPIPE, signal.SIGFPE)],
        alarm=signal.getitimer(signal.ITIMER_REAL)[0] > 0, gc=(gc.isenabled(), gc.get_threshold(), gc.get_debug(), len(gc.callbacks), gc.get_freeze_count()),
        umask=_umask(), decimal=repr(decimal.getcontext()), switch=sys.getswitchinterval(), atexit=atexit._ncallbacks(),
        threadhooks=[id(threading.excepthook), id(sys.unraisablehook), threading.gettrace(), threading.getprofile(), threading.stack_size()],
        timeout=socket.getdefaulttimeout(), bytecode=sys.dont_write_bytecode, finders=[id(x) for x in sys.meta_path + sys.path_hooks],
        builtins={k: id(v) for k, v in vars(builtins).items() if k not in ('_', 'open')}, backend=_backend(), excepthook=id(sys.excepthook))


def _umask():
    m = os.umask(0o22)
    os.umask(m)
    return m


def _backend():
    m = sys.modules.get('matplotlib')
    return None if m is None else [m.is_interactive(), str(dict.get(m.rcParams, 'backend')), m.rcParams['font.size'], m.rcParams['figure.figsize'], m.rcParams['text.usetex'],
                                   m.rcParams['axes.labelsize'], m.rcParams['image.cmap'], m.rcParams['savefig.dpi']]


def diff(a, b, what):
    for k in a:
        if a[k] != b[k]:
            x, y = str(a[k]), str(b[k])
            raise Violation('process state changed: ' + k, '%s: %s instead of %s' % (what, y[:150], x[:150]))


class Env:
    """the strange settings, in force while the code under test runs"""
    def __init__(self, e, ctx):
        self.e, self.ctx = e, ctx
        self.what = ''

    def seterr(self):
        fp = self.e['fp']
        if fp == 'mixed':
            np.seterr(divide='raise', over='ignore', under='ignore', invalid='warn')
        elif fp == 'call':
            np.seterrcall(_ignore)
            np.seterr(all='call')
        else:
            np.seterr(all=fp)
            np.seterr(under='ignore')

    def thread(self, fn):
        """fn in a thread of its own, which has its own floating point settings"""
        def go():
            self.seterr()
            a = np.geterr(), np.geterrcall(), np.getbufsize()
            try:
                return fn()
            finally:
                b = np.geterr(), np.geterrcall(), np.getbufsize()
                if a != b:
                    self.left = '%s instead of %s' % (b, a)
        return go

    def threads(self, fns, switches, kills=(), trace=False):
        self.left = None
        sim = self.call([self.thread(f) for f in fns], run=lambda f: ('threads', ENGINE.threads(f, switches, kills, trace)))[1]
        if self.left:
            raise Violation('process state changed: fp', '%s (a thread): %s' % (self.what, self.left))
        return sim

    def call(self, fn, run=ENGINE.call, **kw):
        e = self.e
        old = np.geterr(), np.geterrcall(), list(warnings.filters), np.get_printoptions(), np.random.get_state(), \
            random.getstate(), os.getcwd(), warnings.showwarning, (gc.isenabled(), gc.get_threshold())
        try:
            self.seterr()
            warnings.filters[:] = []
            warnings.simplefilter(e['warn'])
            warnings.showwarning = _ignore
            np.set_printoptions(precision=e['prec'], threshold=e['thr'], linewidth=e['width'], suppress=e['prec'] == 3,
                                edgeitems=2 + e['prec'] % 2)
            np.random.seed(e['seed'])
            random.seed(e['seed'])
            if e['cwd']:
                os.chdir(self.ctx.scratch)
            os.environ['DST_PROBE'] = 'x'
            if e.get('gc'):         # enabled, but never due
                gc.set_threshold(10**9, 10**6, 10**6)
                gc.enable()
            before = state()
            r = run(fn, **kw)
            after = state()
        finally:
            (gc.enable if old[8][0] else gc.disable)()
            gc.set_threshold(*old[8][1])
            np.seterr(**old[0])
            np.seterrcall(old[1])
            warnings.filters[:] = old[2]
            warnings._filters_mutated()
            np.set_printoptions(**old[3])
            np.random.set_state(old[4])
            random.setstate(old[5])
            os.chdir(old[6])
            warnings.showwarning = old[7]
            os.environ.pop('DST_PROBE', None)
            sys.stdout = self.ctx.console
        diff(before, after, '%s (%s)' % (self.what, r[0]))
        self.ctx.stats['states_compared'] += 1
        return r


def of_env(v):
    return isinstance(v, (FloatingPointError, Warning))


def run(plan, ctx):
    st = ctx.stats
    env = Env(plan['env'], ctx)
    e = plan['env']
    st['env_collector'] += bool(e.get('gc'))
    if 'study' in plan:
        return Strange(ctx, env).play(plan)
    s = Sys(ctx=ctx)
    s.call = env.call
    st['env_fp_raise'] += e['fp'] in ('raise', 'mixed')
    st['env_fp_warn'] += e['fp'] in ('warn', 'mixed')
    st['env_fp_call'] += e['fp'] == 'call'
    st['env_warn_error'] += e['warn'] == 'error'
    st['env_print'] += e['prec'] != 8
    pristine = World()
    with s.w:
        for op in plan['ops']:
            k = op['op']
            env.what = k
            if k == 'imp':
                st['rare_import'] += 1
                out, v, _, _, _ = env.call(lambda: World(MODS))
                if out == 'exc' and not of_env(v):
                    raise Violation('import fails', repr(v))
                continue
            if k == 'k':
                kernel(s, op, env, pristine, ctx)
                continue
            if k == 'par':
                st['op_par'] += 1
                parallel(s, op, env, pristine, ctx, plan)
                continue
            if not s.book.valid(op):
                continue
            st['op_' + k] += 1
            env.what = '%s %s' % (k, op.get('what', ''))
            out, v, fired = s.execute(op)
            ctx.log.append((k, out, type(v).__name__ if out == 'exc' else '', bool(fired)))
            if out == 'exc' and of_env(v) and not fired:
                st['env_error'] += 1
            bad = out == 'exc' and (fired or of_env(v))
            if k in ('new', 'fnew'):
                if out == 'exc':
                    if not bad:
                        raise Violation('construction raised', repr(v))
                    # build it under default settings
                    v = s.thunk(op)()
                (s.T if k == 'new' else s.F)[op['t' if k == 'new' else 'f']] = v
                s.book.apply(op)
            elif k in ('q', 'fq'):
                if bad:
                    continue
                (s.check_query if k == 'q' else s.check_fq)(op, out, v)
                st['rare_same_value_in_strange_env'] += 1
            elif k in ('read', 'fread'):
                if out == 'exc' and not bad:
                    raise Violation('reading %s raised' % op['what'], repr(v))
            elif k in ('bad', 'fbad'):
                if out == 'ok' and op['what'] not in BAD_Q:
                    return
            else:
                if out == 'exc' and not bad:
                    raise Violation('update raised', '%s: %r' % (k, v))
                if out == 'exc':
                    s.thunk(op)()
                s.book.apply(op)
        s.call = None
        s.final()


class Strange(c17.Study):
    """set-ups, evaluations, saves and loads of the studies under the strange settings"""
    def __init__(self, ctx, env):
        super().__init__(ctx)
        self.env = env
        self.exec, self.excused, self.run_threads = env.call, of_env, env.threads
        self.stored = {}

    def play(self, plan):
        self.st['rare_study'] += 1
        try:
            self.run(dict(ops=plan['study']))
        finally:
            shutil.rmtree(self.dir, ignore_errors=True)

    def step(self, o):
        self.env.what = o['op']
        if o['op'] == 'store':
            self.store(o)
        else:
            super().step(o)

    def store(self, o):
        m, n = self.m, o['name']
        x = dict(v=o['v'], a=np.arange(o['v']) * .5, b='x' * o['v'])
        if o['how'] == 'unpicklable':
            x['c'] = lambda: None
        out, v, fired = self.injected(o, (lambda: m.load_obj(n)) if o['how'] == 'load' else (lambda: m.save_obj(x, n)),
                                      dryfn=(lambda: World().script('wiz_abl').load_obj(n)) if o['how'] == 'load' else (lambda: World().script('wiz_abl').save_obj(x, 'dry')))
        self.ctx.log.append(('store', o['how'], out, bool(fired)))
        self.st['rare_store_failed'] += out == 'exc'
        if o['how'] == 'load':
            if out == 'ok' and not fired:
                if n not in self.stored:
                    raise Violation('loaded what was not saved', repr(v))
                e = self.stored[n]
                if e is not None and (v['v'], v['b'], v['a'].tolist()) != (e['v'], e['b'], e['a'].tolist()):
                    raise Violation('another object is loaded', '%r instead of %r' % (v, e))
            elif not fired and self.stored.get(n) is not None:
                raise Violation('loading fails', repr(v))
        elif out == 'ok':
            self.st['rare_stored'] += 1
            self.stored[n] = x
        else:
            if not fired and o['how'] == 'save':
                raise Violation('saving fails', repr(v))
            if n in self.stored or fired:
                self.stored[n] = None           # C09's business


def prepare():
    c17.prepare()


def thunks(s, op, T=None, F=None, w=None):
    items = []
    for th in op['threads']:
        l = []
        for o in th:
            if o['op'] == 'k':
                f, a, kw = K.build(w or s.w, o['c'])
                l.append((o, (lambda f=f, a=a, kw=kw: f(*a, **kw))))
            elif s.book.valid(o):
                l.append((o, s.thunk(o, T, F, w)))
        items.append(l)
    return items


def body(l, out):
    def go():
        for o, fn in l:
            try:
                out.append(('ok', fn()))
            except (Exception, SimCancel, KeyboardInterrupt) as x:
                x.__traceback__ = None
                out.append(('exc', x))
    return go


def parallel(s, op, env, pristine, ctx, plan):
    st = ctx.stats
    sw = op['switches']
    if op.get('aims') and len(op['threads']) > 1:
        # what each does when alone, on twins
        st['aimed_runs'] += 1
        w = World()
        with w:
            T = {t: D.build(w, b) for t, b in s.book.T.items()}
            sw = resolve(op['aims'], [env.threads([body(l, [])], [], trace=True).trace for l in thunks(s, op, T, {}, w)[:2]], len(op['threads']))
        c = ctx.concrete or plan
        ctx.concrete = dict(c, ops=[dict(o, switches=sw, aims=[]) if o is op else o for o in c['ops']])
    items = thunks(s, op)
    fns = [{o['c']['fn'] for o, _ in l if o['op'] == 'k'} for l in items]
    st['rare_same_function_in_threads'] += any(a & b for i, a in enumerate(fns) for b in fns[:i])
    outs = [[] for _ in items]
    sim = env.threads([body(l, o) for l, o in zip(items, outs)], sw, op['kills'])
    if sim.hung or sim.deadlock:
        raise Violation('no progress', 'threads wait for each other')
    for t in sim.T:
        if t.out[0] == 'exc':
            raise Violation('a thread died', repr(t.out[1]))
    ctx.schedules.add(sim.h.hexdigest()[:16])
    st['switches'] += sim.nswitch
    st['fault_thread_cut_off'] += len(sim.killed)
    killed = {a[0] for a in sim.killed}
    for j, (l, r) in enumerate(zip(items, outs)):
        for (o, fn), (out, v) in zip(l, r):
            k = o['op']
            ctx.log.append((j, k, out))
            if k == 'load':
                st['rare_loaded_in_thread'] += 1
                if out == 'exc':
                    if j not in killed and not of_env(v):
                        raise Violation('update raised', '%s: %r' % (k, v))
                # later ones of this thread were asked before it was done
                if out == 'exc' or j in killed:
                    s.thunk(o)()
                    s.book.apply(o)
                    break
                s.book.apply(o)
            elif j in killed or (out == 'exc' and of_env(v)):
                continue
            elif k == 'q':
                s.check_query(o, out, v, reference=False)
            elif k == 'k':
                f, a, kw = K.build(pristine, o['c'])
                with pristine:
                    out0, v0, _, _, _ = ENGINE.call(lambda: f(*a, **kw))
                if out != out0:
                    raise Violation('a function answers otherwise under other process settings', '%s: %r, %r' % (o['c']['fn'], v, v0))
                d = out == 'ok' and K.same(K.norm(v), K.norm(v0))
                if d:
                    raise Violation('values depend on process settings', '%s: %s' % (o['c']['fn'], d))
            elif out == 'exc' and k == 'read':
                raise Violation('reading %s raised' % o['what'], repr(v))


def kernel(s, op, env, pristine, ctx):
    st = ctx.stats
    c = op['c']
    st['kernel_calls'] += 1
    env.what = c['fn']
    f, a, kw = K.build(pristine, c)
    with pristine:
        out0, v0, lines, calls, _ = ENGINE.call(lambda: f(*a, **kw))
    f, a, kw = K.build(s.w, c)
    inj, ik = op.get('inj'), {}
    if inj and inj['at'] == 'line' and lines:
        ik = dict(cancel_at=1 + int(inj['frac'] * lines), exc=inj['exc'])
    elif inj and inj['at'] == 'call' and calls:
        ik = dict(fault_at=1 + int(inj['frac'] * calls), exc=inj['exc'])
    out, v, _, _, fired = env.call(lambda: f(*a, **kw), **ik)
    ctx.log.append(('k', c['fn'], out, type(v).__name__ if out == 'exc' else ''))
    if fired:
        st['fault_%s_%s' % (inj['at'], inj['exc'])] += 1
    if out == 'exc':
        st['kernel_failed'] += 1
        if not fired and not of_env(v) and out0 == 'ok':
            raise Violation('a function fails under other process settings', '%s: %r' % (c['fn'], v))
        return
    if out0 == 'exc':
        if fired:
            return
        raise Violation('a function works only under other process settings', '%s: %r' % (c['fn'], v0))
    d = K.same(K.norm(v), K.norm(v0))
    if d:
        raise Violation('values depend on process settings' if not fired else 'a failure goes unnoticed', '%s: %s' % (c['fn'], d))
    st['rare_same_value_in_strange_env'] += 1


def nontrivial(st):
    return st.get('states_compared', 0) > 2
