"""C15: long use holds bounded resources, and what is dropped is given back"""
import atexit
import copy
import gc
import logging
import os
import pickle
import shutil
import sys
import threading
import types
import warnings
import weakref

import numpy as np

from .. import domain as D
from .. import kernels as K
from ..disk import Disk, reset_dir
from ..engine import ENGINE
from ..gen import Gen
from ..machine import Skip, Sys, Violation
from ..world import World
from ._hist import REAL as R, STUBS as S

RUNS = {'quick': 500, 'thorough': 25000}
PROBES = ['cycles', 'measurements', 'rare_farm', 'rare_save', 'rare_failed_save', 'rare_copy', 'rare_pickle', 'rare_temporary', 'rare_temporary_farm', 'rare_unloaded', 'rare_unpicklable', 'rare_member_left',
          'rare_grown_at_first', 'fault_line_int', 'fault_line_kbd', 'fault_call_mem', 'fault_call_fpe', 'fault_console_oserror', 'fault_disk_enospc',
          'fault_disk_eio', 'fault_disk_line', 'released', 'op_bad', 'op_fbad', 'op_k', 'op_q', 'op_fq', 'op_load', 'raised']
RULE = ('one run = 1-2 turbines and 0-1 farms and a cycle of 3-9 operations (updates, queries, failing calls, copies, temporary objects, '
        'saves and loads, library calls; some cut off or failing at an injected point), executed 25 times and again 25 times '
        'and more with ever changing values; after either part the settings are brought to the same state and everything reachable '
        'from the objects and modules, the open descriptors, threads and files are counted; non-trivial = at least 50 cycles '
        'executed with a query, update or save among them; distinct by digest of the plan and the measurements')
REAL = R + ['wiz.article_blockage.helper_functions', 'coupling_examples.helper_functions', 'pickle', 'copy', 'the garbage collector']
STUBS = S + ['disk (raw files of a scratch directory with injected faults)', 'floris (absent package)']
ASSUMPTIONS = ['memory held is what the garbage collector and array bases can reach from turbines, farms and modules of the library',
               'growth counts as unbounded when it goes on between the 800th and the 2400th repetition']
W = [('pos', 1), ('wind', 2), ('yaw', 2), ('load', 3), ('q', 6), ('chi', .5), ('attr', .5), ('frame', .4), ('read', 1.2), ('bad', 1.2)]
FW = [('fq', 5), ('flay', 1.5), ('fread', 1.5), ('fbad', 1), ('fapp', 1), ('fdel', 1), ('fext', .4), ('frev', .3), ('fset', .5)]
STAGES = (25, 50, 200, 800, 2400)
SLACK = 4           # bytes for each repetition


def prepare():
    from . import c09
    c09.prepare()


def gen(rng, tier):
    g = Gen(rng)
    setup = []
    for _ in range(rng.choice([1, 1, 2])):
        o = g.new()
        setup.append(o)
        if rng.random() < 0.88:
            setup.append(g.op('load', o['t']))
    if rng.random() < 0.6:
        setup.append(g.farm(n=rng.choice([1, 2, 2])))
    w = W + (FW if g.f else [])
    w = [(a, b) for a, b in w if a in ('q', 'fq') or rng.random() < 0.6]
    cyc = []
    for o in g.history(w, rng.randint(2, 7), turbines=(0, 0), farms=(0, 0), probe=0.,
                       inj=[('line', 4), ('call', 3), ('console', 1)], inj_on=('pos', 'wind', 'yaw', 'load', 'q', 'fq', 'flay', 'read', 'frame', 'fread'), inj_p=0.3):
        if o['op'] in ('q', 'fq') and len(o['pts']['p']) > 6:
            o['pts']['p'] = o['pts']['p'][:6]
        cyc.append(o)
    for k, p in [('copy', .12), ('pickle', .12), ('temp', .2), ('tfarm', .2), ('member', .2 if g.f else 0), ('k', .3), ('save', .25), ('load_', .1)]:
        if rng.random() < p:
            o = dict(op=k, t=rng.choice(list(g.t)))
            if g.f:
                o['f'] = rng.choice(list(g.f))
                o['farm'] = rng.random() < 0.5
            if k == 'k':
                o = dict(op='k', c=K.make(rng, special=0.1))
            if k in ('temp', 'member'):
                o['load'] = rng.choice(['total', 'cyl', 'dist', 'gamma', 'cb'])
                o['odd'] = rng.random() < 0.5
            if k in ('save', 'load_'):
                o['plane'] = rng.random() < 0.5
                o['bad'] = rng.random() < 0.25
                if rng.random() < 0.6:
                    o['fault'] = dict(kind=rng.choice(['enospc', 'eio', 'line']), frac=D.rnd(rng.random()), n=rng.choice([1, 1000]))
            cyc.insert(rng.randrange(len(cyc) + 1), o)
    return dict(setup=setup, ops=cyc)


# ------------------------------------------------------------------ what is held
def held(roots, world, detail=False):
    """bytes reachable from the library's objects, classes and modules; nothing of other packages"""
    mods = {id(m.__dict__) for m in list(world.mods.values()) + list(world.extra.values()) if m is not None}
    modn = {id(m) for m in list(world.mods.values()) + list(world.extra.values()) if m is not None}
    skip = {id(world.builtins), id(world.overrides), id(sys.modules), id(os.environ)}
    seen = set()
    stack = list(roots) + [m for m in list(world.mods.values()) + list(world.extra.values()) if m is not None]
    keep = []
    n, size = 0, 0
    by = {}
    while stack:
        o = stack.pop()
        i = id(o)
        if i in seen or i in skip:
            continue
        t = type(o)
        if isinstance(o, types.ModuleType):
            if i not in modn:
                continue
        elif isinstance(o, type):
            if not str(getattr(o, '__module__', '')).startswith('wiz'):
                continue
        elif t is types.FunctionType:
            if id(o.__globals__) not in mods:
                continue
        elif t in (types.FrameType, types.CodeType, types.BuiltinFunctionType, types.GetSetDescriptorType, types.MemberDescriptorType):
            continue
        seen.add(i)
        keep.append(o)
        n += 1
        try:
            s = sys.getsizeof(o)
        except Exception:
            s = 0
        size += s
        if detail:
            by[t.__name__] = by.get(t.__name__, 0) + s
        if isinstance(o, np.ndarray):
            if o.base is not None:
                stack.append(o.base)
            if o.dtype.hasobject:
                stack.extend(o.ravel().tolist())
            d = getattr(o, '__dict__', None)
            if d:
                stack.append(d)
        elif isinstance(o, weakref.ref):
            pass
        else:
            stack.extend(gc.get_referents(o))
    return (n, size, by) if detail else (n, size)


# ------------------------------------------------------------------ values which never repeat
def jit(op, j):
    if op['op'] == 'k' or j == 0:
        return op
    f = 1 + 1e-4 * j
    o = copy.deepcopy(op)
    if 'pts' in o:
        o['pts']['p'] = [[x * f for x in p] for p in o['pts']['p']]
    if o['op'] in ('pos', 'wind'):
        o['v'] = [x * f for x in o['v']]
    elif o['op'] in ('yaw', 'chi') and o['v'] is not None:
        o['v'] *= 1 + 1e-5 * j
    elif o['op'] == 'load':
        o['spec']['ct'] *= 1 - 1e-4 * j / 3
    elif o['op'] == 'flay':
        o['rows'] = [[x * f for x in p] for p in o['rows']]
    if o.get('U0') is not None:
        o['U0'] = [x * f for x in o['U0']]
    return o


class Use:
    def __init__(self, plan, ctx):
        self.plan, self.ctx, self.st = plan, ctx, ctx.stats
        self.s = Sys(ctx=ctx)
        self.w = self.s.w
        self.w.script('wiz_abl')
        self.w.script('wiz_coupling')
        self.dir = os.path.join(ctx.scratch, 'c15')
        reset_dir(self.dir)
        self.disk = Disk(self.dir)
        self.cost = {}
        self.fds0 = fds()
        self.j = 0
        self.refs = []

    def call(self, fn, n=None, inj=None):
        kw, cons = {}, False
        lines, calls, nw = self.cost.get(n, (0, 0, 0))
        con = self.ctx.console
        if inj and inj['at'] == 'line' and lines:
            kw = dict(cancel_at=1 + int((inj['frac'] + 0.618 * self.j) % 1 * lines), exc=inj['exc'])
        elif inj and inj['at'] == 'call' and calls:
            kw = dict(fault_at=1 + int((inj['frac'] + 0.618 * self.j) % 1 * calls), exc=inj['exc'])
        elif inj and inj['at'] == 'console' and nw:
            cons = True
            con.fail_at, con.fail_for, f0 = con.n + int(inj['frac'] * nw), inj.get('for', 1), con.failed
        n0 = con.n
        out, v, l, c, fired = ENGINE.call(fn, **kw)
        if cons:
            con.fail_at = -1
            if con.failed > f0:
                fired = ('console', 'write')
        if n is not None and n not in self.cost:
            self.cost[n] = (l, c, con.n - n0)
        if fired:
            self.st['fault_%s_%s' % (inj['at'], inj['exc'] if inj['at'] != 'console' else 'oserror')] += 1
        if out == 'exc':
            self.st['raised'] += 1
            v.__context__ = v.__cause__ = None
        return out, v

    def setup(self):
        s = self.s
        for op in self.plan['setup']:
            if not s.book.valid(op):
                continue
            out, v = self.call(s.thunk(op))
            if out == 'exc':
                raise Skip()
            if op['op'] == 'new':
                s.T[op['t']] = v
            elif op['op'] == 'fnew':
                s.F[op['f']] = v
                self.st['rare_farm'] += 1
            s.book.apply(op)
        self.book0 = copy.deepcopy(s.book)
        self.st['rare_unloaded'] += any(b.load is None for b in s.book.T.values())

    # ---- one operation of the cycle
    def step(self, n, op):
        s, k = self.s, op['op']
        if k not in ('copy', 'pickle', 'temp', 'tfarm', 'member', 'save', 'load_', 'k'):
            if not s.book.valid(op):
                return
            op = jit(op, self.j)
            self.st['op_' + k] += 1
            out, v = self.call(s.thunk(op), n, op.get('inj'))
            if out == 'ok' and k not in ('q', 'fq', 'read', 'fread', 'bad', 'fbad'):
                s.book.apply(op)
            return
        if k == 'k':
            self.st['op_k'] += 1
            # other values each time
            c = self.vary(op['c'])
            f, args, kw = K.build(self.w, c)
            self.call(lambda: f(*args, **kw))
            return
        if (op.get('t') not in s.T) or ('f' in op and op['f'] not in s.F):
            return
        o = s.F[op['f']] if op.get('farm') and 'f' in op else s.T[op['t']]
        p = np.array([0.3, 1.1]) + 1e-3 * self.j
        if k == 'copy':
            self.st['rare_copy'] += 1
            out, c = self.call(lambda: copy.deepcopy(o))
            if out == 'ok':
                self.call(lambda: self.ask(c, p))
        elif k == 'pickle':
            self.st['rare_pickle'] += 1
            out, c = self.call(lambda: pickle.loads(pickle.dumps(o)))
            if out == 'ok':
                self.call(lambda: self.ask(c, p))
        elif k in ('temp', 'member'):
            f = s.F[op['f']] if k == 'member' else None
            self.st['rare_temporary' if k == 'temp' else 'rare_member_left'] += 1
            j = self.j

            def use():
                t = self.w.WindTurbine.WindTurbine(1. + 1e-3 * j, r_hub=[j, 0, 0], name='temporary %d' % j if op['odd'] else 'temporary')
                l, r = op['load'], np.array([0.2, 0.5 + 1e-5 * j, 1.]) * t.R
                if l == 'total':
                    t.update_loading(Ct=0.5, Lambda=7.)
                elif l == 'gamma':
                    t.update_loading(r=r, Gamma=np.array([3., 4. + 1e-4 * j, 2.]), Lambda=7., nCyl=2)
                else:
                    t.update_loading(r=r, Ct=np.array([.5, .6, .4]), Lambda=7. + 1e-3 * j, nCyl=2 if l == 'cyl' else None,
                                     gamma_t_Ct=(lambda c: -c - 1e-6 * j) if l == 'cb' else None)
                if op['odd']:
                    t.update_yaw_pos(1e-4 * j)
                    t.rotor_disk_points(4)
                    repr(t)
                t.compute_u(p, p, p - 3, longi=op['odd'], root=op['odd'])
                if f is not None:
                    f.append(t)
                    f.velocity_field(p, p, p)
                    f.layout
                    f.remove(t)
                return weakref.ref(t)
            out, r = self.call(use, n)
            if out == 'ok':
                self.refs.append(r)
        elif k == 'tfarm':
            self.st['rare_temporary_farm'] += 1
            j = self.j

            def group():
                f = self.w.WindFarm.WindFarm(list(s.T.values()), name='temporary %d' % j)
                r = weakref.ref(f)
                f.velocity_field(p, p, p - 3)
                f.layout
                f.WT if hasattr(f, 'WT') else None
                repr(f)
                return r
            out, r = self.call(group, n)
            if out == 'ok':
                self.refs.append(r)
        else:
            self.io(n, op, o)

    @staticmethod
    def ask(o, p):
        return o.velocity_field(p, p, p) if isinstance(o, list) else o.compute_u(p, p, p)

    def vary(self, c):
        c = copy.deepcopy(c)

        def v(x):
            if isinstance(x, bool) or isinstance(x, str) or x is None:
                return x
            if isinstance(x, float):
                return x * (1 + 1e-5 * self.j)
            if isinstance(x, list):
                return [v(y) for y in x]
            if isinstance(x, dict):
                return {a: v(b) if a not in ('fn', 'form') else b for a, b in x.items()}
            return x
        try:
            d = v(c)
            K.build(self.w, d)
            return d
        except Exception:
            return c

    def io(self, n, op, o):
        base = os.path.join(self.dir, 'x')
        abl, cpl = self.w.script('wiz_abl'), self.w.script('wiz_coupling')
        a = np.arange(12.).reshape(3, 4) + self.j
        if op['op'] == 'load_':
            fn = (lambda: cpl.loadPlane(base)) if op['plane'] else (lambda: abl.load_obj(base))
        else:
            if op.get('bad'):
                # nothing of it can be saved
                o = dict(a=a, o=o, bad=lambda: None)
                a = np.array([[o['bad']]], dtype=object)
                self.st['rare_unpicklable'] += 1
            fn = (lambda: cpl.savePlane(a[0], a[:, 0], a, a, base)) if op['plane'] else (lambda: abl.save_obj(o, base))
            self.st['rare_save'] += 1
        keep = []

        def held_error():
            try:
                return fn()
            except BaseException as e:
                keep.append((e, e.__traceback__))       # the caller looks at the error
                raise
        flt = op.get('fault')
        n0 = fds()
        kw = {}
        if flt and self.cost.get(n):
            lines, _, nops = self.cost[n]
            x = (flt['frac'] + 0.618 * self.j) % 1
            if flt['kind'] == 'line':
                kw = dict(cancel_at=1 + int(x * lines), exc='int')
            else:
                self.disk.arm(dict(kind=flt['kind'], at=int(x * nops), frac=0.5, n=flt['n']))
        with self.disk:
            if not flt or n not in self.cost:
                self.disk.arm(None)
            out, v, l, c, fired = ENGINE.call(held_error, **kw)
            if n not in self.cost:
                self.cost[n] = (l, c, self.disk.ops)
            for kd, _ in self.disk.fired:
                self.st['fault_disk_' + kd] += 1
            if fired:
                self.st['fault_disk_line'] += 1
            self.disk.arm(None)
            n1 = fds()
            if out == 'exc':
                self.st['rare_failed_save'] += op['op'] == 'save'
                # an interruption may fall between opening and the block which closes
                if n1 > n0 and not fired:
                    raise Violation('a failed call leaves files open', '%s: %d open descriptors while the error is looked at, %d before: %r' % (op['op'], n1, n0, v))
            elif n1 > n0:
                raise Violation('a call leaves files open', '%s: %d open descriptors, %d before' % (op['op'], n1, n0))
            v = None
            for e, tb in keep:
                e.__traceback__ = e.__context__ = None
            del keep[:]

    # ---- the same state again, then count
    def canonical(self):
        s = self.s
        s.book = copy.deepcopy(self.book0)
        p = np.array([0.3, 1.1, -0.4])
        calls, calls_may = [], []

        def loaded(ts):
            return set(ts) <= {op['t'] for op in self.plan['setup'] if op['op'] == 'load'}
        for op in self.plan['setup']:
            if op['op'] == 'new' and op['t'] in s.T:
                t, b = s.T[op['t']], s.book.T[op['t']]
                calls += [lambda t=t, b=b: (setattr(t, 'Ground', b.Ground), setattr(t, 'Model', b.Model), t.set_chi(None), setattr(t, 'Lambda', 5.)),
                          lambda t=t, b=b: (t.set_yaw0_coord(b.shaft, b.vert), t.update_position(b.hub), t.update_wind(b.U), t.update_yaw_pos(0.1))]
        for op in self.plan['setup']:
            if op['op'] == 'load' and op['t'] in s.T:
                calls.append(s.thunk(op))
        for op in self.plan['setup']:
            if op['op'] == 'fnew' and op['f'] in s.F:
                f = s.F[op['f']]
                calls += [lambda f=f, op=op: f.__setitem__(slice(None), [s.T[t] for t in op['ts']]), lambda f=f: f.layout]
                (calls if loaded(op['ts']) else calls_may).append(lambda f=f: f.velocity_field(p, p, p))
        for i, t in s.T.items():
            if not loaded([i]):
                calls_may += [lambda t=t: t.compute_u(p, p, p - 3, longi=True, root=True), lambda t=t: repr(t)]
                continue
            calls += [lambda t=t: t.compute_u(p, p, p - 3, longi=True, root=True), lambda t=t: repr(t), lambda t=t: t.rotor_disk_points(5)]
        for fn in calls:
            out, v = self.call(fn)
            if out == 'exc':
                raise Skip()
        for fn in calls_may:
            self.call(fn)
        with self.disk:
            abl, cpl = self.w.script('wiz_abl'), self.w.script('wiz_coupling')
            a = np.arange(12.).reshape(3, 4)
            base = os.path.join(self.dir, 'x')
            self.call(lambda: cpl.savePlane(a[0], a[:, 0], a, a, base))
            self.call(lambda: abl.save_obj(a, base))

    def measure(self):
        self.canonical()
        s = self.s
        m = held(list(s.T.values()) + list(s.F.values()), self.w)
        files = os.listdir(self.dir)
        fs = [os.path.getsize(os.path.join(self.dir, f)) for f in files]
        self.st['measurements'] += 1
        return dict(objects=m[0], bytes=m[1], descriptors=fds() - self.fds0, threads=threading.active_count(), files=len(files), stored=sum(fs), registered=registered())

    def cycles(self, upto):
        while self.j < upto:
            for n, op in enumerate(self.plan['ops']):
                self.step(n, op)
            self.s.passed = []
            self.j += 1
            self.st['cycles'] += 1


def registered():
    """what was left with the process: finalizers, exit functions, callbacks, filters, handlers, modules, variables"""
    return (len(weakref.finalize._registry) + atexit._ncallbacks() + len(gc.callbacks) + len(warnings.filters) + len(logging.root.handlers) +
            len(logging.root.manager.loggerDict) + len(sys.modules) + len(sys.path) + len(os.environ))


def fds():
    return len(os.listdir('/proc/self/fd'))


def grown(a, b, n):
    """what still grew over n repetitions"""
    out = []
    for k, least in [('bytes', SLACK * n), ('objects', n / 8.), ('descriptors', 3), ('threads', 2), ('files', max(3, n / 20.)), ('stored', SLACK * n), ('registered', max(3, n / 20.))]:
        if b[k] - a[k] > least:
            out.append(k)
    return out


def run(plan, ctx):
    u = Use(plan, ctx)
    gc.collect()
    try:
        with u.w:
            u.setup()
            u.cycles(STAGES[0])
            a = u.measure()
            ctx.log.append(['first', a['objects'], a['files'], a['threads']])
            for i in range(1, len(STAGES)):
                u.cycles(STAGES[i])
                b = u.measure()
                if grown(a, b, STAGES[i] - STAGES[i - 1]):
                    gc.collect()
                    b = u.measure()
                what = grown(a, b, STAGES[i] - STAGES[i - 1])
                if not what:
                    break
                ctx.stats['rare_grown_at_first'] += 1
                if i == len(STAGES) - 1:
                    raise Violation('held resources grow without bound', '%s: from %s to %s in %d repetitions' % (
                        ', '.join(what), [a[k] for k in what], [b[k] for k in what], STAGES[i] - STAGES[i - 1]))
                a = b
            # everything is dropped: it must go
            refs = [('turbine %d' % t, weakref.ref(o)) for t, o in u.s.T.items()]
            temps = [('temporary', r) for r in u.refs]
            u.s.T.clear()
            u.s.F.clear()
            gc.collect()
            gone(refs + temps, ctx)
    finally:
        shutil.rmtree(u.dir, ignore_errors=True)


def gone(refs, ctx):
    left = [n for n, r in refs if r() is not None]
    ctx.stats['released'] += len(refs) - len(left)
    if left:
        raise Violation('an object which nobody refers to is kept', '%s (%d of %d)' % (left[0], len(left), len(refs)))


def nontrivial(st):
    return st.get('cycles', 0) >= 50 and any(st.get(k, 0) for k in ('op_q', 'op_fq', 'op_load', 'op_wind', 'op_yaw', 'op_pos', 'rare_save'))
