"""C16: a coupled computation which fails and is resumed gives what the undisturbed one gives"""
import copy
import math
import os
import pickle
import shutil

import numpy as np

from .. import domain as D
from ..disk import Disk, reset_dir
from ..engine import ENGINE, SimCrash
from ..gen import Gen, pick
from ..machine import BAD_T, Skip, Sys, Violation, clear_mask
from ..world import World
from ._hist import ASSUMPTIONS, REAL as R, STUBS as S

RUNS = {'quick': 1500, 'thorough': 50000}
PROBES = ['steps', 'answers_compared', 'saves', 'restarts', 'rare_redone_step', 'rare_retried', 'rare_from_the_start', 'rare_older_checkpoint',
          'rare_save_failed', 'rare_saved_during_query', 'rare_moved', 'rare_membership', 'rare_commissioned', 'rare_two_farms', 'rare_one_name', 'rare_died_between',
          'rare_died_in_update', 'rare_rejected_update', 'fault_line_int', 'fault_line_kbd', 'fault_call_mem', 'fault_call_fpe', 'fault_disk_crash', 'fault_disk_enospc',
          'fault_disk_eio', 'fault_disk_short', 'fault_disk_line', 'rare_layout', 'rare_turbine_not_in_a_farm', 'rare_gamma_scaled', 'rare_frame', 'rare_lean']
RULE = ('one run = a coupled computation of 2-7 steps on 1-4 turbines in 1-2 farms: the velocities answered in a step determine winds, yaw '
        'positions, loadings, layouts of the next; it is executed once undisturbed and once with 1-6 faults (process death, '
        'interrupts, failing library calls, full disks and I/O errors in saves), being retried, redone or resumed from the last '
        'complete checkpoint; all velocities of all steps are compared; non-trivial = at least one fault took effect; distinct by digest '
        'of the history')
REAL = R + ['wiz.article_blockage.helper_functions (save_obj, load_obj)', 'pickle', 'buffered files of the standard library']
STUBS = S + ['disk (raw files of a scratch directory with injected faults)', 'the control model (a smooth function of the velocities)']

PRE = [('fapp', 3), ('fins', 2), ('fdel', 2), ('frem', 1), ('frev', 1), ('fset', 1), ('fext', 1), ('gamx', 1), ('com', 2)]
ACT = [('wind', 5), ('yaw', 5), ('load', 5), ('pos', 1.5), ('flay', 1.5), ('chi', 1), ('attr', .7), ('frame', .4)]
ORDER = {'frame': 0, 'attr': 1, 'flay': 2, 'pos': 2, 'wind': 3, 'yaw': 4, 'chi': 5, 'load': 6}
ABSOLUTE = set(ORDER)


def gen(rng, tier):
    g = Gen(rng)
    setup = []
    for _ in range(rng.choice([1, 2, 2, 3, 4])):
        o = g.new()
        setup += [o, g.op('load', o['t'])]
    for _ in range(rng.choice([1, 1, 2])):
        setup.append(g.farm(n=rng.choice([1, 2, 3])))
    act = [(a, b) for a, b in ACT if rng.random() < 0.75] or ACT
    p_pre = rng.choice([0, 0.2, 0.6])
    steps = []
    for _ in range(rng.randint(2, 7)):
        pre, acts, qs = [], [], []
        while rng.random() < p_pre and len(pre) < 4:
            k = pick(rng, PRE)
            if k == 'com':
                if len(g.t) > 5:
                    continue
                o = g.new()
                pre += [o, g.op('load', o['t'])]
                f = rng.choice(list(g.f))
                g.f[f].append(o['t'])
                pre.append(dict(op='fapp', f=f, t=o['t']))
            elif k[0] == 'f':
                pre.append(g.fop(k, rng.choice(list(g.f))))
            else:
                pre.append(g.op(k, rng.choice(list(g.t))))
        for f in g.f:
            o = g.fop('fq', f)
            o['pts']['p'] = o['pts']['p'][:8]
            qs.append(o)
        for t in g.t:
            if rng.random() < 0.4:
                o = g.op('q', t)
                o['pts']['p'] = o['pts']['p'][:8]
                qs.append(o)
        for _ in range(rng.randint(0, 5)):
            k = pick(rng, act)
            acts.append(g.fop(k, rng.choice(list(g.f))) if k == 'flay' else g.op(k, rng.choice(list(g.t))))
        acts.sort(key=lambda o: ORDER[o['op']])
        steps.append(dict(pre=pre, qs=qs, ops=acts, save=rng.random() < 0.8, name=0, during=rng.random() < 0.15, move=rng.random() < 0.1))
    names = rng.choice([1, 2, 2])
    faults = []
    for _ in range(rng.randint(1, 6)):
        k = rng.randrange(len(steps))
        kind = pick(rng, [('line', 4), ('call', 3), ('die', 2), ('disk', 5), ('bad', 1)])
        f = dict(step=k, kind=kind, frac=D.rnd(rng.random(), 5), then=rng.choice(['retry', 'redo', 'restart']), at=D.rnd(rng.random()))
        if kind == 'line':
            f['exc'] = rng.choice(['int', 'int', 'kbd'])
        elif kind == 'call':
            f['exc'] = rng.choice(['mem', 'mem', 'fpe'])
        elif kind == 'bad':
            f['what'] = rng.choice(BAD_T)
        elif kind == 'disk':
            f['disk'] = rng.choice(['crash', 'crash', 'crash', 'enospc', 'eio', 'short', 'line'])
            f['n'] = rng.choice([1, 1, 2, 1000])
            f['cut'] = rng.choice([D.rnd(rng.random()), 0., 1.])
        faults.append(f)
    lean = rng.random() < 0.35
    if lean and rng.random() < 0.6:
        # little changes from step to step
        for st in steps:
            st['pre'] = st['pre'][:rng.choice([0, 0, 1])]
            t = rng.choice(list(g.t))
            st['ops'] = [o for o in st['ops'] if o.get('t') == t or rng.random() < 0.2]
    return dict(setup=setup, steps=steps, faults=faults, names=names, lean=lean, tick=rng.choice([0, 0, 1, 10**9, -10**9]))


def modulated(op, x):
    """the control model: how the answers of the last step change what is done next"""
    o = copy.deepcopy(op)
    k = o['op']
    if k in ('pos', 'wind'):
        o['v'] = [v * (1 + 0.05 * x) for v in o['v']]
    elif k == 'yaw':
        o['v'] = o['v'] + 0.05 * x
    elif k == 'chi' and o['v'] is not None:
        o['v'] = o['v'] + 0.02 * x
    elif k == 'load':
        o['spec']['ct'] *= 1 - 0.03 * abs(x)
    elif k == 'flay':
        o['rows'] = [[v * (1 + 0.05 * x) for v in r] for r in o['rows']]
    return o


class Died(Exception):
    pass


class Redo(Exception):
    pass


class Coupling:
    """one process image carrying out the computation"""
    def __init__(self, plan, ctx, tw, w=None):
        self.plan, self.ctx, self.st = plan, ctx, ctx.stats
        self.s = Sys(w, ctx=ctx)
        self.s.tw = tw
        self.k = 0
        self.x = 0.
        self.hist = []
        self.entered = False        # the membership changes of step k have been made

    # ---- the velocities of a step
    def answer(self, op, out, v):
        s = self.s
        if out == 'exc':
            return ('exc', type(v).__name__, None, 0.)
        P = op['pts']['p']
        if op['op'] == 'fq':
            m = s.book.F[op['f']]
        else:
            m = [op['t']]
        ok = np.ones(len(np.asarray(P, float).reshape(-1, 3)), bool)
        sc = 1e-3
        for t in m:
            b = s.book.T[t]
            gt = s.tw.gamma(b)
            g = np.atleast_1d(gt.gamma_t) if gt.gamma_t is not None else [0]
            radii = [b.R] if len(g) == 1 or gt.r is None else list(np.atleast_1d(gt.r))
            ok &= clear_mask(b, P, radii)
            sc += D.scale_of(b, g)
        return ('ok', D.flat(v), ok, sc)

    def feedback(self, V):
        x = 0.
        for out, v, ok, sc in V:
            if out == 'ok' and ok.any():
                u = v[:, ok]
                u = u[np.isfinite(u) & (np.abs(u) < 1e3 * sc)]
                x += float(np.sum(u)) / (sc * 10)
        return math.sin(x)

    def simple(self, op):
        """no faults"""
        out, v, _, _, _ = ENGINE.call(self.s.thunk(op))
        return out, v

    def done(self, op, v):
        s = self.s
        if op['op'] == 'new':
            s.T[op['t']] = v
        elif op['op'] == 'fnew':
            s.F[op['f']] = v
        s.book.apply(op)

    def setup(self):
        for op in self.plan['setup']:
            if self.s.book.valid(op):
                out, v = self.simple(op)
                if out == 'exc':
                    raise Violation('setting up raised', '%s: %r' % (op['op'], v))
                self.done(op, v)


def undisturbed(plan, ctx, tw):
    """the computation without faults; the velocities of each step"""
    c = Coupling(plan, ctx, tw)
    out = []
    with c.s.w:
        c.setup()
        for st in plan['steps']:
            for op in st['pre']:
                if c.s.book.valid(op):
                    o, v = c.simple(op)
                    if o == 'exc':
                        raise Violation('update raised', '%s: %r' % (op['op'], v))
                    c.done(op, v)
            V = []
            for op in st['qs']:
                if c.s.book.valid(op):
                    V.append(c.answer(op, *c.simple(op)))
            c.x = c.feedback(V)
            for op in st['ops']:
                op = modulated(op, c.x)
                if c.s.book.valid(op):
                    o, v = c.simple(op)
                    if o == 'exc':
                        raise Violation('update raised', '%s: %r' % (op['op'], v))
                    c.done(op, v)
            out.append(V)
    return out


class Driver:
    """carries the computation through faults"""
    def __init__(self, plan, ctx):
        self.plan, self.ctx, self.st = plan, ctx, ctx.stats
        self.tw = None
        self.dir = os.path.join(ctx.scratch, 'c16')
        self.dry = os.path.join(ctx.scratch, 'c16dry')
        reset_dir(self.dir)
        self.disk = Disk(self.dir)
        self.books = {}             # number of the save -> (step, book, steps' answers, x)
        self.last = None            # number of the last complete save
        self.tried = {}             # name -> numbers of saves begun under it since the last one which was completed, and that one
        self.nsave = 0
        self.mid = set()
        self.names = {}
        self.faults = [dict(f) for f in plan['faults']]

    def fault(self, k, i, n):
        """the fault due at item i of n of step k, once"""
        for f in self.faults:
            if f['step'] == k and f['kind'] != 'disk' and int(f['at'] * n) == i:
                self.faults.remove(f)
                return f
        return None

    def disk_fault(self, k):
        for f in self.faults:
            if f['step'] == k and f['kind'] == 'disk':
                self.faults.remove(f)
                return f
        return None

    def run(self):
        from ..machine import Twins
        self.tw = Twins()
        self.want = undisturbed(self.plan, self.ctx, self.tw)
        c = self.start()
        lives = 0
        n = len(self.plan['steps'])
        while True:
            try:
                while c.k < n:
                    with c.s.w:
                        self.step(c)
                    if self.plan['steps'][c.k - 1].get('move'):
                        self.move(c)
                break
            except Died:
                lives += 1
                if lives > len(self.plan['faults']) + 1:
                    raise Violation('no progress', 'after %d restarts' % lives)
                self.st['restarts'] += 1
                c = self.resume()
        with c.s.w:
            c.s.final()
        self.ctx.log.append(('lives', lives))

    def start(self):
        c = Coupling(self.plan, self.ctx, self.tw)
        with c.s.w:
            c.s.w.script('wiz_abl')
            c.setup()
        return c

    # ---- one operation with the fault due there
    def do(self, c, op, f, absolute):
        s = c.s
        if f is None:
            out, v = c.simple(op)
            return out, v
        if f['kind'] == 'bad':
            # a rejected update in between
            if 't' in op and op['t'] in s.T:
                out, v, _, _, _ = ENGINE.call(s.thunk(dict(op='bad', t=op['t'], what=f['what'])))
                if out == 'ok':
                    raise Skip()
                self.st['rare_rejected_update'] += 1
            return c.simple(op)
        if f['kind'] == 'die':
            self.st['rare_died_between'] += 1
            raise Died()
        o = dict(op, inj=dict(at=f['kind'], frac=f['frac'], exc=f['exc']))
        out, v, fired = s.execute(o)
        if not fired:
            return out, v
        self.effect += 1
        if op['op'] in ('q', 'fq', 'read'):
            # asked again
            if f['then'] == 'restart':
                raise Died()
            self.st['rare_retried'] += 1
            return c.simple(op)
        if out == 'ok':
            return out, v           # the fault was handled inside
        if fired[0] == 'fault':
            # failed: nothing has changed
            if f['then'] == 'restart':
                self.st['rare_died_in_update'] += 1
                raise Died()
            if f['then'] == 'redo' and absolute:
                raise Redo()
            self.st['rare_retried'] += 1
            return c.simple(op)
        if f['then'] == 'restart' or not absolute:
            self.st['rare_died_in_update'] += 1
            raise Died()
        if f['then'] == 'redo':
            raise Redo()
        self.st['rare_retried'] += 1
        return c.simple(op)

    def step(self, c):
        st = self.plan['steps'][c.k]
        s = c.s
        self.effect = 0
        n = len(st['pre']) + len(st['qs']) + len(st['ops'])
        self.st['steps'] += 1
        i = 0
        for op in st['pre']:
            f = self.fault(c.k, i, n)
            i += 1
            if c.entered:
                continue            # done before the state was saved
            if not s.book.valid(op):
                continue
            out, v = self.do(c, op, f, False)
            if out == 'exc':
                raise Violation('update raised', '%s: %r' % (op['op'], v))
            c.done(op, v)
            self.st['rare_membership'] += op['op'] in ('fapp', 'fins', 'fdel', 'frem', 'frev', 'fset', 'fext')
            self.st['rare_commissioned'] += op['op'] == 'new'
            self.st['rare_gamma_scaled'] += op['op'] == 'gamx'
        c.entered = False
        self.st['rare_two_farms'] += len(s.F) > 1
        self.st['rare_turbine_not_in_a_farm'] += any(all(t not in m for m in s.book.F.values()) for t in s.book.T)
        V, want = [], self.want[c.k]
        saved = None
        for op in st['qs']:
            f = self.fault(c.k, i, n)
            i += 1
            if not s.book.valid(op):
                continue
            if st['during'] and saved is None and f is None and c.k:
                out, v, saved = self.save_during(c, op)
            else:
                out, v = self.do(c, op, f, True)
            V.append(c.answer(op, out, v))
            self.compare(c, op, V[-1], want[len(V) - 1])
        x = c.feedback(V)
        while True:
            try:
                j = i
                for op in st['ops']:
                    f = self.fault(c.k, j, n)
                    j += 1
                    op = modulated(op, x)
                    if not s.book.valid(op):
                        continue
                    self.st['rare_layout'] += op['op'] == 'flay'
                    self.st['rare_frame'] += op['op'] == 'frame'
                    out, v = self.do(c, op, f, True)
                    if out == 'exc':
                        raise Violation('update raised', '%s: %r' % (op['op'], v))
                    c.done(op, v)
                break
            except Redo:
                self.st['rare_redone_step'] += 1
        c.x = x
        c.k += 1
        c.hist.append([a[1].copy() if a[0] == 'ok' else a[1] for a in V])
        self.ctx.log.append(('step', c.k, float('%.5g' % x)))
        if st['save']:
            self.save(c, self.disk_fault(c.k - 1))

    def compare(self, c, op, a, b):
        self.st['answers_compared'] += 1
        where = 'step %d, %s of %s %d' % (c.k, 'field' if op['op'] == 'fq' else 'velocity', 'farm' if op['op'] == 'fq' else 'turbine', op.get('f', op.get('t')))
        if a[0] != b[0]:
            raise Violation('the resumed computation differs', '%s: %s instead of %s' % (where, a[:2], b[:2]))
        if a[0] == 'exc':
            return
        d = D.close(a[1], b[1], 1e-7 * b[3], np.array([a[2] & b[2]] * 3))
        if d:
            raise Violation('the resumed computation differs', '%s: %s' % (where, d))

    # ---- checkpoints
    def payload(self, c):
        if self.plan.get('lean'):
            # checkpoints of equal length, which differ only in part
            self.st['rare_lean'] += 1
            return dict(farms=c.s.F, turbines=c.s.T, x=c.x, step=c.k, number=self.nsave)
        return dict(number=self.nsave, step=c.k, x=c.x, farms=c.s.F, turbines=c.s.T, answers=c.hist)

    def begin(self, c):
        self.nsave += 1
        self.disk.clock += self.plan.get('tick', 0)
        # not over the last complete one, if there is a choice
        name = 'checkpoint0'
        if self.plan['names'] == 2 and self.last is not None and self.names[self.last] == name:
            name = 'checkpoint1'
        self.names[self.nsave] = name
        self.books[self.nsave] = (c.k, copy.deepcopy(c.s.book), copy.deepcopy(c.hist), c.x)
        self.tried.setdefault(name, []).append(self.nsave)
        self.st['saves'] += 1
        self.st['rare_one_name'] += self.plan['names'] == 1
        if self.last is not None and self.name(self.last) == name:
            self.last = None
        return name

    def name(self, number):
        return self.names[number]

    def complete(self, number):
        self.last = number
        self.tried[self.name(number)] = [number]

    def save(self, c, fault):
        name = self.begin(c)
        number = self.nsave
        w, f = c.s.w, c.s.w.script('wiz_abl').save_obj
        p = self.payload(c)
        kw, arm = {}, None
        if fault:
            reset_dir(self.dry)
            for x in os.listdir(self.dir):
                shutil.copy(os.path.join(self.dir, x), self.dry)
            dd = Disk(self.dry)
            with dd:
                _, _, lines, _, _ = ENGINE.call(lambda: f(p, os.path.join(self.dry, name)))
            if fault['disk'] == 'line':
                kw = dict(cancel_at=1 + int(fault['frac'] * lines), exc='int')
            else:
                arm = dict(kind=fault['disk'], at=int(fault['frac'] * dd.ops), frac=fault['cut'], n=fault['n'])
        with self.disk:
            self.disk.arm(arm)
            try:
                out, v, _, _, fired = ENGINE.call(lambda: f(p, os.path.join(self.dir, name)), **kw)
            except SimCrash as x:
                x.__traceback__ = None
                out, v, fired = 'crash', None, None
            crashed = self.disk.dead
            for k, what in self.disk.fired:
                self.st['fault_disk_' + k] += 1
                self.effect += 1
            if fired:
                self.st['fault_disk_line'] += 1
                self.effect += 1
            self.disk.arm(None)
            if crashed:
                self.disk.revive()
        self.ctx.log.append(('save', number, out))
        if crashed:
            raise Died()
        if out == 'ok':
            self.complete(number)
            return
        self.st['rare_save_failed'] += 1
        if not fault:
            raise Violation('save fails', repr(v))
        v = None
        if fault['then'] == 'restart':
            raise Died()
        if fault['then'] == 'retry':
            self.save(c, None)

    def save_during(self, c, op):
        """another thread saves while the query is made"""
        name = self.begin(c)
        number = self.nsave
        f = c.s.w.script('wiz_abl').save_obj
        p = self.payload(c)
        q = c.s.thunk(op)
        with self.disk:
            self.disk.arm(None)
            sim = ENGINE.threads([q, lambda: f(p, os.path.join(self.dir, name))], [[1 + (7 * c.k + len(op['pts']['p'])) % 90, 0], [3, 0], [5, 0]])
        if sim.hung or sim.deadlock:
            raise Violation('no progress', 'a save during a query')
        self.ctx.schedules.add(sim.h.hexdigest()[:16])
        if sim.T[1].out[0] != 'ok':
            raise Violation('save fails', 'during a query: %r' % (sim.T[1].out[1],))
        self.st['rare_saved_during_query'] += sim.nswitch > 0
        # the state saved is that before the query, within the step: membership has been changed, the step has not been made
        self.mid.add(number)
        self.complete(number)
        return sim.T[0].out + (number,)

    def move(self, c):
        """the computation moves to another process"""
        w = World()
        blob = []
        with c.s.w:
            out, v, _, _, _ = ENGINE.call(lambda: blob.append(pickle.dumps((c.s.T, c.s.F))))
        if out == 'exc':
            raise Violation('snapshot failed', repr(v))
        with w:
            out, v, _, _, _ = ENGINE.call(lambda: pickle.loads(blob[0]))
        if out == 'exc':
            raise Violation('restoring failed', repr(v))
        self.st['rare_moved'] += 1
        s = Sys(w, ctx=self.ctx)
        s.tw, s.book = self.tw, c.s.book
        s.T, s.F = v
        c.s = s
        with w:
            w.script('wiz_abl')

    def resume(self):
        w = World()
        best = None
        with w:
            f = w.script('wiz_abl').load_obj
            for name in sorted(self.tried):
                with self.disk:
                    self.disk.arm(None)
                    out, v, _, _, _ = ENGINE.call(lambda: f(os.path.join(self.dir, name)))
                if out == 'exc':
                    if self.last is not None and self.name(self.last) == name:
                        raise Violation('the last complete checkpoint cannot be loaded', '%s: %r' % (name, v))
                    continue
                if not isinstance(v, dict) or v.get('number') not in self.tried[name]:
                    raise Violation('what is loaded was never saved', '%s: %r' % (name, v if not isinstance(v, dict) else v.get('number')))
                if best is None or v['number'] > best['number']:
                    best = v
        if best is None:
            self.st['rare_from_the_start'] += 1
            self.ctx.log.append(('resume', 0))
            return self.start()
        self.st['rare_older_checkpoint'] += best['number'] < self.nsave
        k, book, hist, x = self.books[best['number']]
        if self.plan.get('lean'):
            best['answers'] = copy.deepcopy(hist)
        c = Coupling(self.plan, self.ctx, self.tw, w)
        if best['step'] != k or best['x'] != x or len(best['answers']) != len(hist) or \
                not all(np.array_equal(a, b, equal_nan=not isinstance(a, str)) for p, q in zip(best['answers'], hist) for a, b in zip(p, q)):
            raise Violation('what is loaded was never saved', 'another content under number %d' % best['number'])
        c.k, c.x, c.hist = best['step'], best['x'], best['answers']
        c.s.T, c.s.F = best['turbines'], best['farms']
        c.s.book = copy.deepcopy(book)
        c.entered = best['number'] in self.mid
        self.ctx.log.append(('resume', best['number'], c.k))
        return c


def run(plan, ctx):
    d = Driver(plan, ctx)
    try:
        d.run()
    finally:
        shutil.rmtree(d.dir, ignore_errors=True)
        shutil.rmtree(d.dry, ignore_errors=True)


def prepare():
    import matplotlib.pyplot
    World().script('wiz_abl')


def nontrivial(st):
    return st.get('restarts', 0) + st.get('rare_retried', 0) + st.get('rare_redone_step', 0) + st.get('rare_save_failed', 0) > 0
