"""C14: timers report clock differences and never disturb what they time"""
import math
import re

from .. import kernels as K
from ..engine import ENGINE, Clock, SimCancel
from ..machine import Violation
from ..world import World

RUNS = {'quick': 12000, 'thorough': 1000000}
RECHECK = 200
PROBES = ['timers', 'rare_nested_3', 'rare_exception', 'rare_cancel', 'rare_backward', 'rare_stalled', 'rare_zero', 'rare_reused', 'rare_unnamed',
          'rare_long_name', 'rare_minutes', 'rare_hours', 'rare_days', 'rare_months', 'rare_years', 'rare_boundary', 'fault_clock_jump',
          'fault_clock_back', 'fault_clock_stall', 'fault_console_oserror', 'rare_library_call_inside', 'rare_after_failed_console',
          'rare_interleaved']
RULE = ('one run = a tree of up to 12 timers (nested, in sequence, reused, left by exceptions, entered and left out of order) '
        'on a simulated clock which runs, stalls and jumps; every printed line compared with the clock; non-trivial = at least one timer '
        'whose clock moved; distinct by digest of what was printed')
REAL = ['wiz.examples.tictoc', 'the timed library functions']
STUBS = ['clock (time.time and its relatives)', 'standard output (simulated console)']
ASSUMPTIONS = ['all clocks of the time module agree; reading the clock takes no time',
               'a reported duration may be off by one unit of its last printed digit']
NAMES = [None, '', 'a', 'Induction by superposition', 'x' * 29, 'y' * 30, 'z' * 31, 'w' * 80, 'Elapsed: ', 'with {braces} %s', 'Größe', 'two words ']
EDGES = [1, 60, 3600, 86400, 8553600, 31536000]
EXCS = {'val': ValueError, 'kbd': KeyboardInterrupt, 'cancel': SimCancel, 'exit': SystemExit, 'stop': StopIteration, 'gen': GeneratorExit,
        'mem': MemoryError, 'key': KeyError}


def step(rng):
    x = rng.random()
    if x < 0.15:
        return ['stall', 0.0]
    if x < 0.5:
        return ['run', float('%.6g' % math.exp(rng.uniform(math.log(1e-4), math.log(1e3))))]
    if x < 0.72:
        return ['jump', float('%.9g' % math.exp(rng.uniform(math.log(10), math.log(1e11))))]
    if x < 0.87:
        e = rng.choice(EDGES)
        return ['edge', e + rng.choice([0, 0, -1e-3, 1e-3, -0.5, 0.5, -1, 1])]
    return ['back', -float('%.6g' % math.exp(rng.uniform(math.log(1e-4), math.log(1e7))))]


def tree(rng, depth, left):
    out = []
    for _ in range(rng.randint(1, 3)):
        if left[0] <= 0:
            break
        left[0] -= 1
        n = dict(name_i=rng.randrange(len(NAMES)), steps=[step(rng) for _ in range(rng.randint(0, 3))], calls=[])
        if depth < 4 and rng.random() < 0.45:
            n['calls'] = tree(rng, depth + 1, left)
        if rng.random() < 0.2:
            n['exc'] = rng.choice(sorted(EXCS))
            n['up'] = rng.random() < 0.5
        if rng.random() < 0.15:
            n['again'] = True
        if rng.random() < 0.1:
            n['work'] = K.make(rng, special=0.)
        if rng.random() < 0.06:
            n['broken'] = rng.choice([0, 1, 2])
        out.append(n)
    return out


def gen(rng, tier):
    if rng.random() < 0.15:
        # entered and left in any order (as context managers of generators or threads do)
        n = rng.randint(2, 4)
        ev = [[i, k] for i in range(n) for k in (0, 1)]
        rng.shuffle(ev)
        ev.sort(key=lambda e: 0)
        seen, out = set(), []
        for i, _ in ev:
            out.append([i, step(rng)])
        return dict(start=rng.choice([0., 1.6e9, 5.0]), events=out, names=[rng.randrange(len(NAMES)) for _ in range(n)])
    return dict(start=rng.choice([0., 1.6e9, 1.6e9, 5.0, 1e12]), calls=tree(rng, 0, [rng.choice([2, 5, 12])]))


def fmt(t, text, slack):
    """does the text stand for the duration t?"""
    text = text.strip()
    if t < -slack:
        return text == '------'
    if text == '------':
        return t < slack
    for pat, unit, hi, tol in (
            (r'(\d+)\.(\d\d)s', lambda a, b: int(a) + int(b) / 100, (0, 60), 0.0101),
            (r'(\d+)m(\d\d)s', lambda a, b: 60 * int(a) + int(b), (60, 3600), 1.0),
            (r'(\d+)h(\d\d)m', lambda a, b: 3600 * int(a) + 60 * int(b), (3600, 86400), 60.),
            (r'(\d+)d(\d\d)h', lambda a, b: 86400 * int(a) + 3600 * int(b), (86400, 8553600), 3600.),
            (r'(\d+)\.(\d)mo', lambda a, b: (int(a) + int(b) / 10) * 86400 * 30.5, (8553600, 31536000), 0.051 * 86400 * 30.5),
            (r'(\d+)\.(\d)y', lambda a, b: (int(a) + int(b) / 10) * 86400 * 365.25, (31536000, math.inf), 0.051 * 86400 * 365.25)):
        m = re.fullmatch(pat, text)
        if m:
            v = unit(*m.groups())
            return hi[0] - slack - 1e-9 <= t <= hi[1] + slack + 1e-9 and abs(v - t) <= tol + slack + 1e-9 * abs(t)
    return False


class Run:
    def __init__(self, plan, ctx):
        self.ctx, self.st = ctx, ctx.stats
        self.clock = Clock()
        self.clock.now = float(plan['start'])
        self.w = World((), overrides={'time': self.clock.module()})
        self.m = self.w.script('wiz_tictoc')
        self.con = ctx.console
        self.broken = False

    def advance(self, steps):
        for k, d in steps:
            self.clock.now += d
            self.ctx.sim_s += abs(d) if abs(d) < 1e6 else 0
            if k == 'jump':
                self.st['fault_clock_jump'] += 1
            elif k == 'back':
                self.st['fault_clock_back'] += 1
            elif k == 'stall':
                self.st['fault_clock_stall'] += 1

    def check(self, name, t0, text, edge=False):
        st, now = self.st, self.clock.now
        t = now - t0
        slack = 4e-16 * max(abs(now), abs(t0)) * 2 + 1e-9
        st['timers'] += 1
        st['rare_backward'] += t < 0
        st['rare_zero'] += t == 0
        st['rare_minutes'] += 60 <= t < 3600
        st['rare_hours'] += 3600 <= t < 86400
        st['rare_days'] += 86400 <= t < 8553600
        st['rare_months'] += 8553600 <= t < 31536000
        st['rare_years'] += t >= 31536000
        st['rare_boundary'] += any(abs(t - e) < 1e-6 for e in EDGES)
        st['rare_stalled'] += t == 0
        st['rare_unnamed'] += not name
        st['rare_long_name'] += len(name or '') > 30
        self.ctx.log.append(text)
        if not text.endswith('\n') or text.count('\n') != 1:
            raise Violation('not exactly one line', repr(text))
        head, sep, dur = text[:-1].rpartition('Elapsed: ')
        if not sep or not head.startswith('[TIME] '):
            raise Violation('not a timer line', repr(text))
        if (name or '')[:30].strip() not in head or (not name and head != '[TIME] '):
            raise Violation('not the name of the timer', repr(text))
        if not fmt(t, dur, slack):
            raise Violation('not the elapsed time', '%r for %r s' % (dur, t))

    def node(self, n, depth):
        """runs a timer; may raise"""
        st = self.st
        name = NAMES[n['name_i']]
        st['rare_nested_3'] += depth >= 2
        tm = self.m.Timer(name) if name is not None or n.get('again') else self.m.Timer()
        for rep in range(2 if n.get('again') else 1):
            st['rare_reused'] += rep
            exc = EXCS[n['exc']]('timed') if 'exc' in n else None
            got = None
            t0 = self.clock.now
            mark = [0]
            if n.get('broken') is not None and not exc:
                self.con.fail_at = 1 << 60
            try:
                with tm:
                    self.advance(n['steps'][:1])
                    if 'work' in n and rep == 0:
                        self.work(n['work'])
                    for c in n['calls']:
                        self.node(c, depth + 1)
                    self.advance(n['steps'][1:])
                    mark[0] = len(self.con.parts)
                    if n.get('broken') is not None and not exc:
                        self.con.fail_at, self.con.fail_for = self.con.n + n['broken'], 1
                        f0 = self.con.failed
                    if exc:
                        raise exc
            except Violation:
                raise
            except BaseException as e:
                got = e
            self.con.fail_at = -1
            if isinstance(got, OSError) and n.get('broken') is not None and not exc and self.con.failed > f0:
                st['fault_console_oserror'] += 1
                self.broken = True
                continue
            if exc is not None:
                st['rare_exception'] += 1
                st['rare_cancel'] += isinstance(exc, SimCancel)
            if got is not exc:
                raise Violation('exception changed', '%r instead of %r' % (got, exc))
            if n.get('broken') is not None and not exc and self.con.failed > f0:
                return          # the timer coped with the broken console
            st['rare_after_failed_console'] += self.broken
            self.check(name, t0, ''.join(self.con.parts[mark[0]:]))

    def work(self, c):
        self.st['rare_library_call_inside'] += 1
        outs = []
        for w in (self.w, World(())):
            f, a, kw = K.build(w, c)
            with w:
                outs.append(ENGINE.call(lambda: f(*a, **kw)))
        if outs[0][0] != outs[1][0]:
            raise Violation('timed code behaves otherwise', repr(outs[0][1]))
        if outs[0][0] == 'ok':
            d = K.same(K.norm(outs[0][1]), K.norm(outs[1][1]))
            if d:
                raise Violation('timed code behaves otherwise', d)


def run(plan, ctx):
    r = Run(plan, ctx)
    if 'events' in plan:
        tms = {}
        for i, s in plan['events']:
            r.advance([s])
            name = NAMES[plan['names'][i]]
            if i not in tms:
                tms[i] = (r.m.Timer(name), r.clock.now)
                tms[i][0].__enter__()
            elif tms[i][0] is not None:
                ctx.stats['rare_interleaved'] += 1
                mark = len(r.con.parts)
                tms[i][0].__exit__(None, None, None)
                r.check(name, tms[i][1], ''.join(r.con.parts[mark:]))
                tms[i] = (None, None)
        return
    for n in plan['calls']:
        r.node(n, 0)


def nontrivial(st):
    return st.get('timers', 0) > st.get('rare_zero', 0)
