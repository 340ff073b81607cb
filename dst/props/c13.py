"""C13: objects are isolated from one another"""
import copy

from .. import domain as D
from .. import kernels as K
from ..engine import ENGINE, SimCancel
from ..gen import Gen
from ..machine import BAD_Q, Sys, Violation
from ..world import World
from ._hist import ASSUMPTIONS as A
from ._hist import REAL
from .c03 import schedule
from ._threads import aims, kills, switches

RUNS = {'quick': 1300, 'thorough': 60000}
PROBES = ['serial_runs', 'thread_runs', 'switches', 'rare_switch_in_update', 'rare_3_threads', 'rare_40_switches', 'rare_default_objects',
          'fault_line_int', 'fault_line_kbd', 'fault_call_mem', 'fault_call_fpe', 'op_bad', 'op_fbad', 'rare_farm_untouched',
          'rare_farm_not_containing', 'others_checked', 'rare_thread_farm', 'rare_thread_raised', 'rare_import_between', 'op_gamx', 'aimed_runs', 'fault_thread_cut_off']
RULE = ('one run = either 2-5 turbines and 0-3 farms and 3-12 operations, some failing or cut off, each on one of them, after '
        'which all others are queried; or 2-3 simulated threads, each creating, updating and querying its own turbines and '
        'farms under one schedule, every answer compared with that of the same script run alone; non-trivial = others '
        'queried, or a thread switched while inside a call; distinct by digest of history and switch positions')
STUBS = ['thread scheduler', 'threading.Lock of the code under test', 'standard output (simulated console)']
ASSUMPTIONS = A + ['threads switch between lines and at calls into numpy/scipy of the code under test; numpy itself is atomic']
SERIAL = [('pos', 2), ('wind', 2), ('yaw', 2), ('load', 3), ('q', 2), ('chi', 1), ('attr', 1), ('gam', .4), ('gamx', 1), ('frame', .8), ('read', .6),
          ('bad', 1.2), ('new', 1), ('fnew', 1), ('fapp', 1.5), ('fins', .5), ('fdel', .5), ('fset', .5), ('fext', .5),
          ('frev', .3), ('flay', 1.5), ('fq', 1), ('fbad', .7), ('k', 1)]
THREAD = [('pos', 1), ('wind', 1.5), ('yaw', 2), ('load', 2.5), ('q', 4), ('read', .7), ('bad', .5), ('chi', .4), ('frame', .3), ('fapp', .7),
          ('fq', 1.5), ('flay', .7), ('fdel', .3), ('fread', .3), ('new', .3), ('attr', .3), ('gamx', .4)]


def gen(rng, tier):
    if rng.random() < 0.5:
        g = Gen(rng)
        w = [(a, b) for a, b in SERIAL if a != 'k' and (a in ('load', 'wind', 'yaw') or rng.random() < 0.75)]
        ops = g.history(w, rng.randint(3, 12), turbines=(2, rng.choice([3, 5])), farms=(0, 3), probe=0., load_first=0.85,
                        inj=[('line', 4), ('call', 3), ('console', .3)], inj_p=0.4,
                        inj_on=('pos', 'wind', 'yaw', 'load', 'q', 'chi', 'frame', 'flay', 'fq', 'read'))
        out = []
        for o in ops:
            out.append(o)
            if rng.random() < 0.07:
                out.append(dict(op='k', c=K.make(rng, special=0.2)))
            if rng.random() < 0.03:
                out.append(dict(op='imp'))
        return dict(kind='serial', ops=out)
    th = []
    few = rng.random() < 0.4
    for _ in range(rng.choice([2, 2, 3])):
        g = Gen(rng)
        if few:
            w = [('load', 3), ('q', 3), ('yaw', 1), ('wind', 1)]
            l = g.history(w, rng.randint(1, 3), turbines=(1, 1), farms=(0, 0), probe=0., load_first=0.8)
        else:
            w = [(a, b) for a, b in THREAD if a in ('load', 'q') or rng.random() < 0.7]
            l = g.history(w, rng.randint(2, 7), turbines=(1, 2), farms=(0, 1), probe=0., load_first=0.9)
        th.append(l)
    if rng.random() < 0.4:
        th = alike(rng, len(th))
    p = dict(kind='threads', threads=th, switches=switches(rng), kills=kills(rng, len(th)))
    if rng.random() < 0.5:
        p['aims'] = aims(rng)
        p['switches'] = []
    return p


def alike(rng, n):
    """every thread does the same with objects of other sizes, winds and loadings"""
    g = Gen(rng)
    w = [(a, b) for a, b in THREAD if a in ('load', 'q', 'yaw', 'fq') or rng.random() < 0.4]
    l = g.history(w, rng.randint(1, 4), turbines=(1, 2), farms=(0, 1), probe=0., load_first=0.95)
    for o in l:
        if o['op'] == 'load' and rng.random() < 0.5 and o['spec']['nCyl'] == 1:
            o['spec'].update(nCyl=rng.choice([2, 3, 5]))
            o['spec'].pop('arr', None)
            o['spec'].pop('total', None)
    out = []
    for i in range(n):
        c = copy.deepcopy(l)
        for o in c:
            if i and o['op'] == 'new' and not o.get('dflt'):
                o['R'] = D.rnd(o['R'] * rng.uniform(0.4, 2.5))
            elif i and o['op'] == 'load' and rng.random() < 0.7:
                o['spec']['ct'] = D.rnd(o['spec']['ct'] * rng.uniform(0.5, 1))
        out.append(c)
    return out


def run(plan, ctx):
    (serial if plan['kind'] == 'serial' else threads)(plan, ctx)


# ------------------------------------------------------------------ one after another
def touched(book, op):
    """what an operation is entitled to change"""
    k = op['op']
    T, F = set(), set()
    if k in ('new', 'k', 'imp'):
        return T, F
    if 't' in op and k[0] != 'f' or k == 'frame':
        T.add(op['t'])
    if 'f' in op:
        F.add(op['f'])
        if k in ('flay', 'fbad') and op['f'] in book.F:
            T |= set(book.F[op['f']])
    F |= {f for f, m in book.F.items() if T & set(m)}
    return T, F


def serial(plan, ctx):
    st = ctx.stats
    st['serial_runs'] += 1
    s = Sys(ctx=ctx)
    with s.w:
        for op in plan['ops']:
            k = op['op']
            if k == 'k':
                f, a, kw = K.build(s.w, op['c'])
                ENGINE.call(lambda: f(*a, **kw))
                others(s, op, *touched(s.book, op))
                continue
            if k == 'imp':
                st['rare_import_between'] += 1
                World()
                others(s, op, set(), set())
                continue
            if not s.book.valid(op):
                continue
            st['op_' + k] += 1
            T, F = touched(s.book, op)
            op2 = {a: b for a, b in op.items() if a not in ('pt', 'pf')}
            out, v, fired = s.execute(op2)
            ctx.log.append((k, out, type(v).__name__ if out == 'exc' else '', bool(fired)))
            others(s, op, T, F)
            if out == 'exc' and fired:
                if k in ('q', 'fq', 'read', 'fread'):
                    continue
                # bring the object to a known state again
                out, v, _ = s.execute({a: b for a, b in op2.items() if a != 'inj'})
                others(s, op, T, F)
            if k in ('new', 'fnew'):
                if out == 'exc':
                    raise Violation('construction raised', repr(v))
                w = World()
                with w:
                    v2 = s.thunk(op2, w=w)()
                    want = repr(v2), v2.name
                if (repr(v), v.name) != want and ' at 0x' not in want[0]:
                    raise Violation('a new object depends on earlier ones', '%r instead of %r' % ((repr(v), v.name), want))
                (s.T if k == 'new' else s.F)[op['t' if k == 'new' else 'f']] = v
                st['rare_default_objects'] += bool(op.get('dflt'))
            elif k in ('q', 'fq'):
                (s.check_query if k == 'q' else s.check_fq)(op, out, v)
                continue
            elif k in ('bad', 'fbad'):
                if out == 'ok' and op['what'] == 'load_unknown':
                    raise Violation('loading without any tip-speed ratio accepted', 'turbine %d' % op['t'])
                if out == 'ok' and op['what'] not in BAD_Q:
                    return
                continue
            elif out == 'exc':
                raise Violation('update raised', '%s: %r' % (k, v))
            s.book.apply(op)
        s.final()


def others(s, op, T, F):
    old = getattr(s, 'texts', {})
    s.texts = {}
    for l, d, C in (('t', s.T, T), ('f', s.F, F)):
        for i, o in d.items():
            x = s.texts[l, i] = repr(o)
            if i not in C and (l, i) in old and x != old[l, i] and ' at 0x' not in x:
                raise Violation('an operation elsewhere changes the representation', '%s: %r instead of %r' % (op['op'], x, old[l, i]))
    for t in sorted(s.T):
        if t not in T:
            s.probe(t, '%s elsewhere' % op['op'])
            s.st['others_checked'] += 1
    for f in sorted(s.F):
        if f not in F:
            s.probe_farm(f)
            s.st['rare_farm_untouched'] += 1
            s.st['rare_farm_not_containing'] += bool(T)


# ------------------------------------------------------------------ at the same time
def threads(plan, ctx):
    st = ctx.stats
    st['thread_runs'] += 1
    n = len(plan['threads'])
    kl = plan.get('kills', ())

    def image():
        w = World()
        with w:
            return w, [(Sys(w, ctx=ctx), []) for _ in range(n)]

    def bodies(S):
        return [lambda i=i: script(S[i][0], plan['threads'][i], S[i][1]) for i in range(n)]

    sw = plan['switches']
    if plan.get('aims'):
        w, S = image()
        with w:
            sw = schedule(plan, ctx, bodies(S))
    w, S = image()
    with w:
        sim = ENGINE.threads(bodies(S), sw, kl)
        if sim.hung or sim.deadlock:
            raise Violation('no progress', 'threads wait for each other')
        ctx.schedules.add(sim.h.hexdigest()[:16])
        st['switches'] += sim.nswitch
        st['rare_40_switches'] += sim.nswitch > 40
        st['rare_3_threads'] += n > 2
        st['rare_switch_in_update'] += sim.nswitch > 0
        st['fault_thread_cut_off'] += len(sim.killed)
        for t in sim.T:
            if t.out[0] == 'exc':
                raise Violation('a thread died', repr(t.out[1]))
    for i in range(n):
        w2, S2 = image()
        with w2:
            ENGINE.threads([bodies(S2)[i]], [], [[0, a, b] for j, a, b in kl if j == i])
        compare(i, S[i][1], S2[i][1], ctx)
    for s, outs in S:
        if outs and outs[-1][1] == 'exc' and outs[-1][0]['op'] not in NOCHANGE:
            continue        # an update was cut off
        with w:
            s.final()


NOCHANGE = ('q', 'fq', 'read', 'fread', 'bad', 'fbad')


def script(s, ops, outs):
    for op in ops:
        if not s.book.valid(op):
            continue
        k = op['op']
        fn = s.thunk(op)
        try:
            v = fn()
            out = 'ok'
        except (Exception, SimCancel, KeyboardInterrupt) as e:
            e.__traceback__ = None
            out, v = 'exc', e
        outs.append((op, out, v))
        if out == 'ok':
            if k in ('new', 'fnew'):
                (s.T if k == 'new' else s.F)[op['t' if k == 'new' else 'f']] = v
            if k not in NOCHANGE:
                s.book.apply(op)
        elif k not in NOCHANGE:
            return


def compare(i, got, want, ctx):
    st = ctx.stats
    for (op, out, v), (_, out2, v2) in zip(got, want):
        k = op['op']
        ctx.log.append((i, k, out))
        st['rare_thread_raised'] += out == 'exc'
        st['rare_thread_farm'] += k == 'fq'
        if out != out2:
            raise Violation('a thread of its own gets another outcome', 'thread %d, %s: %r, alone: %r' % (i, k, v, v2))
        if out != 'ok' or k not in ('q', 'fq', 'read', 'fread'):
            continue
        if isinstance(v2, str):
            if v != v2 and ' at 0x' not in v2:
                raise Violation('a thread of its own gets another answer', 'thread %d, %s: %s' % (i, op['what'], v))
            continue
        d = K.same(K.norm(v), K.norm(v2))
        if d:
            raise Violation('a thread of its own gets another answer', 'thread %d, %s: %s' % (i, k, d))
        st['answers_compared'] += 1
    if len(got) != len(want):
        raise Violation('a thread of its own gets another outcome', 'thread %d: %d operations, alone %d' % (i, len(got), len(want)))


def nontrivial(st):
    return st.get('switches', 0) > 0 or st.get('others_checked', 0) > 0
