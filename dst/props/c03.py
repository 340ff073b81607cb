"""C03: concurrent queries answer as if each had run alone"""
from .. import domain as D
from .. import kernels as K
from ..engine import ENGINE, Guard, SimCancel, SimMemoryError
from ..gen import Gen
from ..machine import BAD_Q, Sys, Violation
from ..world import World
from ._hist import ASSUMPTIONS as A
from ._hist import REAL
from ._threads import aims, kills, resolve, switches

RUNS = {'quick': 3000, 'thorough': 80000}
PROBES = ['rare_switch_inside', 'rare_same_turbine', 'rare_same_farm', 'rare_shared_points', 'rare_both_skewed_and_straight',
          'rare_kernel', 'rare_three_threads', 'rare_rejected_query', 'rare_40_switches', 'aimed_runs', 'fault_query_cut_off']
RULE = ('one run = 1-3 turbines and 0-2 farms, then 2-3 simulated threads with 1-4 queries each, and one schedule; every '
        'answer compared with the one given alone; non-trivial = at least one switch while both threads were inside '
        'a call; distinct by digest of the history and of the switch positions (thread, function, line)')
STUBS = ['thread scheduler', 'threading.Lock of the code under test', 'standard output (simulated console)']
ASSUMPTIONS = A + ['threads switch between lines and at calls into numpy/scipy of the code under test; numpy itself is atomic']
W = [('yaw', 2), ('wind', 2), ('chi', .5), ('pos', 1), ('flay', .5)]


def gen(rng, tier):
    g = Gen(rng)
    style = rng.choice(['any', 'any', 'same', 'kernel', 'model'])
    model = rng.choice(['VC', 'VCFF', 'VCFF', 'VD', 'SS'])
    common = g.opts()
    ops = g.history(W, rng.randint(0, 3), turbines=(1, rng.choice([1, 2, 3])), farms=(0, 2), probe=0., load_first=0.97)
    if style == 'model':
        # the same path through the code for all, with other numbers
        ops = [o for o in ops if o['op'] in ('new', 'load', 'fnew', 'pos')]
        for o in ops:
            if o['op'] == 'new' and 'U' in o:
                sh, ve = D.FRAMES[o['frame']]
                o['U'] = D.wind_vec(sh, ve, 10, 0, 0)
    nth = rng.choice([2, 2, 2, 3])
    pool = [g.pts(rng.choice(list(g.t)), form=rng.choice(['arr', 'ro', '2d'])) for _ in range(2)]
    threads = []
    same = points = None
    for _ in range(nth):
        th = []
        for _ in range(rng.randint(1, 4)):
            x = rng.random()
            if style == 'kernel' and x < 0.8 or style == 'any' and x < 0.15:
                if same is None or rng.random() < 0.5:
                    c = K.make(rng, name=rng.choice(K.LOOPS) if rng.random() < 0.35 else None, special=0.1)
                    c.pop('form', None)
                    same = c['fn']
                else:
                    c = K.make(rng, name=same, special=0.1)
                    c.pop('form', None)
                    if points is not None and len(points[0]) == len(c.get('P', [[]])[0]) and rng.random() < 0.6:
                        c['P'] = points     # (the same arrays)
                points = c.get('P')
                th.append(dict(op='k', c=c))
                continue
            if g.f and x < 0.4:
                f = rng.choice(list(g.f))
                o = g.fop('fq', f)
            elif x < 0.88:
                t = 0 if style == 'same' else rng.choice(list(g.t))
                o = g.op('q', t)
            elif x < 0.94:
                o = g.op('read', rng.choice(list(g.t)))
            elif g.f and x < 0.97:
                o = g.fop('fread', rng.choice(list(g.f)))
            else:
                o = dict(op='bad', t=rng.choice(list(g.t)), what=rng.choice(BAD_Q))
            if style == 'model' and o['op'] in ('q', 'fq'):
                o['o'] = dict(common, Model=model, R_far_field=rng.choice([1.5, 3, 6, 12]))
                if o.get('t') in g.t and rng.random() < 0.8:
                    R, h = g.t[o['t']]['R'], g.t[o['t']]['hub']
                    o['pts'] = dict(form='arr', p=[[h[i] + R * rng.uniform(-8, 8) for i in range(3)] for _ in range(4)])
            if 'pts' in o:
                if rng.random() < 0.5:
                    o['pts'] = dict(rng.choice(pool), shared=True)
                elif o['pts']['form'] == 'buf':
                    o['pts']['form'] = 'arr'
            if o.get('uform') == 'buf':
                o['uform'] = 'arr'
            th.append(o)
        threads.append(th)
    p = dict(ops=ops, threads=threads, switches=switches(rng), kills=kills(rng, nth))
    if rng.random() < 0.45:
        p['aims'] = aims(rng)
        p['switches'] = []
    return p


def build(plan, ctx, w):
    s = Sys(w, ctx=ctx)
    with w:
        for op in plan['ops']:
            s.step(op)
    return s


def thunks(s, plan, st):
    """[[(operation, call)]] of the threads"""
    shared = {}
    orig = s.pts

    def pts(spec):
        if not spec.get('shared'):
            return orig(spec)
        k = repr(spec)
        if k not in shared:
            shared[k] = orig(spec)
        else:
            st['rare_shared_points'] += 1
        return shared[k]
    s.pts = pts
    items = []
    s.shared = shared
    for th in plan['threads']:
        l = []
        for op in th:
            if op['op'] == 'k':
                st['rare_shared_points'] += (repr(op['c'].get('P')), 'arr') in shared
                f, a, k = K.build(s.w, op['c'], cache=shared)
                l.append((op, (lambda f=f, a=a, k=k: f(*a, **k))))
            elif s.book.valid(op):
                l.append((op, s.thunk(op)))
        items.append(l)
    s.pts = orig
    return items


def body(l, outs):
    def go():
        for op, fn in l:
            try:
                outs.append(('ok', fn()))
            except (Exception, SimCancel, KeyboardInterrupt) as e:
                e.__traceback__ = None
                outs.append(('exc', e))
    return go


def schedule(plan, ctx, bodies):
    """the switches; aimed ones need a look at what each thread does when alone"""
    if not plan.get('aims') or len(bodies) < 2:
        return plan['switches']
    ctx.stats['aimed_runs'] += 1
    traces = [ENGINE.threads([b], [], trace=True).trace for b in bodies[:2]]
    sw = resolve(plan['aims'], traces, len(bodies))
    ctx.concrete = dict(plan, switches=sw, aims=[])
    return sw


def run(plan, ctx):
    st = ctx.stats
    s = build(plan, ctx, World())
    pristine = World()
    sw = plan['switches']
    if plan.get('aims'):
        d = build(plan, ctx, World())
        with d.w:
            sw = schedule(plan, ctx, [body(l, []) for l in thunks(d, plan, st)])
    with s.w:
        items = thunks(s, plan, st)
        outs = [[] for _ in items]
        guard = Guard([a for l in s.shared.values() for a in l])
        sim = ENGINE.threads([body(l, o) for l, o in zip(items, outs)], sw, plan.get('kills', ()), watch=guard)
        if guard.bad:
            raise Violation('points in use by several threads are changed', guard.bad)
        if sim.hung or sim.deadlock:
            raise Violation('no progress', 'threads wait for each other')
        ctx.schedules.add(sim.h.hexdigest()[:16])
        st['switches'] += sim.nswitch
        st['rare_switch_inside'] += sim.nswitch > 0
        st['rare_40_switches'] += sim.nswitch > 40
        st['rare_three_threads'] += len(items) > 2
        ts = [{op.get('t') for op, _ in l if 't' in op} for l in items]
        fs = [{op.get('f') for op, _ in l if 'f' in op} for l in items]
        st['rare_same_turbine'] += any(a & b for i, a in enumerate(ts) for b in ts[:i])
        st['rare_same_farm'] += any(a & b for i, a in enumerate(fs) for b in fs[:i])
        for i, t in enumerate(sim.T):
            if t.out[0] == 'exc':
                raise Violation('a thread died', repr(t.out[1]))
        for i, (l, o) in enumerate(zip(items, outs)):
            for (op, _), (out, v) in zip(l, o):
                k = op['op']
                ctx.log.append((i, k, out))
                if out == 'exc' and isinstance(v, (SimCancel, KeyboardInterrupt, SimMemoryError)):
                    st['fault_query_cut_off'] += 1
                    continue
                if k == 'k':
                    st['rare_kernel'] += 1
                    f, a, kw = K.build(pristine, op['c'])
                    out2, v2 = _solo(pristine, f, a, kw)
                    if out != out2:
                        raise Violation('a function answers otherwise in a thread', '%s: %s, alone: %s' % (op['c']['fn'], v, v2))
                    if out == 'ok':
                        d = K.same(K.norm(v), K.norm(v2))
                        if d:
                            raise Violation('a function answers otherwise in a thread', '%s: %s' % (op['c']['fn'], d))
                elif k == 'q':
                    s.check_query(op, out, v, reference=False)
                elif k == 'fq':
                    s.check_fq(op, out, v)
                elif k == 'bad':
                    st['rare_rejected_query'] += 1
                elif out == 'exc':
                    raise Violation('reading %s raised' % op['what'], repr(v))
        st['rare_both_skewed_and_straight'] += bool(st['rare_skewed'] and st['rare_aligned'])
        s.final()


def _solo(w, f, a, kw):
    with w:
        try:
            return 'ok', f(*a, **kw)
        except Exception as e:
            return 'exc', e


def nontrivial(st):
    return st.get('switches', 0) > 0
