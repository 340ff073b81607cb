"""C07: a field computed in pieces equals the field computed at once"""
import heapq
import pickle

import numpy as np

from .. import domain as D
from .. import kernels as K
from ..engine import ENGINE
from ..gen import Gen
from ..machine import Sys, Violation, clear_mask
from ..world import World
from ._hist import ASSUMPTIONS as A
from ._hist import REAL, STUBS as S

RUNS = {'quick': 2600, 'thorough': 120000}
PROBES = ['rare_kernel', 'rare_many_points', 'rare_object', 'rare_net', 'rare_nan', 'rare_reshaped', 'rare_duplicates', 'rare_single_point_pieces',
          'fault_net_drop', 'fault_net_dup', 'fault_net_delay', 'fault_worker_crash', 'fault_worker_crash_mid_query',
          'fault_task_cancelled', 'net_resends', 'net_out_of_order', 'net_late_duplicates'] + ['fn_' + n for n in K.POINTWISE]
RULE = ('one run = one function, turbine or farm and one set of control points, evaluated at once and in generated '
        'pieces: permuted, duplicated, reshaped, with NaN points; a third of the runs distribute the pieces of a farm '
        'field over simulated worker processes (each its own copy of the package, restored from a pickle) which '
        'crash and restart, over a network which delays, duplicates, reorders and drops; non-trivial = at least two '
        'pieces; distinct by digest of values and event history')
STUBS = S + ['network, worker processes and timers of the distributed runs']
ASSUMPTIONS = A + ['values of pieces may differ by rounding (1e-9 of the scale)']
W = [('pos', 1), ('wind', 2), ('yaw', 3), ('load', 2), ('chi', .4), ('attr', .4)]


def cut(rng, n, odd=()):
    """pieces: lists of indices covering 0..n-1, possibly overlapping"""
    if odd:
        rest = [i for i in range(n) if i not in odd]
        return cut(rng, n) + [x for x in ([odd[0]], list(odd), rest[:rng.randint(1, n)], rest) if x][:rng.randint(1, 4)]
    k = rng.random()
    idx = list(range(n))
    if rng.random() < 0.6:
        rng.shuffle(idx)
    if n > 20:
        out = []
        for _ in range(rng.choice([2, 3, 5])):
            m = rng.choice([1, rng.randint(1, 9), rng.randint(1, n), rng.choice([m for m in (8, 16, 20, 32, 64, n) if m <= n])])
            out.append(rng.sample(idx, m) if rng.random() < 0.6 else idx[:m])
        if rng.random() < 0.3:
            out.append(rng.sample(idx, n))
        if rng.random() < 0.3:
            out.append([rng.randrange(n) for _ in range(rng.randint(1, n))])
        return out
    if k < 0.2:
        out = [[i] for i in idx]
    elif k < 0.3:
        out = [idx]
    else:
        out = []
        while idx:
            m = rng.randint(1, max(1, len(idx)))
            out.append(idx[:m])
            idx = idx[m:]
    if rng.random() < 0.4:
        out.append([rng.randrange(n) for _ in range(rng.randint(1, n + 2))])
    return out


SHAPES = ['2d', 'col', 'fort', '3d', 'strided']


def gen(rng, tier):
    k = rng.random()
    if k < 0.5:
        name = rng.choice(sorted(K.POINTWISE))
        n = rng.choice([2, 4, 6, 8, 12, K.big(rng)])
        xyz, odd = K.mixed(rng, n) if rng.random() < 0.45 else (None, ())
        c = K.make(rng, name, n=n, special=0.3, xyz=xyz)
        c.pop('form', None)
        p = dict(kind='kernel', c=c, pieces=cut(rng, n, odd))
        if name not in K.NOSHAPE:
            p['shape'] = rng.choice(SHAPES)
        if rng.random() < 0.5:
            p['nan'] = sorted({rng.randrange(n) for _ in range(rng.choice([1, 1, 2]))})
        return p
    g = Gen(rng)
    ops = g.history(W, rng.randint(0, 4), turbines=(1, rng.choice([1, 2, 3])), farms=(0, 0), probe=0., load_first=1.)
    f = g.farm(n=rng.choice([1, 2, 3]))
    ops.append(f)
    n = rng.choice([4, 6, 8, 12])
    if k < 0.72 and rng.random() < 0.25:
        n = K.big(rng)
    pts = g.pts(rng.choice(f['ts']), n=n, form='arr')
    odd = ()
    if k < 0.72 and rng.random() < 0.45:
        # a few points unlike the others
        xyz, odd = K.mixed(rng, n)
        d = g.t[rng.choice(f['ts'])]
        ax = D.FRAMES[d['frame']]
        e = np.array([np.cross(ax[1], ax[0]), ax[1], ax[0]], float)
        pts['p'] = [[D.rnd(float(v), 9) for v in d['hub'] + d['R'] * np.dot(q, e)] for q in xyz]
    o = g.opts(True)
    if k < 0.72:
        p = dict(kind='object', ops=ops, on=rng.choice(['t', 'f']), P=pts['p'], o=o, pieces=cut(rng, n, odd),
                 shape=rng.choice(SHAPES), copies=rng.randrange(3))
        p['t'] = rng.choice(f['ts'])
        if rng.random() < 0.4:
            p['nan'] = [rng.randrange(n)]
        return p
    nw = rng.choice([1, 2, 2, 3])
    until = rng.choice([0, 10, 30, 60])
    q = rng.choice([0., 0.1, 0.4])
    net = []
    for _ in range(40):
        d = dict(delay=D.rnd(rng.choice([0.1, rng.uniform(0, 2), rng.uniform(0, 15)]), 3))
        if rng.random() < q:
            d['drop'] = True
        elif rng.random() < 0.25:
            d['dup'] = D.rnd(rng.uniform(0, 12), 3)
        net.append(d)
    ev = []
    if until:
        for _ in range(rng.choice([0, 1, 2, 5])):
            t = D.rnd(rng.uniform(0, until * 0.7), 3)
            ev.append(dict(t=t, w=rng.randrange(nw), down=D.rnd(rng.uniform(0.1, until * 0.25), 3), frac=D.rnd(rng.random()),
                           soft=rng.random() < 0.35, exc=rng.choice(['int', 'kbd'])))
    return dict(kind='net', ops=ops, P=pts['p'], o=o, U0=rng.choice([None, [1., 2., 9.]]), pieces=cut(rng, n), workers=nw,
                net=net, events=ev, until=until)


# ------------------------------------------------------------------ functions
def norm(v, n):
    out = K.norm(v)
    for x in out:
        if x.ndim == 0 or x.shape[0] != n:
            raise Violation('result does not follow the points', 'shape %s for %d points' % (x.shape, n))
    return out


def call(w, c, form=None, P=None):
    c = dict(c)
    if P is not None:
        c['P'] = P
    if form:
        c['form'] = form
    f, a, kw = K.build(w, c)
    out, v, _, _, _ = ENGINE.call(lambda: f(*a, **kw))
    return out, v


def differ(got, want, what):
    """got, want: lists of arrays over points"""
    if len(got) != len(want):
        raise Violation('field in pieces differs', '%s: %d results instead of %d' % (what, len(got), len(want)))
    for i, (x, y) in enumerate(zip(got, want)):
        with np.errstate(all='ignore'):
            fin = np.abs(y[np.isfinite(y)])
            sc = max(1., float(np.median(fin))) if fin.size else 1.
            if x.shape == y.shape:
                ok = (x == y) | (np.isnan(x) & np.isnan(y)) | (np.abs(x - y) <= 1e-9 * np.maximum(sc, np.abs(y)))
        if x.shape != y.shape or not np.all(ok):
            b = tuple(np.argwhere(~ok)[0]) if x.shape == y.shape else None
            raise Violation('field in pieces differs', '%s: result %d %s' % (
                what, i, 'at %s: %r instead of %r' % (list(map(int, b)), float(x[b]), float(y[b])) if b is not None else 'shape'))


def kernel(plan, ctx):
    st = ctx.stats
    c = plan['c']
    st['rare_kernel'] += 1
    st['rare_many_points'] += len(c['P']) > 20
    st['fn_' + c['fn']] += 1
    P = c['P']
    n = len(P)
    w = World()
    with w:
        out, v = call(w, c)
        if out == 'exc':
            # then every way of asking fails, or none has something to say about
            ctx.log.append(('failed', type(v).__name__))
            st['kernel_failed'] += 1
            return
        full = norm(v, n)
        ctx.log.append([float('%.9g' % x) for x in full[0].ravel()[:4]])
        for pc in plan['pieces']:
            if not pc:
                continue
            st['pieces'] += 1
            st['rare_single_point_pieces'] += len(pc) == 1
            st['rare_duplicates'] += len(set(pc)) < len(pc)
            out, v = call(w, c, P=[P[i] for i in pc])
            if out == 'exc':
                raise Violation('a piece fails', '%s: %r' % (c['fn'], v))
            differ(norm(v, len(pc)), [x[pc] for x in full], c['fn'] + ' ' + str(pc))
        if plan.get('shape'):
            st['rare_reshaped'] += 1
            out, v = call(w, c, form=plan['shape'])
            if out == 'exc':
                raise Violation('reshaped points fail', '%s %s: %r' % (c['fn'], plan['shape'], v))
            differ([x.reshape((n,) + full[i].shape[1:]) if x.size == full[i].size else x for i, x in enumerate(K.norm(v))],
                   full, c['fn'] + ' ' + plan['shape'])
        if plan.get('nan'):
            st['rare_nan'] += 1
            P2 = [[float('nan')] * len(p) if i in plan['nan'] else p for i, p in enumerate(P)]
            out, v = call(w, c, P=P2)
            if out == 'exc':
                raise Violation('an undefined point makes the others fail', '%s: %r' % (c['fn'], v))
            rest = [i for i in range(n) if i not in plan['nan']]
            differ([x[rest] for x in norm(v, n)], [x[rest] for x in full], c['fn'] + ' with NaN')


# ------------------------------------------------------------------ turbines and farms
def mask_of(s, members, P):
    m = np.ones(len(P), bool)
    sc = 1e-3
    for t in members:
        b = s.book.T[t]
        g = s.tw.gamma(b)
        gt = np.atleast_1d(g.gamma_t) if g.gamma_t is not None else [0]
        m &= clear_mask(b, P, [b.R] if len(gt) == 1 or g.r is None else list(np.atleast_1d(g.r)))
        sc += D.scale_of(b, gt)
    return m, sc


def obj_call(obj, farm, P, form, o, U0=None, **inj):
    p = D.points(dict(p=P, form=form))
    kw = D.qopts(o)
    if farm:
        if U0 is not None:
            kw['U0'] = U0
        return ENGINE.call(lambda: obj.velocity_field(*p, **kw), **inj)
    return ENGINE.call(lambda: obj.compute_u(*p, **kw), **inj)


def compare(u, full, idx, mask, sc, what):
    d = D.close(D.flat(u), full[:, idx], 1e-9 * sc, np.array([mask[idx]] * 3))
    if d:
        raise Violation('field in pieces differs', '%s: %s' % (what, d))


def objects(plan, ctx):
    st = ctx.stats
    st['rare_object'] += 1
    s = Sys(ctx=ctx)
    with s.w:
        for op in plan['ops']:
            s.step(op, reference=False)
        farm = plan['on'] == 'f'
        obj = s.F[0] if farm else s.T[plan['t']]
        members = s.book.F[0] if farm else [plan['t']]
        P, o = plan['P'], plan['o']
        mask, sc = mask_of(s, members, P)
        out, v, _, _, _ = obj_call(obj, farm, P, 'arr', o)
        if out == 'exc':
            st['query_failed'] += 1
            return
        full = D.flat(v)
        objs = [(s.w, obj)]
        for _ in range(plan['copies']):
            w2 = World()
            b = pickle.dumps(obj)
            with w2:
                objs.append((w2, pickle.loads(b)))
        for i, pc in enumerate(plan['pieces']):
            if not pc:
                continue
            st['pieces'] += 1
            w2, ob = objs[i % len(objs)]
            with w2:
                out, v, _, _, _ = obj_call(ob, farm, [P[j] for j in pc], 'arr', o)
            if out == 'exc':
                raise Violation('a piece fails', repr(v))
            compare(v, full, pc, mask, sc, 'piece %s' % pc)
        out, v, _, _, _ = obj_call(obj, farm, P, plan['shape'], o)
        if out == 'exc':
            raise Violation('reshaped points fail', repr(v))
        compare(v, full, list(range(len(P))), mask, sc, plan['shape'])
        if plan.get('nan'):
            st['rare_nan'] += 1
            P2 = [[float('nan')] * 3 if i in plan['nan'] else p for i, p in enumerate(P)]
            out, v, _, _, _ = obj_call(obj, farm, P2, 'arr', o)
            if out == 'exc':
                raise Violation('an undefined point makes the others fail', repr(v))
            rest = [i for i in range(len(P)) if i not in plan['nan']]
            compare([np.asarray(c)[rest] for c in v], full, rest, mask, sc, 'with NaN')
        s.final()


# ------------------------------------------------------------------ distributed evaluation
RESEND, COST = 5.0, 1.0


def net(plan, ctx):
    st = ctx.stats
    st['rare_net'] += 1
    s = Sys(ctx=ctx)
    with s.w:
        for op in plan['ops']:
            s.step(op, reference=False)
        farm, P, o, U0 = s.F[0], plan['P'], plan['o'], plan['U0']
        mask, sc = mask_of(s, s.book.F[0], P)
        sc += 10
        out, v, lines, _, _ = obj_call(farm, True, P, 'arr', o, U0)
        if out == 'exc':
            st['query_failed'] += 1
            return
        full = D.flat(v)
        blob = pickle.dumps(farm)
    pieces = [p for p in plan['pieces'] if p]
    if set(sum(pieces, [])) != set(range(len(P))):
        pieces.append([i for i in range(len(P)) if i not in sum(pieces, [])])

    class Worker:
        def __init__(self, i):
            self.i, self.epoch, self.busy, self.queue = i, 0, None, []
            self.boot()

        def boot(self):
            self.world = World()
            with self.world:
                self.farm = pickle.loads(blob)
            self.up = True
            self.epoch += 1
            self.busy, self.queue = None, []

        def run(self, k, **inj):
            with self.world:
                return obj_call(self.farm, True, [P[j] for j in pieces[k]], 'arr', o, U0, **inj)

    W = [Worker(i) for i in range(plan['workers'])]
    q, seq, nmsg = [], [0], [0]
    until = plan['until']
    trace = []

    def at(t, *e):
        seq[0] += 1
        heapq.heappush(q, (t, seq[0]) + e)

    def send(now, *msg):
        d = plan['net'][nmsg[0] % len(plan['net'])] if plan['net'] else {}
        nmsg[0] += 1
        if now >= until:
            d = dict(delay=min(d.get('delay', .1), 1.))
        if d.get('drop'):
            st['fault_net_drop'] += 1
            return
        if d.get('delay', .1) > 2:
            st['fault_net_delay'] += 1
        at(now + d.get('delay', .1), *msg)
        if 'dup' in d:
            st['fault_net_dup'] += 1
            at(now + d['dup'], *msg)

    got = {}
    last = -1
    for k in range(len(pieces)):
        send(0., 'req', k % len(W), k)
        at(RESEND, 'timer', k, k % len(W))
    for e in plan['events']:
        if e['w'] < len(W):
            at(e['t'], 'crash', e)
    now = 0.
    limit = until + 30 + 3 * len(pieces)

    def start(w, now):
        if w.busy is None and w.queue:
            w.busy = w.queue.pop(0)
            at(now + COST, 'finish', w.i, w.epoch, w.busy)

    while q and len(got) < len(pieces):
        now, _, kind, *x = heapq.heappop(q)
        if now > limit:
            break
        trace.append((round(now, 3), kind, x[0] if kind != 'crash' else x[0]['w']))
        if kind == 'req':
            w, k = W[x[0]], x[1]
            if w.up and k != w.busy and k not in w.queue:
                w.queue.append(k)
                start(w, now)
        elif kind == 'finish':
            w = W[x[0]]
            if w.up and w.epoch == x[1] and w.busy == x[2]:
                out, v, _, _, _ = w.run(x[2])
                if out == 'exc':
                    raise Violation('a worker fails', repr(v))
                w.busy = None
                send(now, 'reply', x[2], D.flat(v))
                start(w, now)
        elif kind == 'reply':
            k = x[0]
            if k in got:
                st['net_late_duplicates'] += 1
                if not np.array_equal(got[k], x[1], equal_nan=True):
                    d = D.close(got[k], x[1], 1e-9 * sc, np.array([mask[pieces[k]]] * 3))
                    if d:
                        raise Violation('two workers answer differently', d)
                continue
            st['net_out_of_order'] += k < last
            last = k
            got[k] = x[1]
        elif kind == 'timer':
            k, w = x
            if k not in got:
                st['net_resends'] += 1
                w = (w + 1) % len(W)
                send(now, 'req', w, k)
                at(now + RESEND, 'timer', k, w)
        elif kind == 'crash':
            e = x[0]
            w = W[e['w']]
            if not w.up:
                continue
            if w.busy is not None:
                n = max(1, int(e['frac'] * lines * len(pieces[w.busy]) / len(P))) if e['frac'] < 0.3 else max(1, int(e['frac'] * lines))
                _, _, _, _, fired = w.run(w.busy, cancel_at=n, exc=e['exc'])
                if fired:
                    st['fault_task_cancelled' if e['soft'] else 'fault_worker_crash_mid_query'] += 1
            if e['soft']:
                # the task dies, the process lives on with the same farm
                w.busy = None
                w.epoch += 1
                start(w, now)
            else:
                st['fault_worker_crash'] += 1
                w.up = False
                w.epoch += 1
                w.farm = w.world = None
                at(now + e['down'], 'boot', w.i)
        elif kind == 'boot':
            W[x[0]].boot()
    ctx.sim_s += now
    ctx.log.append(trace)
    if len(got) < len(pieces):
        raise Violation('no progress', 'field incomplete %g s after the last fault' % (limit - until))
    st['pieces'] += len(pieces)
    for k, pc in enumerate(pieces):
        d = D.close(got[k], full[:, pc], 1e-9 * sc, np.array([mask[pc]] * 3))
        if d:
            raise Violation('field in pieces differs', 'distributed, piece %s: %s' % (pc, d))
    # the workers' farms are still what they were
    for w in W:
        if w.up:
            with w.world:
                out, v, _, _, _ = obj_call(w.farm, True, P, 'arr', o, U0)
            if out == 'exc':
                raise Violation('a worker fails', repr(v))
            compare(v, full, list(range(len(P))), mask, sc, 'worker %d at the end' % w.i)
    with s.w:
        s.final()


def run(plan, ctx):
    {'kernel': kernel, 'object': objects, 'net': net}[plan['kind']](plan, ctx)


def nontrivial(st):
    return st.get('pieces', 0) >= 2
