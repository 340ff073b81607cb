"""C08: copies and snapshots behave as the original and are independent of it"""
import copy
import os
import pickle
import shutil

from .. import domain as D
from ..engine import ENGINE
from ..gen import Gen
from ..machine import Sys, Violation
from ..world import World
from ._hist import ASSUMPTIONS, REAL as R, STUBS

RUNS = {'quick': 1300, 'thorough': 60000}
HOWS = ['deepcopy', 'pickle', 'pickle_other', 'file', 'restart']
PROBES = ['snap_' + h for h in HOWS] + ['rare_snapshot_during_query', 'rare_snapshot_of_snapshot', 'rare_unloaded',
                                        'rare_farm_snapshot', 'rare_loaded_twice', 'rare_update_after_snapshot', 'rare_prescribed_skew',
                                        'rare_yawed', 'rare_after_failed_update', 'rare_callback_loading']
RULE = ('one run = a history of updates and queries on turbines and farms with 1-4 snapshots (deep copy, pickle in the '
        'same or another process image, save/load helpers, the same snapshot loaded twice, restart from the snapshot with everything else lost, during '
        'a query of another thread), after which original and copies go on with their own updates; all are compared '
        'with their twins; non-trivial = at least one snapshot; distinct by digest of the whole history')
REAL = R + ['wiz.article_blockage.helper_functions (save_obj, load_obj)', 'pickle', 'copy', 'file system (scratch directory)']
W = [('pos', 2), ('wind', 2), ('yaw', 3), ('load', 3), ('chi', 1), ('gam', .3), ('gamx', 1), ('attr', .8), ('frame', .5), ('q', 4),
     ('fq', 2), ('flay', 1.2), ('fapp', .8), ('fdel', .5), ('frev', .3), ('bad', .5)]


def gen(rng, tier):
    g = Gen(rng)
    ops = g.history(W, rng.randint(0, 5), turbines=(1, rng.choice([1, 2, 3])), farms=(0, 2), probe=0.1,
                    load_first=0.85)
    events = [dict(side=0, o=o) for o in ops]
    sides = 1
    gens = [g]
    for _ in range(rng.choice([1, 1, 2, 3])):
        side = rng.randrange(sides)
        how = rng.choice(HOWS)
        e = dict(side=side, snap=how, proto=rng.choice([2, 4, 5]), only=None)
        gg = gens[side]
        if not gg.t:
            continue
        x = rng.random()
        if x < 0.25:
            e['only'] = ['t', rng.choice(list(gg.t))]
        elif x < 0.5 and gg.f:
            e['only'] = ['f', rng.choice(list(gg.f))]
        if rng.random() < 0.3:
            e['during'] = gg.op('q', rng.choice(list(gg.t)))
            e['gap'] = rng.randint(1, 150)
        e['twice'] = how != 'deepcopy' and rng.random() < 0.5
        events.append(e)
        g2 = copy.deepcopy(gg)
        g2.rng = rng
        if e['only']:
            kt = {e['only'][1]} if e['only'][0] == 't' else set(gg.f[e['only'][1]])
            g2.t = {t: d for t, d in g2.t.items() if t in kt}
            g2.f = {f: m for f, m in g2.f.items() if e['only'] == ['f', f]}
        if how == 'restart':
            gens[side] = g2
        else:
            gens.append(g2)
            sides += 1
        if e['twice']:
            g3 = copy.deepcopy(g2)
            g3.rng = rng
            gens.append(g3)
            sides += 1
        for _ in range(rng.randint(0, 6)):
            s = rng.randrange(sides)
            gg = gens[s]
            if not gg.t:
                continue
            w = [(a, b) for a, b in W if gg.f or a[0] != 'f' or a == 'frame']
            from ..gen import pick
            k = pick(rng, w)
            o = gg.fop(k, rng.choice(list(gg.f))) if k[0] == 'f' and k != 'frame' else gg.op(k, rng.choice(list(gg.t)))
            events.append(dict(side=s, o=o, probe=rng.random() < 0.5))
    return dict(events=events)


def prepare():
    import matplotlib.pyplot        # (slow, once)
    World().script('wiz_abl')


class Side:
    def __init__(self, s, depth=0):
        self.s, self.depth = s, depth
        self.failed = False


def probe_all(sides):
    for x in sides:
        with x.s.w:
            x.s.final()


def snap(x, e, ctx, n):
    s, st = x.s, ctx.stats
    how, only = e['snap'], e['only']
    st['snap_' + how] += 1
    st['rare_snapshot_of_snapshot'] += x.depth > 0
    if x.failed:
        st['rare_after_failed_update'] += 1
    if only and only[0] == 't':
        T, F = {only[1]: s.T[only[1]]} if only[1] in s.T else {}, {}
    elif only:
        F = {only[1]: s.F[only[1]]} if only[1] in s.F else {}
        T = {}
        st['rare_farm_snapshot'] += 1
    else:
        T, F = dict(s.T), dict(s.F)
    payload = list(T.values())[0] if only and only[0] == 't' and T else list(F.values())[0] if only and F else (T, F)
    w2 = s.w if how in ('deepcopy', 'pickle') else World()
    name = os.path.join(ctx.scratch, 'snap')
    blob = []

    def take():
        if how == 'deepcopy':
            blob.append(copy.deepcopy(payload))
        elif how == 'file' or how == 'restart' and e['proto'] == 4:
            s.w.script('wiz_abl').save_obj(payload, name)
        else:
            blob.append(pickle.dumps(payload, e['proto']))

    with s.w:
        if e.get('during') and s.book.valid(e['during']):
            if 'buf' == e['during'].get('pts', {}).get('form'):
                e['during']['pts']['form'] = 'arr'
            q = s.thunk(e['during'])
            sim = ENGINE.threads([q, take], [[e['gap'], 0]])
            if sim.hung or sim.deadlock:
                raise Violation('no progress', 'snapshot during a query')
            st['rare_snapshot_during_query'] += sim.nswitch > 0
            ctx.schedules.add(sim.h.hexdigest()[:16])
            out, v = sim.T[1].out
            if out == 'exc':
                raise Violation('snapshot failed', '%s during a query: %r' % (how, v))
            out, v = sim.T[0].out
            s.check_query(e['during'], out, v, reference=False)
        else:
            out, v, _, _, _ = ENGINE.call(take)
            if out == 'exc':
                raise Violation('snapshot failed', '%s: %r' % (how, v))
    with w2:
        def load():
            if how == 'deepcopy':
                return blob[0]
            if how == 'file' or how == 'restart' and e['proto'] == 4:
                return w2.script('wiz_abl').load_obj(name)
            return pickle.loads(blob[0])
        out, v, _, _, _ = ENGINE.call(load)
        if out == 'ok' and e.get('twice'):
            # loaded again, by someone else
            out, v2, _, _, _ = ENGINE.call(load)
    if out == 'exc':
        raise Violation('restoring failed', '%s: %r' % (how, v))
    new = [restored(x, e, ctx, v, w2)]
    if e.get('twice') and how != 'deepcopy':
        st['rare_loaded_twice'] += 1
        new.append(restored(x, e, ctx, v2, w2))
    return new


def restored(x, e, ctx, v, w2):
    s, st, only = x.s, ctx.stats, e['only']
    s2 = Sys(w2, ctx=ctx)
    s2.tw = s.tw
    if only and only[0] == 't':
        T2, F2 = ({only[1]: v}, {}) if only[1] in s.T else ({}, {})
    elif only:
        F2 = {only[1]: v} if only[1] in s.F else {}
        T2 = {}
        if F2:
            m = s.book.F[only[1]]
            if len(v) != len(m):
                raise Violation('restored farm has another number of turbines', '%d instead of %d' % (len(v), len(m)))
            for t, o in zip(m, v):
                T2[t] = o
    else:
        T2, F2 = v
    s2.T, s2.F = dict(T2), dict(F2)
    s2.book.T = {t: s.book.T[t].copy() for t in s2.T}
    s2.book.F = {f: list(s.book.F[f]) for f in s2.F}
    st['rare_unloaded'] += any(b.load is None for b in s2.book.T.values())
    st['rare_callback_loading'] += any(b.load is not None and b.load[0]['kind'] == 'cb' for b in s2.book.T.values())
    return Side(s2, x.depth + 1)


def run(plan, ctx):
    s = Sys(ctx=ctx)
    sides = [Side(s)]
    d = os.path.join(ctx.scratch, 'c08')
    shutil.rmtree(d, ignore_errors=True)
    os.makedirs(d)
    top, ctx.scratch = ctx.scratch, d
    try:
        for e in plan['events']:
            if e['side'] >= len(sides):
                continue
            x = sides[e['side']]
            if 'snap' in e:
                new = snap(x, e, ctx, len(sides))
                if e['snap'] == 'restart':
                    sides[e['side']] = new[0]
                    sides += new[1:]
                else:
                    sides += new
                probe_all(sides)
                continue
            with x.s.w:
                x.s.step(e['o'], reference=False)
            x.failed |= e['o']['op'] == 'bad'
            if len(sides) > 1:
                ctx.stats['rare_update_after_snapshot'] += e['o']['op'] not in ('q', 'fq', 'bad')
            if e.get('probe'):
                probe_all(sides)
        probe_all(sides)
    finally:
        ctx.scratch = top
        shutil.rmtree(d, ignore_errors=True)


def nontrivial(st):
    return any(st.get('snap_' + h) for h in HOWS)
