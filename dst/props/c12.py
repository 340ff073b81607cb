"""C12: the wake strength is that of the last successful loading update"""
import math

import numpy as np

from .. import domain as D
from ..engine import ENGINE
from ..gen import Gen, pick
from ..machine import Sys, Violation
from ._hist import ASSUMPTIONS, REAL as R, STUBS

RUNS = {'quick': 2600, 'thorough': 150000}
REAL = ['wiz.WindTurbine', 'wiz.Solver', 'wiz.VortexCylinder*', 'wiz.elliptic', 'numpy', 'scipy']
PROBES = ['rare_momentum_checked', 'rare_spera_checked', 'rare_callback_checked', 'rare_wind_changed_after_loading',
          'rare_default_tip_speed_ratio', 'rare_tip_speed_ratio_remembered', 'rare_failed_loading', 'rare_swirl',
          'rare_several_cylinders', 'rare_own_radii', 'rare_circulation', 'fault_line_int', 'fault_call_mem',
          'rare_momentum_several', 'rare_partly_spera_checked', 'rare_far_wake_checked']
RULE = ('one run = 2-8 loading updates (some failing, cut off, rejected or with failing callbacks) interleaved with wind '
        'changes, yawing and queries on 1-2 turbines; the wake strength is compared after each with a new turbine given '
        'the last successful loading, with momentum theory where it applies, and with what the callback returned; '
        'non-trivial = at least two successful loadings of one turbine; distinct by digest of the history')
W = [('load', 9), ('wind', 4), ('yaw', 1), ('pos', .7), ('q', 1.5), ('bad', 3), ('gamx', .4), ('frame', .3), ('chi', .3), ('attr', .3)]
BAD = ['load_nothing', 'load_cb_noCt', 'load_cbfail', 'load_badr', 'load_len', 'load_cbfail4']


def gen(rng, tier):
    g = Gen(rng, models=('VC',), calm=False)
    ops = g.history(W, rng.randint(3, 12), turbines=(1, rng.choice([1, 1, 2])), farms=(0, 0), probe=0.,
                    inj=[('line', 3), ('call', 4)], inj_on=('load',), inj_p=0.3, load_first=0.9)
    for o in ops:
        if o['op'] == 'bad':
            o['what'] = rng.choice(BAD)
        if o['op'] == 'load':
            s = o['spec']
            if rng.random() < 0.35:
                s['Lambda'] = rng.choice([None, None, 'inf', 50.])
            if rng.random() < 0.2 and s['kind'] != 'Gamma':
                s['ct'] = D.rnd(rng.uniform(0.9, 1.15))
                s['shape'] = 'const'
    return dict(ops=ops)


AC = 0.34
CTC = 4 * AC * (1 - AC)


def glauert(ct):
    """sum of the tangential vorticity from the tip, over U0: -2a"""
    if ct > CTC:
        return -2 * (ct - 4 * AC ** 2) / (4 * (1 - 2 * AC))
    return math.sqrt(1 - ct) - 1


def distribution(s):
    """what was given, at the cylinders: (kind, values)"""
    spec, U, lam = s.load
    kw = D.load_args(dict(spec, Lambda=None), s.R, U)
    n = kw.get('nCyl', 1)
    q = kw.get('Ct', kw.get('Gamma'))
    if n == 1:
        return spec['kind'], np.array([np.mean(q)])
    if n is None:
        return spec['kind'], np.asarray(q, float)
    x = np.array([0.005 + (0.995 - 0.005) * i / (n - 1) for i in range(n)]) * s.R
    r = kw['r']
    q = np.ones(len(r)) * q
    out = []
    for xi in x:
        k = min(max(int(np.searchsorted(r, xi)), 1), len(r) - 1)
        w = (xi - r[k - 1]) / (r[k] - r[k - 1])
        out.append(q[0] if xi <= r[0] else q[k - 1] * (1 - w) + q[k] * w if xi <= r[-1] else q[-1])
    return spec['kind'], np.array(out)


def check(s, t, st, label):
    b = s.book.T[t]
    obj = s.T[t]
    got = obj.gamma_t
    if b.load is None and b.gam is None:
        if got is not None:
            raise Violation('wake strength without loading', '%s: %r' % (label, got))
        return
    if b.gam is not None:
        return
    tw = s.tw.gamma(b)
    spec, U, lam = b.load
    Un = math.sqrt(sum(x * x for x in U))
    g = np.atleast_1d(np.asarray(got, float))
    e = np.atleast_1d(np.asarray(tw.gamma_t, float))
    with np.errstate(all='ignore'):
        if g.shape != e.shape or not np.allclose(g, e, rtol=1e-9, atol=1e-9 * Un, equal_nan=True):
            raise Violation('wake strength is not that of the last loading', '%s, turbine %d: %s instead of %s' % (label, t, g, e))
    st['wakes_compared'] += 1
    st['rare_wind_changed_after_loading'] += b.U != U
    if b.gamf != 1:
        return
    kind, q = distribution(b)
    st['rare_several_cylinders'] += len(q) > 1
    st['rare_own_radii'] += spec['nCyl'] is None
    st['rare_circulation'] += kind == 'Gamma'
    if kind == 'cb':
        want = -spec['cbk'] * q * Un
        if not np.allclose(g, want, rtol=1e-9, atol=1e-12):
            raise Violation('wake strength is not what the callback returned', '%s, turbine %d: %s instead of %s' % (label, t, g, want))
        st['rare_callback_checked'] += 1
        return
    Om = 800. if math.isinf(lam) else lam * Un / b.R
    if Om * b.R / Un < 20 * (1 + 1e-9):
        st['rare_swirl'] += 1
        if len(q) > 1 or kind != 'Ct':
            return
    ct = q if kind == 'Ct' else q * Om / (math.pi * Un ** 2)
    hi = ct > CTC
    if np.any(np.abs(ct - CTC) < 1e-3):
        return
    # a lightly loaded annulus inside a heavily loaded one has no closed form
    ok = np.array([hi[i] or not hi[i:].any() for i in range(len(ct))])
    if not ok.any():
        return
    tot = np.cumsum(g[::-1])[::-1]
    want = Un * np.array([glauert(c) for c in ct])
    if not np.max(np.abs(tot - want)[ok]) < 4e-3 * Un:
        raise Violation('wake strength is not that of momentum theory', '%s, turbine %d: %s instead of %s' % (label, t, tot, want))
    st['rare_spera_checked' if hi.all() else 'rare_momentum_checked' if not hi.any() else 'rare_partly_spera_checked'] += 1
    st['rare_momentum_several'] += len(ct) > 1
    # far downstream, on the wake axis, that is the induced velocity
    if ok[0] and b.chi is None and b.Model == 'VC' and abs(s_skew(b)) < 1e-12:
        P = np.asarray(b.hub, float) + 3e3 * b.R * D.model.Ref(b).shaft + 1e-3 * b.R * D.model.Ref(b).vert
        out, v, _, _, _ = ENGINE.call(lambda: obj.compute_u(*D.points(dict(p=[P.tolist()])), only_ind=True, ground=False))
        if out == 'exc':
            raise Violation('query raised', repr(v))
        ui = float(np.array([float(np.ravel(c)[0]) for c in v]).dot(D.model.Ref(b).shaft))
        if not abs(ui - want[0]) < 5e-3 * Un:
            raise Violation('far wake induction is not that of momentum theory', '%s, turbine %d: %g instead of %g' % (label, t, ui, want[0]))
        st['rare_far_wake_checked'] += 1


def s_skew(b):
    return D.model.Ref(b).skew


def run(plan, ctx):
    st = ctx.stats
    s = Sys(ctx=ctx)
    loads = {}
    with s.w:
        for op in plan['ops']:
            if not s.book.valid(op):
                continue
            before = {t: b.Lambda for t, b in s.book.T.items()}
            n0 = {t: b.load for t, b in s.book.T.items()}
            s.step(op, reference=False)
            if op['op'] == 'load':
                t = op['t']
                if s.book.T[t].load is not n0[t]:
                    loads[t] = loads.get(t, 0) + 1
                    if op['spec'].get('Lambda') is None:
                        st['rare_default_tip_speed_ratio'] += 1
                        st['rare_tip_speed_ratio_remembered'] += loads[t] > 1 and not math.isinf(before[t])
                else:
                    st['rare_failed_loading'] += 1
            elif op['op'] == 'bad':
                st['rare_failed_loading'] += 1
            for t in sorted(s.T):
                check(s, t, st, 'after ' + op['op'])
        s.final()
    st['most_loadings'] = max(st['most_loadings'], max(loads.values(), default=0))


def nontrivial(st):
    return st.get('most_loadings', 0) > 1
