"""C11: orientation bookkeeping follows every yaw and wind history"""
import math

import numpy as np

from .. import domain as D
from ..engine import ENGINE
from ..gen import Gen, pick
from ..machine import Sys, Violation
from ._hist import ASSUMPTIONS as A
from ._hist import REAL as R, STUBS

RUNS = {'quick': 5000, 'thorough': 300000}
REAL = ['wiz.WindTurbine', 'numpy']
PROBES = ['rare_wind_aligned_exactly', 'rare_wind_nearly_aligned', 'rare_wind_opposite', 'rare_wind_weak', 'rare_wind_strong',
          'rare_long_sweep', 'rare_yaw_beyond_pi', 'rare_prescribed', 'rare_prescription_cleared', 'rare_frame_changed', 'rare_wind_across',
          'rare_wind_on_axis_of_shaft', 'fault_line_int', 'fault_call_mem', 'op_bad', 'disks_checked']
RULE = ('one run = 3-25 updates of yaw, wind, position and frame of 1-2 turbines (some rejected, failing or cut off; sweeps '
        'of up to thousands of small yaw steps; winds of 1e-8..1e6 m/s exactly or nearly along the shaft, across it and '
        'against it), all angles and rotor disks compared with an independent model after each; non-trivial = at least '
        'one yaw and one wind update; distinct by digest of the history')
ASSUMPTIONS = ['angles are compared to 2e-6 rad (accuracy of arccos near 1)', 'no vertical wind component where a signed error is compared'] + A[3:]


def angle(r):
    return pick(r, [(0., 3), (r.choice([1, -1]) * 10 ** r.uniform(-14, -3), 3), (r.uniform(-3.1, 3.1), 6), (math.pi, 1),
                    (r.choice([1, -1]) * math.pi / 2, 1), (r.choice([-1, 1]) * (math.pi - 10 ** r.uniform(-12, -3)), .7),
                    (math.radians(r.randint(-180, 180)), 2)])


def wind(r, frame, yaw):
    sh, ve = [np.asarray(x, float) for x in D.FRAMES[frame]]
    U = pick(r, [(r.uniform(3, 25), 6), (10 ** r.uniform(-8, 6), 3), (10., 2)])
    a = angle(r) + (yaw if r.random() < 0.4 else 0.)
    v = U * (math.cos(a) * sh + math.sin(a) * np.cross(ve, sh))
    if a == 0:
        v = U * sh
    return [float(x) for x in v]


def gen(rng, tier):
    g = Gen(rng)
    ops = []
    nt = rng.choice([1, 1, 2])
    yaw, prs = {}, {}
    for _ in range(nt):
        o = g.new()
        if not o.get('dflt'):
            o['U'] = wind(rng, o['frame'], 0.)
        ops.append(o)
        yaw[o['t']] = 0.
        if rng.random() < 0.3:
            ops.append(g.op('load', o['t']))
    for _ in range(rng.randint(3, 14) if rng.random() < 0.85 else rng.randint(15, 30)):
        t = rng.randrange(nt)
        k = pick(rng, [('yaw', 6), ('wind', 6), ('pos', 1.5), ('frame', 1.2), ('chi', 1), ('sweep', 1), ('bad', 1), ('read', .7), ('load', .3)])
        if k == 'yaw':
            yaw[t] = pick(rng, [(angle(rng), 4), (g.yaw(), 2), (rng.uniform(-8, 8), 1), (rng.randint(-3, 3), .6)])
            o = dict(op='yaw', t=t, v=yaw[t])
        elif k == 'sweep':
            n = int(math.exp(rng.uniform(0, math.log(600 if tier == 'quick' else 5000))))
            o = dict(op='sweep', t=t, n=n, step=rng.choice([1, -1]) * 10 ** rng.uniform(-6, -1), start=yaw[t])
            yaw[t] = o['start'] + n * o['step']
        elif k == 'wind':
            o = dict(op='wind', t=t, v=wind(rng, g.t[t]['frame'], yaw[t]), form=g.form())
        else:
            o = g.op(k, t)
            if k == 'frame':
                yaw[t] = 0.
        if o['op'] in ('yaw', 'wind', 'pos') and rng.random() < 0.15:
            o['inj'] = g.inj([('line', 1), ('call', 1)])
        o['disk'] = rng.choice([1, 2, 7, 30, 100])
        ops.append(o)
    return dict(ops=ops)


def note(s, t, st):
    b = s.book.T[t]
    sh, ve, lat = D.frame_of(b)
    U = np.asarray(b.U, float)
    n = float(np.linalg.norm(U))
    a = math.atan2(U.dot(lat), U.dot(sh))
    st['rare_wind_aligned_exactly'] += a == 0
    st['rare_wind_nearly_aligned'] += 0 < abs(a) < 1e-7
    st['rare_wind_opposite'] += abs(abs(a) - math.pi) < 1e-9
    st['rare_wind_across'] += abs(abs(a) - math.pi / 2) < 1e-9
    st['rare_wind_weak'] += n < 1e-4
    st['rare_wind_strong'] += n > 1e3
    st['rare_wind_on_axis_of_shaft'] += b.yaw != 0 and abs(math.remainder(a - b.yaw, 2 * math.pi)) < 1e-9
    st['rare_yaw_beyond_pi'] += abs(b.yaw) > math.pi


def run(plan, ctx):
    st = ctx.stats
    s = Sys(ctx=ctx)
    with s.w:
        for op in plan['ops']:
            k = op['op']
            if not (k == 'sweep' and op['t'] in s.T) and not s.book.valid(op):
                continue
            if k == 'sweep':
                obj = s.T[op['t']]

                def go():
                    y = op['start']
                    for i in range(op['n']):
                        y = op['start'] + (i + 1) * op['step']
                        obj.update_yaw_pos(y)
                    return y
                out, v, _, _, _ = ENGINE.call(go)
                if out == 'exc':
                    raise Violation('update raised', 'sweep: %r' % v)
                s.book.T[op['t']].yaw = v
                st['rare_long_sweep'] += op['n'] > 200
                st['yaw_steps'] += op['n']
            else:
                if k == 'chi':
                    st['rare_prescribed'] += op['v'] is not None
                    st['rare_prescription_cleared'] += op['v'] is None and s.book.T[op['t']].chi is not None
                st['rare_frame_changed'] += k == 'frame'
                s.step(op, reference=False)
            for t in sorted(s.T):
                note(s, t, st)
                s.angles(t, 'after ' + k)
                s.disk(t, op.get('disk', 20))
                st['disks_checked'] += 1
            if 't' in op and op['t'] in s.T:
                o = s.T[op['t']]
                ctx.log.append([float('%.8g' % x) for x in (o.yaw_pos, o.yaw_wind)])


def nontrivial(st):
    return st.get('op_yaw', 0) > 0 and st.get('op_wind', 0) > 0
