"""Turbines and farms as the simulator sees them: settings models, operations in plain JSON, twins."""
import copy
import math

import numpy as np

from . import model
from .world import World

D3 = float.fromhex('0x1.279a74590331ap-1')      # 1/sqrt(3) less three ulps: normalised, three components just below 1/sqrt(3)
D2 = 1/math.sqrt(2)
FRAMES = [((0, 0, 1), (0, 1, 0)), ((1, 0, 0), (0, 0, 1)), ((0, 1, 0), (0, 0, 1)), ((0, 0, 1), (1, 0, 0)),
          ((0.6, 0.8, 0), (0, 0, 1)), ((-1, 0, 0), (0, 0, 1)), ((0.8, 0, 0.6), (0, 1, 0)), ((0, 0, 1), (0, -1, 0)),
          ((D3, D3, D3), (D2, -D2, 0)), ((D3, -D3, D3), (D2, D2, 0))]

MODELS = ['VC', 'VCFF', 'VD', 'SS']


def rnd(x, n=4):
    return float(round(x, n))


# ------------------------------------------------------------------ settings
class Settings:
    """everything a turbine's answers may depend on"""
    FIELDS = ('R', 'shaft', 'vert', 'hub', 'U', 'Lambda', 'Ground', 'Model', 'yaw', 'chi', 'load', 'gam', 'gamf', 'name')

    def __init__(self, **k):
        self.R = 1.
        self.shaft, self.vert = FRAMES[0]
        self.hub = [0, 0, 0]
        self.U = [0, 0, 10]
        self.Lambda = float('inf')
        self.Ground = False
        self.Model = 'VC'
        self.yaw = 0.
        self.chi = None
        self.load = None        # (spec, wind at that time, Lambda used)
        self.gam = None         # directly assigned gamma_t
        self.gamf = 1.          # gamma_t scaled in place since
        self.name = ''
        for a, b in k.items():
            setattr(self, a, b)

    def copy(self):
        s = Settings()
        for f in self.FIELDS:
            setattr(s, f, copy.deepcopy(getattr(self, f)))
        return s

    def key(self):
        return repr([getattr(self, f) for f in self.FIELDS])


def frame_of(s):
    shaft, vert = np.asarray(s.shaft, float), np.asarray(s.vert, float)
    return shaft, vert, np.cross(vert, shaft)


def wind_vec(shaft, vert, U, ang, w=0.):
    """horizontal wind of speed U at angle ang (about vert) from the zero-yaw shaft, vertical part w"""
    shaft, vert = np.asarray(shaft, float), np.asarray(vert, float)
    if ang == 0 and w == 0:
        return [float(x) for x in U * shaft]
    v = U * (math.cos(ang) * shaft + math.sin(ang) * np.cross(vert, shaft)) + w * vert
    return [rnd(x, 6) for x in v]


# ------------------------------------------------------------------ argument forms
FORMS = ['list', 'tuple', 'arr', 'col', 'row', 'ro', 'strided', 'buf', 'int', 'ilist']


class Buffers:
    """persistent caller-owned buffers, reused between calls (same object, new content)"""
    def __init__(self):
        self.b = {}

    def get(self, key, values):
        v = np.asarray(values, float)
        k = (key, v.shape)
        if k not in self.b:
            self.b[k] = v.copy()
        else:
            self.b[k][...] = v
        return self.b[k]


def vec3(v, form, bufs=None, key='v'):
    v = [float(x) for x in v]
    if form == 'list':
        return v
    if form == 'tuple':
        return tuple(v)
    if form in ('int', 'ilist') and all(x == int(x) for x in v):
        # as people write them
        return np.array(v, int) if form == 'int' else [int(x) for x in v]
    if form == 'col':
        return np.array(v).reshape(3, 1)
    if form == 'row':
        return np.array(v).reshape(1, 3)
    if form == 'ro':
        a = np.array(v)
        a.flags.writeable = False
        return a
    if form == 'strided':
        a = np.zeros(6)
        a[::2] = v
        return a[::2]
    if form == 'buf' and bufs is not None:
        return bufs.get(key, v)
    return np.array(v)


# ------------------------------------------------------------------ loading
def load_args(spec, R, U, world=None, cb=None):
    """keyword arguments of update_loading for a JSON spec.
    spec: {kind: Ct|Gamma|cb|uni, ct:float, shape: const|cut|lin|in, n: points, nCyl, Lambda}"""
    n = spec.get('n', 12)
    rb = np.linspace(0.0 if spec.get('nCyl', 1) is not None else 0.15, 1, n)
    if spec.get('span') and spec.get('nCyl', 1) is not None:
        # stations which do not reach the root or the tip, or are unevenly spaced
        a, b, p = spec['span']
        rb = a + (b - a) * rb ** p
    ct = spec['ct']
    prof = np.ones(n) * ct
    if spec.get('shape') == 'cut':
        prof = np.where(rb < 0.2, ct * rb / 0.2, prof)
    elif spec.get('shape') == 'lin':
        prof = ct * (0.6 + 0.4 * rb)
    elif spec.get('shape') == 'in':
        prof = ct * (1 - 0.35 * rb ** 2)
    kw = dict(r=rb * R)
    if spec.get('nCyl', 1) is None:
        # cylinders given by the caller
        n = spec['n']
        rb = (np.arange(n) + 1.0) / n * 0.98
        kw['r'] = rb * R
        prof = ct * (np.ones(n) if spec.get('shape') != 'in' else 1 - 0.35 * rb ** 2)
    kind = spec['kind']
    Un = math.sqrt(sum(x * x for x in U))
    if kind in ('Ct', 'cb'):
        kw['Ct'] = prof if spec.get('arr', True) else ct
    elif kind == 'Gamma':
        lam = spec['lam_eff']
        Om = 800. if math.isinf(lam) else lam * Un / R
        kw['Gamma'] = prof * np.pi * Un ** 2 / Om
        if spec.get('total'):
            kw['Gamma'] = float(np.mean(kw['Gamma']))
    if spec.get('total'):
        # rotor totals, nothing else said
        del kw['r']
    if spec.get('nCyl', 1) != 1 or not spec.get('total'):
        kw['nCyl'] = spec.get('nCyl', 1)
    if spec.get('Lambda') is not None:
        kw['Lambda'] = float(spec['Lambda'])
    if kind == 'cb':
        k = spec['cbk']
        kw['gamma_t_Ct'] = cb or (lambda c: -k * np.asarray(c) * Un)
    return kw


# ------------------------------------------------------------------ twins
def build(world, s):
    """a new turbine in `world`, given the settings directly"""
    WT = world.WindTurbine.WindTurbine
    U0 = s.load[1] if s.load is not None else s.U
    t = WT(R=s.R, r_hub=[float(x) for x in s.hub], e_shaft_yaw0=list(s.shaft), e_vert=list(s.vert),
           U0=[float(x) for x in U0], Lambda=s.Lambda, name=s.name, Ground=s.Ground, Model=s.Model)
    if s.load is not None:
        spec, U, lam = s.load
        sp = dict(spec)
        sp['Lambda'] = lam
        t.update_loading(**load_args(sp, s.R, U))
        t.update_wind([float(x) for x in s.U])
    if s.gam is not None:
        t.gamma_t = np.array(s.gam, float)
    if s.gamf != 1:
        t.gamma_t = np.array(t.gamma_t, float) * s.gamf
    t.update_yaw_pos(s.yaw)
    if s.chi is not None:
        t.set_chi(s.chi)
    return t


def points(spec, bufs=None):
    """control points from JSON: {'p': [[x,y,z]..], 'shape': .., 'form': ..}"""
    P = np.asarray(spec['p'], float).reshape(-1, 3)
    form = spec.get('form', 'arr')
    out = []
    for k in range(3):
        c = P[:, k].copy()
        if form == '2d' and len(c) % 2 == 0 and len(c) > 0:
            c = c.reshape(2, -1)
        elif form == 'col':
            c = c.reshape(-1, 1)
        elif form == 'fort' and len(c) % 2 == 0 and len(c) > 0:
            c = np.asfortranarray(c.reshape(-1, 2))
        elif form == '3d' and len(c) % 2 == 0 and len(c) > 0:
            c = c.reshape(2, 1, -1)
        elif form == 'strided':
            a = np.zeros(2 * len(c))
            a[::2] = c
            c = a[::2]
        elif form == 'ro':
            c.flags.writeable = False
        elif form == 'lst':
            c = c.tolist()
        elif form == 'int' and np.all(c == np.round(c)):
            c = c.astype(int)
        elif form == 'buf' and bufs is not None:
            c = bufs.get('pt%d' % k, c)
        out.append(c)
    return out


QKEYS = ('only_ind', 'longi', 'tang', 'root', 'no_wake', 'ground', 'Model', 'R_far_field')


def qopts(o):
    return {k: o[k] for k in QKEYS if k in o}


def flat(u):
    return np.array([np.asarray(c, float).ravel() for c in u])


# ------------------------------------------------------------------ comparing
def scale_of(s, gt):
    U = math.sqrt(sum(x * x for x in s.U))
    g = 0.
    if gt is not None:
        try:
            g = float(np.nanmax(np.abs(np.asarray(gt, float))))
        except Exception:
            g = 0.
    return max(U, g, 1e-3)


def close(a, b, tol, mask=None):
    """a, b: (3,n); returns index of the worst mismatch or None"""
    a, b = np.asarray(a, float), np.asarray(b, float)
    if a.shape != b.shape:
        return 'shape %s vs %s' % (a.shape, b.shape)
    with np.errstate(all='ignore'):
        d = np.abs(a - b)
        bad = ~(d <= tol)
        same = (np.isnan(a) & np.isnan(b)) | (a == b)
        bad &= ~same
    if mask is not None:
        bad &= mask
    if bad.any():
        i = np.argwhere(bad)[0]
        return 'component %s: %.12g instead of %.12g' % (list(map(int, i)), a[tuple(i)], b[tuple(i)])
    return None


def outcome_class(e):
    return type(e).__name__


# ------------------------------------------------------------------ reference velocity
def reference(s, tw, G, o, min_clear=0.12):
    """independent velocity at the points G (n,3) for a query with options o on settings s.
    tw: a twin, from which the wake strengths are read.  Returns (u (3,n), ok mask) or None if not covered."""
    ground = o.get('ground')
    ground = s.Ground if ground is None else ground
    mdl = o.get('Model') or s.Model
    tang, longi, root = o.get('tang', True), o.get('longi', False), o.get('root', False)
    gt = np.atleast_1d(np.asarray(getattr(tw, 'gamma_t', None), float))
    gl = getattr(tw, 'gamma_l', None) if s.gam is None else None
    Gr = getattr(tw, 'Gamma_r', None) if s.gam is None else None
    if not np.all(np.isfinite(gt)):
        return None
    multi = len(gt) > 1
    if (longi and gl is not None or root and Gr is not None) and ground:
        return None
    if longi and s.gam is not None or root and s.gam is not None:
        return None
    rf = model.Ref(s)
    # (from a wind, the angle itself is known to about 1e-8 only)
    if abs(rf.m) > (60 if s.chi is not None else 8):
        return None
    if 1e-9 < abs(rf.skew) < 1e-6:
        return None
    skewed = abs(rf.skew) > 1e-7
    if mdl != 'VC' and (skewed or multi or longi):
        return None
    radii = [s.R] if not multi else list(np.asarray(tw.r, float))
    if multi and len(radii) != len(gt):
        return None
    ok = rf.clear(G, radii, ground, root or mdl in ('VD', 'VCFF')) > min_clear
    u = np.zeros((len(G), 3))
    R = s.R
    with np.errstate(all='ignore'):
        m = rf.m if skewed else 0.
        for P in rf.images(G, ground):
            if tang:
                if mdl == 'VC':
                    for r, g in zip(radii, gt):
                        if g != 0:
                            u += model.semi_tang(P, r, m, g)
                elif mdl == 'VD':
                    ok &= np.hypot(P[:, 0], P[:, 1]) > 1e-3 * R
                    u += model.doublet_line(P, gt[0] * np.pi * R * R)
                elif mdl == 'VCFF':
                    cut = o.get('R_far_field', 6) * R
                    n = np.sqrt((P * P).sum(1))
                    ok &= np.abs(n - cut) > 1e-3 * R
                    far = n > cut
                    ok &= ~far | (np.hypot(P[:, 0], P[:, 1]) > 1e-3 * R)
                    u += np.where(far[:, None], model.doublet_line(P, gt[0] * np.pi * R * R),
                                  model.semi_tang(P, R, 0., gt[0]))
                elif mdl == 'SS':
                    ok &= np.abs(P[:, 2]) > 1e-6 * R
                    u += model.self_similar(P, R, gt[0])
            if root and Gr is not None and Gr != 0:
                u += model.semi_root(P, m, float(np.ravel(Gr)[0]))
            if longi and gl is not None:
                for r, g in zip(radii, np.atleast_1d(np.asarray(gl, float))):
                    if g != 0:
                        u += model.semi_longi(P, r, m, g)
    P = rf.local(G)
    if o.get('no_wake'):
        rc = np.hypot(P[:, 0], P[:, 1])
        ok &= (np.abs(P[:, 2] + 0.6 * R) > 1e-6 * R) & (np.abs(rc - 1.001 * R) > 1e-6 * R)
        zero = (P[:, 2] >= -0.6 * R) & (rc < 1.001 * R)
        ok |= zero & (np.abs(P[:, 2] + 0.6 * R) > 1e-6 * R) & (np.abs(rc - 1.001 * R) > 1e-6 * R)
        u[zero] = 0
    v = u.dot(rf.F)
    if not o.get('only_ind', False):
        v = v + np.asarray(s.U, float)
    return v.T, ok
