"""Calls to the library's functions, as JSON: {'fn': name, 'P': [[..]..], 'kw': {...}, 'form': .., 'pos': [...]}"""
import copy

import numpy as np

from . import domain as D

# name: (module, function, coordinates, parameter generator)
#   xyz: X,Y,Z   pol: r,psi,z   rz: r,z   nm: n,m   r: r   none: positional arguments only


def _g(r):
    if r.random() < 0.12:
        return r.choice([0, 0.0, -1, 2])
    return D.rnd(r.uniform(-3, -0.2))


def _R(r):
    return r.choice([1.0, 1.0, 0.7, 2.5])


def _m(r):
    if r.random() < 0.1:
        return D.rnd(r.choice([-1, 1]) * r.uniform(1, 12))
    return r.choice([0.2, -0.35, D.rnd(r.uniform(-0.8, 0.8))])


def A(x):
    return {'__a': x}


def _at(r, v):
    return v if r.random() < 0.7 else 0.0


def _cyls(key):
    def f(r):
        n, k = r.choice([1, 2]), r.choice([1, 2, 3])
        return {key: A([[_g(r) for _ in range(k)] for _ in range(n)]),
                'R': A([[D.rnd(0.3 + 0.5 * j + 0.1 * i) for j in range(k)] for i in range(n)]),
                'Xcyl': A([_at(r, D.rnd(r.uniform(-1, 1))) for _ in range(n)]), 'Ycyl': A([_at(r, D.rnd(r.uniform(0, 1))) for _ in range(n)]),
                'Zcyl': A([_at(r, D.rnd(r.uniform(-1, 1))) for _ in range(n)]), 'Ground': r.random() < 0.4}
    return f


def _scyls(key):
    g = _cyls(key)

    def f(r):
        kw = g(r)
        kw['m'] = A([[_m(r) for _ in row] for row in kw['R']['__a']])
        return kw
    return f


def _rings(r):
    n = r.choice([1, 2, 4])
    return dict(Gamma_r=A([_g(r) for _ in range(n)]), Rr=A([D.rnd(r.uniform(0.4, 2)) for _ in range(n)]),
                Xr=A([D.rnd(r.uniform(-1, 1)) for _ in range(n)]), Yr=A([D.rnd(r.uniform(-1, 1)) for _ in range(n)]),
                Zr=A([D.rnd(r.uniform(-1, 1)) for _ in range(n)]), polar_out=r.random() < 0.5)


def _b(r):
    return r.random() < 0.5


POINTWISE = {
    'ss_u': ('SelfSimilar', 'xyz', lambda r: dict(gamma_t=_g(r), R=_R(r))),
    'vc_tang_u_doublet': ('VortexCylinder', 'xyz', lambda r: dict(gamma_t=_g(r), R=_R(r), r_bar_Cut=r.choice([1.5, 2, 6]), polar_out=_b(r))),
    'vc_tang_u': ('VortexCylinder', 'xyz', lambda r: dict(gamma_t=_g(r), R=_R(r), polar_out=_b(r), epsilon=r.choice([0, 0, 0.05]))),
    'vc_longi_u_polar': ('VortexCylinder', 'pol', lambda r: dict(gamma_l=_g(r), R=_R(r), polar_out=_b(r))),
    'vc_longi_u': ('VortexCylinder', 'xyz', lambda r: dict(gamma_l=_g(r), R=_R(r), polar_out=_b(r))),
    'vc_root_u': ('VortexCylinder', 'xyz', lambda r: dict(Gamma_r=_g(r), polar_out=_b(r))),
    'cylinder_tang_semi_inf_u_raw': ('VortexCylinder', 'xyz', lambda r: dict(gamma_t=_g(r), R=_R(r))),
    'vcs_tang_u': ('VortexCylinder', 'xyz', _cyls('gamma_t')),
    'vcs_longi_u': ('VortexCylinder', 'xyz', _cyls('gamma_l')),
    'cylinder_tang_u': ('VortexCylinder', 'xyz', lambda r: dict(gamma_t=_g(r), R=_R(r), z1=-1.1, z2=1.3, polar_out=_b(r))),
    'svc_tang_u_polar': ('VortexCylinderSkewed', 'pol', lambda r: dict(gamma_t=_g(r), R=_R(r), m=_m(r), ntheta=60, polar_out=_b(r))),
    'svc_longi_u_polar': ('VortexCylinderSkewed', 'pol', lambda r: dict(gamma_l=_g(r), R=_R(r), m=_m(r), ntheta=60, polar_out=_b(r))),
    'svc_root_u_polar': ('VortexCylinderSkewed', 'pol', lambda r: dict(Gamma_r=_g(r), m=r.choice([0, _m(r), _m(r)]), polar_out=_b(r))),
    'svc_u_polar': ('VortexCylinderSkewed', 'pol', lambda r: dict(gamma_t=_g(r), gamma_l=_g(r), Gamma_r=_g(r), R=_R(r), m=_m(r), ntheta=60)),
    'svc_longi_u': ('VortexCylinderSkewed', 'xyz', lambda r: dict(gamma_l=_g(r), R=_R(r), m=_m(r), ntheta=60, polar_out=_b(r))),
    'svc_tang_u': ('VortexCylinderSkewed', 'xyz', lambda r: dict(gamma_t=_g(r), R=_R(r), m=_m(r), ntheta=60, polar_out=_b(r))),
    'svc_root_u': ('VortexCylinderSkewed', 'xyz', lambda r: dict(Gamma_r=_g(r), m=_m(r), polar_out=_b(r))),
    'svcs_tang_u': ('VortexCylinderSkewed', 'xyz', lambda r: dict(_scyls('gamma_t')(r), ntheta=60)),
    'svcs_longi_u': ('VortexCylinderSkewed', 'xyz', lambda r: dict(_scyls('gamma_l')(r), ntheta=60)),
    'fV_Trailed': ('VortexCylinderSkewed', 'pol', lambda r: dict(m=_m(r), gamma_longi=_g(r), ntheta=60, nout=r.choice([1, 3, 7]))),
    'fV_Tangential': ('VortexCylinderSkewed', 'pol', lambda r: dict(m=_m(r), gamma_t=_g(r), ntheta=60, nout=r.choice([1, 3, 7]))),
    'fV_Root': ('VortexCylinderSkewed', 'pol', lambda r: dict(m=_m(r), Gamma_r=_g(r), nout=r.choice([1, 3, 7]))),
    'doublet_u': ('VortexDoublet', 'xyz', lambda r: dict(m=[0, 0.3, _g(r)], x0=[0.1, 0, D.rnd(r.uniform(-1, 1))])),
    'doublet_u_polar': ('VortexDoublet', 'rz', lambda r: dict(m_z=_g(r), z0=D.rnd(r.uniform(-1, 1)))),
    'doublet_line_polar_u_num': ('VortexDoublet', 'rz', lambda r: dict(dmz_dz=_g(r), z0=0, zmax=20, nQuad=12)),
    'doublet_line_polar_u': ('VortexDoublet', 'rz', lambda r: dict(dmz_dz=_g(r))),
    'doublet_line_u': ('VortexDoublet', 'xyz', lambda r: dict(dmz_dz=_g(r), m=r.choice([0, _m(r)]), L=r.choice(['inf', 3.0]))),
    'doublet_line_u_num': ('VortexDoublet', 'xyz', lambda r: dict(dmz_dz=_g(r), m=_m(r), zmax=20, nQuad=12)),
    'vl_semiinf_straight_u_polar': ('VortexLine', 'pol', lambda r: dict(Gamma_r=_g(r), polar_out=_b(r))),
    'vl_semiinf_straight_u': ('VortexLine', 'xyz', lambda r: dict(Gamma_r=_g(r), polar_out=_b(r))),
    'ring_u_polar_singular': ('VortexRing', 'rz', lambda r: dict(Gamma=_g(r), r0=_R(r))),
    'ring_u_polar_singularb': ('VortexRing', 'rz', lambda r: dict(Gamma=_g(r), r0=_R(r))),
    'ring_u_polar': ('VortexRing', 'rz', lambda r: dict(Gamma=_g(r), r0=_R(r), z0=D.rnd(r.uniform(-1, 1)), epsilon=r.choice([0, 0.1]),
                                                        reg_method=r.choice(['Saffman', 'linear']))),
    'ring_u': ('VortexRing', 'xyz', lambda r: dict(Gamma=_g(r), R=_R(r), polar_out=_b(r), epsilon=r.choice([0, 0.1]))),
    'rings_u': ('VortexRing', 'xyz', _rings),
    'ellipticPiCarlson': ('elliptic', 'nm', lambda r: {}),
    'fKxit': ('VortexCylinderSkewed', 'r', lambda r: dict(m=r.choice([0, _m(r)]))),
    'fKzt': ('VortexCylinderSkewed', 'r', lambda r: dict(m=_m(r), nout=r.choice([1, 2, 3]))),
    'windfarm_gridlayout_CTconst': ('WindFarm', 'xyz', lambda r: dict(R=1, CT=0.6, U0=8, nxWT=2, xWTSpacing=4, nzWT=2, zWTSpacing=6,
                                                                     hub_height=r.choice([0, 1.5]), mirror=_b(r))),
    'transform_T': ('WindTurbine', 'Txyz', lambda r: {}),
    'transform': ('WindTurbine', 'Txyz', lambda r: {}),
    'vp_u': ('VortexPoint', 'cp2', lambda r: dict(Pv=A([0.1, -0.2]), Gamma=_g(r), rcore=0.3, bViscous=_b(r))),
    'vps_u': ('VortexPoint', 'cpn', lambda r: dict(XV=A([[0.1, 0.2], [-1.3, 0.4], [0.5, -2.0]]), Gammas=A([1.0, -0.5, 2.0]),
                                                  SmoothModel=r.choice([0, 1, 2]), KernelOrder=r.choice([0, 2, 4, 6, 8, 10]),
                                                  SmoothParam=A([0.2, 0.3, 0.25]))),
    'Ct_const_cutoff': ('Solver', 'cut', lambda r: dict(r_bar_cut=0.2, r_bar_tip=r.choice([None, 0.9]))),
    'CirculationFromPrescribedCt': ('Solver', 'rc', lambda r: dict(Lambda=r.choice([6., 8.]), bSwirl=_b(r))),
}


def _radial(r, n=None):
    n = n or r.choice([3, 6])
    rb = [D.rnd((i + 0.5) / n) for i in range(n)]
    if r.random() < 0.3:
        rb[0] = 0.0
    return rb


def _circ(name):
    def f(r):
        rb = _radial(r)
        R, U0 = _R(r), r.choice([8., 10.])
        lam = r.choice([6., 8., 30.])
        Om = lam * U0 / R
        k = [D.rnd(r.uniform(0.2, 0.7))] * len(rb)
        G = [D.rnd(x * np.pi * U0 ** 2 / Om, 6) for x in k]
        rr = [D.rnd(x * R) for x in rb]
        kw = dict(R=R, U0=U0, Omega=Om, bSwirl=_b(r))
        if name.endswith('Discr'):
            if rr[0] == 0:
                rr[0] = 0.01
            kw['nB'] = r.choice([1, 1, 3])
            kw['bTanInd_k'] = _b(r)
            if r.random() < 0.3:
                kw['r_cyl'] = A([x + 0.02 for x in rr])
        return [A(rr), A(G)], kw
    return f


def _ind(r):
    rb = _radial(r)
    lam = 7.
    kw = dict(bHighThrustCorr=_b(r))
    if r.random() < 0.3:
        kw['Cq'] = A([D.rnd(r.uniform(0.02, 0.06)) for _ in rb])
    return [A(rb), A([x * lam for x in rb]), A([D.rnd(r.uniform(0.2, 0.7)) for _ in rb]), _b(r)], kw


def _wv(kind):
    def f(r):
        n = r.choice([1, 3, 5])
        R, U0, lam = _R(r), 9., r.choice([6., 30., 'inf'])
        rr = [D.rnd(x * R) for x in np.linspace(0.05, 0.995, n)] if n > 1 else [0.995 * R]
        Om = 800. if lam == 'inf' else lam * U0 / R
        c = [D.rnd(r.uniform(0.2, 0.8)) for _ in rr]
        if kind == 'Gamma':
            c = [x * np.pi * U0 ** 2 / Om for x in c]
        return [A(rr), A(c), R, U0, lam if lam == 'inf' else Om], {}
    return f


def _rot(r):
    u = r.choice([[0, 0, 1], [0, 1, 0], [0.6, 0, 0.8]])
    return [A(u), D.rnd(r.uniform(-3, 3))], {}


def _abc(r):
    n = r.choice([1, 3, 6])
    m = r.choice([0, _m(r)])
    x = [[D.rnd(r.uniform(-3, 3), 3) for _ in range(3)] for _ in range(n)]
    a = [D.rnd(np.sqrt(p[0] ** 2 + p[1] ** 2 + p[2] ** 2) + 0.05, 6) for p in x]
    return [A(a), A([D.rnd(m * p[0] + p[2], 6) for p in x]), D.rnd(np.sqrt(m ** 2 + 1), 6)], {}


def _inum(r):
    return [D.rnd(r.uniform(-3, 3), 3), D.rnd(r.uniform(0.2, 2), 3), D.rnd(r.uniform(-3, 3), 3), r.choice([0, _m(r)])], dict(nQuad=40, zmax=20)


def _line(r):
    e = r.choice([(0, 0, 1), (0.6, 0, 0.8), (0, -1, 0)])
    vm = r.choice([0, 0, 5])
    return [D.rnd(r.uniform(-2, 2), 3), D.rnd(r.choice([0, r.uniform(-2, 2)]), 3), D.rnd(r.uniform(-2, 2), 3), *e, _g(r), vm, 0.2 * (vm == 5)], {}


OTHER = {
    'vl_semiinf_u': ('VortexLine', _line),
    'I30': ('VortexDoublet', _abc), 'tI50': ('VortexDoublet', _abc), 'tI51': ('VortexDoublet', _abc), 'tI52': ('VortexDoublet', _abc),
    'I30_num': ('VortexDoublet', _inum), 'I50_num': ('VortexDoublet', _inum), 'I51_num': ('VortexDoublet', _inum), 'I52_num': ('VortexDoublet', _inum),
    'get_contours': ('plotting_functions', lambda r: ([r.choice([0.4, 0.95])], {})),
    'WakeVorticityFromCirculation_Cont': ('Solver', _circ('Cont')),
    'WakeVorticityFromCirculation_Discr': ('Solver', _circ('Discr')),
    'InductionsFromCirculation_VC_Cont': ('Solver', _ind),
    'InductionsFromPrescribedCtCq_ST': ('Solver', lambda r: ([A(_radial(r, 4)[0:] or [0.1]), A([0.5, 0.6, 0.7, 0.8]), A([0.05, 0.05, 0.04, 0.03]), 7., _b(r)], {})),
    'WakeVorticityFromCt': ('Solver', _wv('Ct')),
    'WakeVorticityFromGamma': ('Solver', _wv('Gamma')),
    'RotMat_AxisAngle': ('WindTurbine', _rot),
    'orth_vect': ('WindTurbine', lambda r: ([A([D.rnd(r.uniform(0.1, 1)), 0.3, -0.2])], {})),
    'gridLayout': ('WindFarm', lambda r: ([2, 3., 2, 5.], dict(hub_height=1.5, mirror=_b(r)))),
    'skew_components': ('VortexCylinderSkewed', lambda r: ([A([0.3, 0.2]), A([1., -0.4]), _m(r)], {})),
    'polar_components': ('VortexCylinderSkewed', lambda r: ([A([0.3, 0.2]), A([1., -0.4]), A([0.1, 2.0])], {})),
}

LOOPS = ['vcs_tang_u', 'vcs_longi_u', 'svcs_tang_u', 'svcs_longi_u', 'rings_u', 'vps_u', 'windfarm_gridlayout_CTconst', 'svc_u_polar', 'fKxit']
NAMES = sorted(POINTWISE) + sorted(OTHER)
NOSHAPE = {'ellipticPiCarlson', 'fKxit', 'fKzt', 'vps_u', 'vp_u', 'CirculationFromPrescribedCt', 'Ct_const_cutoff'}


BIG = [21, 33, 64, 65, 100, 129, 200, 257, 300, 513, 700, 1025, 1500, 2049]


def big(r):
    """numbers of points at which implementations switch strategy"""
    return r.choice(BIG[:8]) if r.random() < 0.7 else r.choice(BIG)


def mixed(r, n):
    """n points from one region, except for a few from another, and the indices of those"""
    def region():
        k = r.choice([0.3, 1., 3., 9., 40.])
        side = r.choice([None, None, 1, -1])
        lo = r.choice([0., 0., 0.6, 1.3]) * k

        def one():
            p = [D.rnd(r.uniform(-k, k), 3) for _ in range(3)]
            if lo and max(abs(p[0]), abs(p[1])) < lo:
                p[r.randrange(2)] = D.rnd(lo * r.choice([-1, 1]), 3)
            if side:
                p[2] = abs(p[2]) * side
            return p
        return one
    a, b = region(), region()
    out = [a() for _ in range(n)]
    odd = sorted({r.randrange(n) for _ in range(r.choice([1, 1, 2, 4]))})
    tiny = r.random() < 0.25
    for i in odd:
        out[i] = b()
        if tiny:
            # within a hair of the axis
            e = r.choice([1, 3]) * 10. ** -r.randint(4, 9)
            out[i] = [r.choice([e, -e, 0.]), r.choice([e, -e, 0.]), r.choice([0., 0., out[i][2]])]
        elif r.random() < 0.2:
            out[i] = r.choice([[0., 0., 0.], [0., 0., out[i][2]], [out[i][0], out[i][1], 0.], [float('nan')] * 3,
                               [1e9, 0.5, 1e9], [float('inf'), 0., 0.]])
    return out, odd


def coords(kind, r, n, special=0.15, xyz=None):
    """n control points in the coordinates of a kernel"""
    out = []
    for k in range(n):
        x, y, z = [D.rnd(r.uniform(-3, 3), 3) for _ in range(3)]
        if xyz is not None:
            x, y, z = xyz[k]
        elif r.random() < special:
            k = r.randrange(6)
            if k == 5:
                x, y, z = D.rnd(r.uniform(-40, 40)), D.rnd(r.uniform(-40, 40)), D.rnd(r.uniform(-60, 60))
            elif k == 4:
                x = y = z = 0.0
            elif k == 0:
                z = 0.0
            elif k == 1:
                x = y = 0.0
            elif k == 2:
                z = abs(z)
            else:
                x, y = D.rnd(r.uniform(-9, 9)), D.rnd(r.uniform(-9, 9))
        rr, psi = abs(x) or r.choice([0.31, 0.31, 0.]), D.rnd(r.uniform(-3, 3), 3)
        if kind in ('xyz', 'Txyz'):
            out.append([x, y, z])
        elif kind == 'pol':
            out.append([rr, psi, z])
        elif kind == 'rz':
            out.append([rr, z])
        elif kind == 'nm':
            if r.random() < special / 2:
                out.append([r.choice([0., 1., 1.2, -30., 0.5]), r.choice([0., 1., 1., 1.1, 0.999999])])
            else:
                out.append([D.rnd(r.uniform(-2, 0.95)), D.rnd(r.uniform(0.0, 0.98))])
        elif kind == 'r':
            out.append([r.choice([0., 1., 1., 1e-9, 1.3]) if r.random() < special else D.rnd(r.uniform(0.05, 0.95))])
        elif kind in ('cp2', 'cpn'):
            out.append([x, y])
        elif kind == 'cut':
            # stations beyond the tip too
            out.append([D.rnd(r.uniform(0, 1.3))])
        elif kind == 'rc':
            out.append([D.rnd(r.uniform(0, 1)), D.rnd(r.uniform(0.1, 0.9))])
    return out


def make(r, name=None, n=None, special=0.15, xyz=None):
    name = name or r.choice(NAMES)
    if xyz is not None:
        n = len(xyz)
    if name in OTHER:
        pos, kw = OTHER[name][1](r)
        return dict(fn=name, pos=pos, kw=kw)
    mod, kind, par = POINTWISE[name]
    if xyz is None and r.random() < 0.1:
        n = n or r.choice([2, 5, 9, 24])
        xyz, _ = mixed(r, n)
    c = dict(fn=name, P=coords(kind, r, n or r.choice([1, 2, 4, 6]), special, xyz), kw=par(r))
    if r.random() < 0.5:
        c['form'] = r.choice(['2d', 'fort', '3d', 'strided', 'ro', 'buf'] if name not in NOSHAPE else ['strided', 'ro', 'buf'])
    return c


def nudge(r, c, by=2e-5):
    """the same call with slightly other numbers in some of its arguments"""
    c = copy.deepcopy(c)

    def go(x, arr=False):
        if isinstance(x, list):
            return [go(y, arr) for y in x]
        if isinstance(x, dict):
            return {k: go(y, k == '__a') for k, y in x.items()}
        return x * (1 + by) if isinstance(x, float) or arr else x
    if 'pos' in c:
        c['pos'] = [go(x) if r.random() < 0.6 else x for x in c['pos']]
    if 'P' in c and r.random() < 0.6:
        c['P'] = go(c['P'])
    c['kw'] = {k: go(x) if r.random() < 0.5 else x for k, x in c['kw'].items()}
    return c


def _val(v, keep, ro):
    if isinstance(v, dict) and '__a' in v:
        a = np.array(v['__a'], float)
        if ro:
            a.flags.writeable = False
        keep.append(a)
        return a
    if v == 'inf':
        return np.inf
    if isinstance(v, list):
        v = list(v)
        keep.append(v)
    return v


def build(world, c, bufs=None, keep=None, ro=False, cache=None):
    """(function, args, kwargs); `keep` collects every mutable argument"""
    keep = [] if keep is None else keep
    name = c['fn']
    ro = ro or c.get('form') == 'ro'
    if name in OTHER:
        f = getattr(world.mod(OTHER[name][0]), name)
        return f, [_val(v, keep, ro) for v in c['pos']], {k: _val(v, keep, ro) for k, v in c['kw'].items()}
    mod, kind, _ = POINTWISE[name]
    f = getattr(world.mod(mod), name)
    kw = {k: _val(v, keep, ro) for k, v in c['kw'].items()}
    form = c.get('form', 'arr')
    P = np.array(c['P'], float).reshape(len(c['P']), -1)
    if kind == 'cpn':
        a = P.copy() if form != 'buf' or bufs is None else bufs.get('cpn', P)
        if form == 'ro':
            a.flags.writeable = False
        args = [a]
    elif kind == 'cp2':
        a = P.T.copy() if form != 'buf' or bufs is None else bufs.get('cp2', P.T)
        kw['Pv'] = kw['Pv'].reshape(2, 1)
        if form == 'ro':
            a.flags.writeable = False
        args = [a]
    else:
        P3 = np.zeros((len(P), 3))
        P3[:, :P.shape[1]] = P
        key = (repr(c['P']), form)
        if cache is not None and key in cache:
            args = list(cache[key])        # the same arrays as another call
        else:
            args = list(D.points(dict(p=P3.tolist(), form=form), bufs)[:P.shape[1]])
            if cache is not None:
                cache[key] = list(args)
        if kind == 'Txyz':
            T = np.array([[0.6, 0.8, 0], [-0.8, 0.6, 0], [0, 0, 1.]])
            keep.append(T)
            args = [T] + args
        elif kind == 'cut':
            args = [0.8, kw.pop('r_bar_cut')] + args
        elif kind == 'rc':
            args = args + [kw.pop('Lambda'), kw.pop('bSwirl')]
    keep.extend(a for a in args if isinstance(a, np.ndarray))
    return f, args, kw


def norm(v):
    """result as a list of float arrays (None and scalars included)"""
    out = []

    def walk(x):
        if isinstance(x, (tuple, list)):
            for y in x:
                walk(y)
        elif isinstance(x, dict):
            for k in sorted(x):
                walk(x[k])
        elif x is None:
            out.append(np.array([], float))
        else:
            out.append(np.asarray(x, float))
    walk(v)
    return out


def same(a, b, rtol=1e-9):
    """None, or how two normalised results differ"""
    if len(a) != len(b):
        return '%d results instead of %d' % (len(a), len(b))
    for i, (x, y) in enumerate(zip(a, b)):
        if x.shape != y.shape:
            return 'result %d has shape %s instead of %s' % (i, x.shape, y.shape)
        with np.errstate(all='ignore'):
            fin = np.abs(y[np.isfinite(y)])
            sc = max(1.0, float(np.median(fin))) if fin.size else 1.0
            ok = (x == y) | (np.isnan(x) & np.isnan(y)) | (np.abs(x - y) <= rtol * np.maximum(np.abs(y), sc))
        if not np.all(ok):
            k = tuple(np.argwhere(~ok)[0])
            return 'result %d at %s: %r instead of %r' % (i, list(map(int, k)), float(x[k]), float(y[k]))
    return None


def points_of(c):
    """result index over points: (n, ...) view of a pointwise result"""
    return len(c['P'])
