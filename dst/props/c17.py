"""C17: set-ups of the studies depend on their arguments and files alone"""
import math
import os
import shutil
import warnings

import numpy as np

from .. import domain as D
from ..disk import Disk, reset_dir
from ..engine import ENGINE, SimCancel
from ..machine import Violation
from ..world import World
from ._threads import kills, switches

RUNS = {'quick': 1500, 'thorough': 60000}
PROBES = ['rare_files_read_in_threads', 'rare_yawed_models_compared', 'op_model', 'op_floris', 'op_adfarm', 'op_plane', 'op_lines', 'op_proj', 'op_relerr', 'op_measures', 'op_eval', 'op_par', 'answers_compared', 'rare_matched', 'rare_overridden',
          'rare_ground', 'rare_tip_speed', 'rare_yawed', 'rare_failing_setup', 'rare_asked_again', 'rare_older_object', 'rare_new_content', 'rare_file_gone',
          'rare_unavailable', 'rare_vertical', 'rare_interpolated', 'switches', 'fault_line_int', 'fault_line_kbd', 'fault_call_mem', 'fault_call_fpe',
          'fault_console_oserror', 'fault_disk_eio', 'fault_disk_short', 'fault_thread_cut_off', 'arguments_checked', 'rare_list_changed', 'rare_models_compared']
RULE = ('one run = 4-14 set-ups of turbines, farms and planes of a study with the project\'s helpers and evaluations of what was set up, '
        'some failing, cut off, with data files missing, replaced or unreadable, or made by 2-3 threads under one schedule; every answer '
        'compared with turbines put together one by one in a pristine process image and with the content of the files; non-trivial = an object was '
        'evaluated after another set-up, failure or switch; distinct by digest of the history')
REAL = ['wiz.article_blockage.helper_functions (setupModel, OutputVC, VCFarmFromFloris, ADFarm2VCFarm, loadPlane, OutputAD, OutputProj, OutputADLines, getModelsRelErr, '
        'getModelsCMAP, relerrinduction*, gamma_CT_fun)',
        'wiz.WindTurbine, wiz.WindFarm, wiz.Solver and the kernels', 'numpy, scipy.io, scipy.interpolate, pickle']
STUBS = ['thread scheduler', 'standard output (simulated console)', 'disk (reads of a scratch directory with injected faults)', 'data files (made by the harness)']
ASSUMPTIONS = ['threads switch between lines and at calls into numpy/scipy of the code under test; numpy itself is atomic',
               'seeded sampling: histories that were not generated are not decided']
CTS = [0.4, 0.5, 0.64, 0.75, 0.95]
EVALS = {'model': ['fU', 'fHorz', 'fVert', 'fAxial', 'fRadial'], 'floris': ['field', 'field', 'one'], 'plane': ['fHorz', 'fVert', 'fCenter', 'fAxial', 'fRadial', 'fW', 'fU'],
         'proj': ['fVert', 'fW']}
COND = [0.25, -0.4, 1.3, 0.8, -1.7, 2.2, 0.6]


# ------------------------------------------------------------------ plans
def model(rng, like=None):
    if like and rng.random() < 0.6:
        p = dict(like)
        for _ in range(rng.choice([1, 1, 2])):
            k = rng.choice(['CT', 'HH', 'Lambda', 'Yaw', 'U0', 'gamma_t', 'Model', 'Horizontal'])
            p[k] = model(rng)[k]
        return p
    return dict(CT=rng.choice(CTS + [0.3, 0.85]), HH=rng.choice([1.2, 1.5, 2.0, 5.0, 8.9, 9, 9.5, 20.0, 9999]), Lambda=rng.choice([6, 10, 29.5, 30, 30, 99, 99, None, None]),
                Yaw=rng.choice([0, 0, -30, -20, 15, 7.5]), U0=rng.choice([1, 1, 8.0, 0.5]), gamma_t=rng.choice([None, None, None, -0.4, -3.]),
                Model=rng.choice(['VC', 'VC', 'VC', 'VD', 'SS', 'VCFF']), Horizontal=rng.random() < 0.6, match=False, ad=None)


def cts(rng, nx, ny):
    return [[D.rnd(rng.uniform(0.1, 0.9)) for _ in range(ny)] for _ in range(nx)]


def setup(rng, k, prev):
    like = [p for p in prev if p['op'] == k]
    like = rng.choice(like) if like else None
    if k == 'model':
        p = model(rng, like)
        p['match'] = rng.random() < 0.2
        pl = [q['i'] for q in prev if q['op'] == 'plane']
        p['ad'] = rng.choice(pl) if pl and rng.random() < (0.7 if p['match'] else 0.2) else None
    elif k == 'floris':
        if like and rng.random() < 0.6:
            p = dict(like)
            for _ in range(rng.choice([1, 1, 2])):
                q = setup(rng, k, [])
                a = rng.choice(['HH', 'S', 'gam', 'Model', 'CTs'])
                p[a] = q[a]
            if rng.random() < 0.3:
                p['CTs'] = cts(rng, len(like['CTs']), len(like['CTs'][0]))
        else:
            nx, ny = rng.choice([(1, 1), (1, 2), (2, 1), (2, 2), (3, 1), (2, 3)])
            p = dict(CTs=cts(rng, nx, ny), HH=rng.choice([0.8, 1.5, 5., 9.9, 10., 10.5, 99.]), S=rng.choice([3, 5, 4.5, 8]), gam=rng.choice([None, None, 0.5, 1.1]),
                     Model=rng.choice(['VC', 'VC', 'VD', 'SS', 'VCFF']))
    elif k == 'adfarm':
        n = rng.choice([1, 2, 2, 3])
        HH = rng.choice([0.8, 1.5, 5., 9.9, 10., 10.5, 99.])
        pos = [[D.rnd(rng.uniform(0, 12), 1), D.rnd(rng.uniform(-6, 6), 1), HH] for _ in range(n)]
        ln = [[D.rnd(rng.uniform(-5, 15), 2), D.rnd(rng.uniform(-4, 4), 2), HH] for _ in range(2 * rng.choice([1, 3, 5]))]
        p = dict(pos=pos, ct=[D.rnd(rng.uniform(0.1, 0.9)) for _ in range(n)], line=ln, gam=rng.choice([None, None, 0.5, 1.1]))
        if like and rng.random() < 0.5:
            p['pos'], p['ct'] = like['pos'], like['ct']
    elif k == 'plane':
        if like and rng.random() < 0.6:
            p = dict(like)
        elif rng.random() < 0.1:
            p = dict(CT=0.4, HH=rng.choice([1.5, 9999]), Lambda=6, Horizontal=rng.random() < 0.5, Yaw=-30)      # not available
        elif rng.random() < 0.5:
            p = dict(CT=rng.choice(CTS), HH=rng.choice([9999, 10.5]), Lambda=rng.choice([99, 99, 21]), Horizontal=True, Yaw=rng.choice([0, 0, -30, -20]))
        else:
            p = dict(CT=rng.choice(CTS), HH=rng.choice([1.5, 1.5, 2.0, 2.0, 9]), Lambda=rng.choice([6, 99, 30, 6, 99, 30, 20]), Horizontal=rng.random() < 0.5, Yaw=0)
        p['content'] = rng.choice([None, None, rng.randrange(1000)])     # None: the files are as they are
        p['gone'] = rng.random() < 0.08
        if p['content'] is not None and rng.random() < 0.1:
            p['content'] = -1 - p['content']            # the points of the file form no grid
    elif k == 'lines':
        p = dict(content=rng.choice([None, rng.randrange(1000)]), S=rng.choice([3, 4, 3, 4, 3.5]), Layout=rng.choice(['1x1', '1x2', '2x2']), CT=rng.choice(CTS), HH=rng.choice([1.5, 99.]))
    elif k == 'proj':
        p = dict(CT=rng.choice(CTS), HH=rng.choice([1.2, 9.]), Horizontal=rng.random() < 0.5, content=rng.choice([None, rng.randrange(1000)]))
    elif k == 'relerr':
        n = rng.choice([1, 2, 3])
        hor = rng.random() < 0.6
        p = dict(CT=rng.choice(CTS), HH=rng.choice([9999, 10.5, 1.5, 2.0] if hor else [1.5, 2.0, 2.0, 9999]), Lambda=rng.choice([6, 99, 99, None, None, None]), Horizontal=hor, Yaw=0,
                 angles=[D.rnd(rng.uniform(-3, 3)) for _ in range(n)], offs=[D.rnd(rng.choice([-1, 1]) * rng.uniform(1.1, 1.8)) for _ in range(n)],
                 rho=[D.rnd(x * rng.uniform(0.6, 0.9)) for x in COND[:rng.choice([1, 3, 5])]], use=rng.random() < 0.5,
                 Models=[rng.choice(['VC', 'VC', 'VD', 'SS', 'AD', 'GP']) for _ in range(rng.choice([1, 2, 3]))],
                 match=rng.random() < 0.5, HH_GP=rng.choice([999, 1.2, 9.]), suf=rng.choice(['', '_rev1_df01R_noGE']), U0=rng.choice([1, 1, 8.]))
        same = like and rng.random() < 0.3
        if same:            # only the files differ
            p = dict(like)
        elif like and rng.random() < 0.6:
            for a in ('CT', 'HH', 'Lambda', 'Horizontal', 'angles', 'offs', 'rho', 'use', 'Models', 'match', 'HH_GP', 'suf'):
                if rng.random() < 0.75 and a != 'angles' and a != 'offs':
                    p[a] = like[a]
        if p['Horizontal'] and p['HH'] in (9999, 10.5) and p['Lambda'] == 99 and not (same and p['Yaw'] == like['Yaw']):
            p['Yaw'] = rng.choice([0, 0, -30, -20])
        elif p['Yaw']:
            p['Yaw'] = 0
        if p['Yaw'] and rng.random() < 0.8:
            p['Models'] = [x if x in ('AD', 'GP') else 'VC' for x in p['Models']]       # (the others refuse)
        p.update(content=rng.randrange(1000) if rng.random() < (.7 if same else .33) else None, gone=rng.random() < 0.06,
                 gp=rng.randrange(1000) if rng.random() < (.7 if same else .33) else None)
    elif k == 'measures':
        n = rng.choice([3, 6, 9])
        p = dict(x=sorted(D.rnd(rng.uniform(-5.5, 1.)) for _ in range(n)), u=[D.rnd(rng.uniform(.4, 1.2)) for _ in range(n)], v=[D.rnd(rng.uniform(.4, 1.2)) for _ in range(n)],
                 x1=D.rnd(rng.uniform(-5, -3)), x2=D.rnd(rng.uniform(-2, 1)), dflt=rng.random() < 0.4, g=[D.rnd(rng.uniform(-1, 1)) for _ in range(4)], ct=D.rnd(rng.uniform(0, 1)),
                 alpha=rng.choice([None, 0.3, 0.6, 1.0]), spoil=rng.random() < 0.5)
        if like and rng.random() < 0.6:
            for a in ('u', 'v') if rng.random() < 0.5 else ('x',):
                if len(like[a]) == n:
                    p[a] = like[a]
        for a in ('x1', 'x2', 'g', 'ct', 'dflt', 'alpha'):
            if like and rng.random() < 0.5:
                p[a] = like[a]
        if rng.random() < 0.15:
            p['x1'] = -4.99
        if rng.random() < 0.15:
            p['x2'] = -1
    p['op'] = k
    return p


def ev(rng, p):
    k = p['op']
    o = dict(op='eval', i=p['i'], how=rng.choice(EVALS[k]), n=rng.choice([2, 3, 5]), s=D.rnd(rng.uniform(0.3, 2.5)))
    return o


def gen(rng, tier):
    ops, objs, prev = [], [], []
    W = [('model', 4), ('floris', 3), ('adfarm', 1.5), ('plane', 3), ('lines', .7), ('proj', .7), ('relerr', 1.6), ('measures', .7)]
    w = [(a, b) for a, b in W if rng.random() < 0.7] or W[:1]
    names, ws = [a for a, _ in w], [b for _, b in w]
    i = 0
    for _ in range(rng.randint(3, 9)):
        c = rng.random()
        if c < 0.13 and prev:
            par = []
            for _ in range(rng.choice([2, 2, 3])):
                ks = [k for k in names if k in ('model', 'floris', 'adfarm', 'relerr', 'measures', 'plane', 'proj')]
                if ks and rng.random() < 0.7:
                    p = setup(rng, rng.choice(ks), prev)
                    p['i'] = i
                    for a in ('content', 'gp'):
                        if a in p:
                            p[a] = None         # (the files are as they are)
                    if 'gone' in p:
                        p['gone'] = False
                    i += 1
                    par.append(dict(ops=[p] + ([ev(rng, p)] if p['op'] in EVALS else [])))
                    if p['op'] in EVALS:
                        objs.append(p)
                elif objs:
                    par.append(dict(ops=[ev(rng, rng.choice(objs))]))
            if len(par) > 1:
                ops.append(dict(op='par', par=par, switches=switches(rng), kills=kills(rng, len(par), 0.15)))
            continue
        if c < 0.5 and objs:
            o = ev(rng, rng.choice(objs))
        else:
            o = setup(rng, rng.choices(names, ws)[0], prev)
            o['i'] = i
            i += 1
            prev.append(o)
            if o['op'] in EVALS:
                objs.append(o)
        if rng.random() < 0.25:
            o['inj'] = inj(rng, o['op'])
        ops.append(o)
        if o['op'] in EVALS and rng.random() < 0.7:
            ops.append(ev(rng, o))
    for o in objs[-3:]:
        if rng.random() < 0.6:
            ops.append(ev(rng, o))
    return dict(ops=ops, tick=rng.choice([0, 0, 1, 10**9, -10**9]))


def inj(rng, k):
    at = rng.choice(['line', 'line', 'call', 'call', 'console'] + (['disk'] * 5 if k in ('plane', 'lines', 'proj', 'relerr') else []))
    f = dict(at=at, frac=D.rnd(rng.random(), 5))
    if at == 'line':
        f['exc'] = rng.choice(['int', 'kbd'])
    elif at == 'call':
        f['exc'] = rng.choice(['mem', 'fpe'])
    elif at == 'disk':
        f.update(kind=rng.choice(['eio', 'short', 'short']), n=rng.choice([1, 2, 100]), cut=D.rnd(rng.random()))
    return f


# ------------------------------------------------------------------ the files
def coords(n, a, b, seed):
    """ascending, three decimals, 0 among them"""
    r = np.random.RandomState(seed)
    while True:
        x = np.round(np.sort(np.concatenate([np.linspace(a, b, n - 1) + r.uniform(-.1, .1, n - 1), [0.]])), 3)
        if np.diff(x).min() > 0.002:
            return x


def field(shape, seed):
    return np.random.RandomState(seed).uniform(0.2, 1.2, shape)


class Files:
    def __init__(self, root):
        self.root = root
        self.c = {}             # name -> content
        self.clock, self.tick = 1600000000 * 10**9, 0       # the dates of the files

    def path(self, name):
        return os.path.join(self.root, 'data', name)

    def put(self, name, content):
        import pickle

        import scipy.io
        self.c[name] = content
        p = self.path(name)
        if name.endswith('.csv'):
            np.savetxt(p, content, fmt='%.18e', delimiter=',')
        elif name.endswith('.mat'):
            scipy.io.savemat(p, content)
        elif name.endswith('.npz'):
            np.savez(p, **content)
        else:
            with open(p, 'wb') as f:
                pickle.dump(content, f)
        self.clock += self.tick
        os.utime(p, ns=(self.clock, self.clock))

    def drop(self, name):
        if self.c.pop(name, None) is not None:
            os.remove(self.path(name))


def plane_files(p):
    """(grid files, field files); None: this case does not exist"""
    HH, Lam = p['HH'], p['Lambda']
    if Lam > 20:
        Lam = 99
    if HH > 9:
        HH = 9.9
        if not p['Horizontal'] or (p['Yaw'] != 0 and Lam != 99):
            return None
    elif p['Yaw'] != 0 or Lam not in (6, 99):
        return None
    base = 'CT0%d_HH%02d_Lambda%02d_Yaw%02d' % (round(p['CT'] * 100), round(HH * 10), Lam, -p['Yaw'])
    if HH > 9:
        return ['AD_' + base + '.mat'], HH, Lam
    d = 'Horizontal' if p['Horizontal'] else 'Vertical'
    g = ['Horizontal_X.csv', 'Horizontal_Z.csv'] if p['Horizontal'] else ['Vertical_Y_HH20.csv' if HH == 2.0 else 'Vertical_Y_HH15.csv', 'Vertical_Z.csv']
    return ['Ground/' + x for x in g + ['%s_%s_%s.csv' % (base, d, c) for c in ('U', 'V', 'W', 'Om')]], HH, Lam


NX, NZ = 6, 7


def write_plane(F, p, seed):
    r = plane_files(p)
    if r is None:
        return
    L = r[0]
    odd, seed = seed < 0, abs(seed)
    a, z = coords(NX, -2, 2, seed), coords(NZ, -3, 5, seed + 1)
    f = [field((NZ, NX), seed + 2 + k) for k in range(4)]
    if len(L) == 1:
        X, Z = np.meshgrid(a, z)
        if odd:
            (X, Z)[seed % 2][seed % NZ, seed % NX] += 0.0137
        F.put(L[0], dict(x=X, z=Z, u=f[0], v=f[1], w=f[2]))
    else:
        for name, v in zip(L, [a, z] + f):
            F.put(name, v)


def plane_content(F, p):
    """what loadPlane should find: dict of arrays; None: not available; 'gone': a file is missing"""
    r = plane_files(p)
    if r is None:
        return None
    L, HH, Lam = r
    if any(x not in F.c for x in L):
        return 'gone'
    if len(L) == 1:
        c = F.c[L[0]]
        d = dict(a=np.sort(np.unique(np.round(c['x'].ravel(), 3))), z=np.sort(np.unique(np.round(c['z'].ravel(), 3))), A=c['x'], Z=c['z'], U=c['u'], V=c['v'], W=c['w'], O=c['u'] * 0)
        if (len(d['z']), len(d['a'])) != c['x'].shape:
            return 'odd'
    else:
        a, z, U, V, W, O = [F.c[x] for x in L]
        A, Z = np.meshgrid(a, z)
        d = dict(a=a, z=z, A=A, Z=Z, U=U, V=V, W=W, O=O)
    d = {k: np.array(v) for k, v in d.items()}
    d.update(CT=p['CT'], HH=HH, Lambda=Lam, Yaw=p['Yaw'], Horizontal=p['Horizontal'])
    return d


def lines_content(seed, L):
    """the farm lines; one entry per layout"""
    r = np.random.RandomState(seed)
    out = {}
    for S, lay, CT, HH in L:
        n = int(lay[0]) * int(lay[2])
        nx = int(lay[0])
        base = 'd%d_%s_ct%.2f_hh%.2f' % (0 if lay == '1x1' else S, lay, CT, HH)
        pos = np.array([[S * (k // nx), 3. * (k % nx), HH] for k in range(n)], float)
        m = 9
        x = np.linspace(-5, 10, m)
        xyz = np.zeros((m, 3, 2))
        xyz[:, 0, 0] = x
        xyz[:, 0, 1] = x + 0.5
        out[base] = dict(xyz_wt=pos, ct_wt=r.uniform(0.2, 0.9, n), xyz=xyz, uvw=r.uniform(0.5, 1, (m, 3, 2)))
    return out


# ------------------------------------------------------------------ what the arguments say
class Expect:
    def __init__(self, st):
        self.memo = {}
        self.st = st

    def turbine(self, p, c):
        """the turbine of setupModel in a pristine process image; c: content of the plane it goes with"""
        a = dict(p)
        if c is not None:
            a.update({k: c[k] for k in ('CT', 'HH', 'Lambda', 'Yaw', 'Horizontal')})
        Lam = float('inf') if a['Lambda'] is None else a['Lambda']
        yaw = a['Yaw'] * math.pi / 180
        cut, n = (0.10, 30) if Lam < 30 else (0., 1)
        r = np.linspace(0, 1, 100)
        Ct = np.where(r < cut, a['CT'] * r / cut if cut else 0., a['CT'])
        w = World()
        with w:
            t = w.WindTurbine.WindTurbine(R=1, e_shaft_yaw0=[0, 0, 1], e_vert=[0, 1, 0], r_hub=[0, a['HH'], 0], Ground=a['HH'] < 9, Model=a['Model'])
            t.update_wind([a['U0'] * math.sin(yaw), 0, a['U0'] * math.cos(yaw)])
            t.set_chi(a['Yaw'] * (1 + 0.3 * (1 - math.sqrt(1 - a['CT']))) * math.pi / 180)
            t.update_loading(r=r, Ct=Ct, Lambda=Lam, nCyl=n)
            if a['gamma_t'] is not None:
                t.gamma_t = np.array([a['gamma_t']])
            elif a['match']:
                t.gamma_t = np.array([-(a['U0'] * math.cos(yaw) - center(c)) * 2])
        a['Lambda'] = Lam
        return w, t, a

    def farm(self, p):
        nx, ny = len(p['CTs']), len(p['CTs'][0])
        pos, ct = [], []
        for i in range(ny):
            for j in range(nx):
                pos.append([i * p['S'], (j - nx // 2) * p['S'], p['HH']])
                ct.append(p['CTs'][j][i])
        return self.turbines(pos, ct, p['gam'], p['HH'] < 10, p['Model'])

    def turbines(self, pos, ct, gam, ground, Model):
        w = World()
        T = []
        with w:
            for x, c in zip(pos, ct):
                t = w.WindTurbine.WindTurbine(R=0.5, e_shaft_yaw0=[1, 0, 0], e_vert=[0, 0, 1], r_hub=[float(y) for y in x], Ground=ground, Model=Model)
                t.update_wind([1, 0, 0])
                kw = {} if gam is None else dict(gamma_t_Ct=gamma_fun(gam))
                t.update_loading(Ct=c, **kw)
                T.append(t)
        return w, T

    def field(self, w, T, X, Y, Z, **kw):
        u = np.zeros((3,) + np.shape(X))
        with w:
            for t in T:
                u += np.array(t.compute_u(X, Y, Z, only_ind=True, **kw))
        u[0] += 1
        return u


def gamma_fun(k):
    """gamma_t/U0 = f(CT)"""
    return lambda ct: -k * (1.2 * np.asarray(ct) - 0.3 * np.asarray(ct) ** 2)


def nearest(a, v=0):
    return int(np.abs(np.asarray(a) - v).argmin())


def pairs(c, f, a, b):
    import scipy.interpolate as si
    with warnings.catch_warnings():
        warnings.simplefilter('ignore')
        g = si.interp2d(c['a'], c['z'], c[f], kind='cubic')
        return si.dfitpack.bispeu(*g.tck, a, b)[0]


def center(c):
    return c['W'][nearest(c['z']), nearest(c['a'])]


def grid(o):
    n, s = o['n'], o['s']
    v = np.array(COND[:n]) * s
    return np.sort(v), np.sort(np.array(COND[1:n + 1]) * s - 0.37)


# ------------------------------------------------------------------ running
class Study:
    def __init__(self, ctx):
        self.ctx, self.st = ctx, ctx.stats
        self.dir = os.path.join(ctx.scratch, 'c17')
        reset_dir(self.dir)
        for d in ('run', 'data', 'data/Ground', 'data/ProjCorr'):
            os.makedirs(os.path.join(self.dir, d))
        self.F = Files(self.dir)
        self.disk = Disk(self.dir)
        self.E = Expect(self.st)
        self.obj = {}           # number -> (plan of the set-up, object, expectation)
        self.last = None
        self.exec, self.excused, self.run_threads = ENGINE.call, lambda v: False, ENGINE.threads      # C10 puts its own here

    def start(self):
        self.w = World()
        self.m = self.w.script('wiz_abl')

    # ---- the call of a set-up, and the arguments it was given
    def call(self, p, keep=None, m=None, obj=None):
        m = m or self.m
        keep = [] if keep is None else keep
        obj = self.obj if obj is None else obj
        k = p['op']
        if k == 'model':
            ad = None
            if p['ad'] is not None:
                if p['ad'] not in obj:
                    return None
                ad = obj[p['ad']][1]
            Lam = float('inf') if p['Lambda'] is None else p['Lambda']
            kw = dict(CT=p['CT'], HH=p['HH'], Lambda=Lam, Horizontal=p['Horizontal'], Yaw=p['Yaw'])
            if ad is not None:
                kw = dict(AD=ad)
            return lambda: m.setupModel(U0=p['U0'], gamma_t=p['gamma_t'], Model=p['Model'], MatchMidVel=p['match'], **kw)
        if k == 'floris':
            C = np.array(p['CTs'])
            keep.append(C)
            f = None if p['gam'] is None else gamma_fun(p['gam'])
            return lambda: m.VCFarmFromFloris(C, p['HH'], p['S'], gamma_t_Ct=f, Model=p['Model'])
        if k == 'adfarm':
            d = dict(xyz_wt=np.array(p['pos'], float), ct_wt=np.array(p['ct']), xyz=np.array(p['line'], float).reshape(2, -1, 3).transpose(1, 2, 0).copy())
            keep += [d['xyz_wt'], d['ct_wt'], d['xyz']]
            f = None if p['gam'] is None else gamma_fun(p['gam'])
            return lambda: m.ADFarm2VCFarm(d, 'farm', gamma_t_Ct=f)
        if k == 'plane':
            def go():
                o = m.loadPlane(CT=p['CT'], HH=p['HH'], Lambda=p['Lambda'], Horizontal=p['Horizontal'], Yaw=p['Yaw'])
                return o
            return go
        if k == 'lines':
            def go():
                o = m.OutputADLines()
                a = (p['S'], p['Layout'], p['CT'], p['HH'])
                r = [o.getSim(*a)[1:], [o.get25(*a)], o.getSimCTs(*a)]
                if p['Layout'] != '1x1':
                    r.append(o.getSimTop(*a)[1:])
                # what was read is still the simulation
                d = o.getSim(*a)[0]
                r.append([np.array(d[q]) for q in ('xyz_wt', 'ct_wt', 'xyz', 'uvw')])
                return r
            return go
        if k == 'proj':
            return lambda: m.OutputProj(p['CT'], HH=p['HH'], Horizontal=p['Horizontal'])
        if k == 'relerr':
            A = [np.array(p['angles']), np.array(p['offs']), np.array(p['rho'])]
            keep += A
            Lam = float('inf') if p['Lambda'] is None else p['Lambda']
            M = [dict(name=x, ls='-') for x in p['Models']]

            def go():
                r, mr = m.getModelsRelErr(A[0], A[1], A[2], p['use'], p['CT'], M, p['match'], U0=p['U0'], HH=p['HH'], Lambda=Lam, Horizontal=p['Horizontal'], **(dict(Yaw=p['Yaw']) if p['Yaw'] else {}),
                                          suffix_GP=p['suf'], HH_GP=p['HH_GP'])
                return list(r) + list(mr)
            return go
        if k == 'measures':
            a = [np.array(p[x]) for x in 'xuv']
            keep += a

            def go():
                k2 = {} if p['dflt'] else dict(x1=p['x1'], x2=p['x2'])
                M, T, C = m.getModelsCMAP() if p['alpha'] is None else m.getModelsCMAP(p['alpha'])
                names = [q['name'] for q in M]
                r = [m.relerrinduction(*a, **k2), m.relerrinduction_mid(*a), m.relerrinduction_25(*a), m.gamma_CT_fun(p['ct'], *p['g']), m.find_nearest(a[1], p['ct'])[0],
                     m.find_nearest(a[1], p['ct'])[1], np.array(T), np.array(C), len(M), float(names == ['AD', 'VC'] and M[1]['color'] == C[0])]
                if p['spoil']:
                    self.st['rare_list_changed'] += 1
                    M.append(dict(name='SS', color='r'))
                    M[1]['name'] = 'other'
                    C[0] = C[0][:3] + (0.1,)
                    T.pop()
                return r
            return go
        raise AssertionError(k)

    def content(self, p):
        """the harness's part: files written, replaced, removed"""
        F = self.F
        k = p['op']
        if k == 'relerr':
            self.gp(p['CT'], p['suf'], p['gp'])
            p = self.as_plane(p)
        if k in ('plane', 'relerr'):
            seed = p['content']
            r = plane_files(p)
            if r is not None and seed is None and any(x not in F.c for x in r[0]):
                seed = 7
            if r is not None and seed is not None:
                self.st['rare_new_content'] += all(x in F.c for x in r[0])
                write_plane(F, p, seed)
            if p['gone'] and r is not None:
                F.drop(r[0][-1])
                self.st['rare_file_gone'] += 1
        elif k == 'lines':
            seed = p['content']
            n = 'CFD_AD_Farm_lines_All.pkl'
            if seed is None and n not in F.c:
                seed = 7
            all_ = [(S, l, c, h) for S in (3, 4) for l in ('1x1', '1x2', '2x2') for c in CTS for h in (1.5, 99.)]
            if seed is not None:
                self.st['rare_new_content'] += n in F.c
                F.put(n, lines_content(seed, all_))
        elif k == 'proj':
            self.gp(p['CT'], '_rev1_df01R_noGE', p['content'])

    def as_plane(self, p):
        return dict(p, op='plane', Lambda=99 if p['Lambda'] is None else p['Lambda'])

    def gp(self, CT, suffix, seed):
        F = self.F
        n = 'ProjCorr/Layout1x1_CT0%02d%s.npz' % (round(CT * 100), suffix)
        if seed is None and n not in F.c:
            seed = 7
        if seed is not None:
            self.st['rare_new_content'] += n in F.c
            s = (5, 6, 7)
            F.put(n, dict(x1=coords(5, -2, 3, seed) * 1.0004, y1=coords(6, -2, 2, seed + 1), z1=coords(7, 0, 2, seed + 2) + (1.2 if seed % 2 else 9.),
                          u=field(s, seed + 3), v=field(s, seed + 4), w=field(s, seed + 5)))

    # ---- what it should give
    def expectation(self, p):
        """('ok', what) or ('exc', None)"""
        k = p['op']
        try:
            with np.errstate(all='ignore'):
                if k == 'model':
                    c = self.obj[p['ad']][2] if p['ad'] is not None else None
                    if p['match'] and c is None:
                        return 'exc', None
                    return 'ok', self.E.turbine(p, c)
                if k == 'floris':
                    return 'ok', self.E.farm(p)
                if k == 'adfarm':
                    w, T = self.E.turbines(p['pos'], p['ct'], p['gam'], False, 'VC')
                    ground = p['pos'][-1][2] < 10
                    L = np.array(p['line'], float).reshape(2, -1, 3)
                    # only the last of the turbines decides on the ground
                    r = [self.E.field(w, T, *L[0].T, ground=ground, Model='VC', no_wake=False)[0]]
                    r.append(self.E.field(w, T, *L[1].T, ground=ground, Model='VC', no_wake=False)[0] if len(T) > 1 else r[0] * 0)
                    return 'ok', r
        except Exception as e:
            return 'exc', e
        if k == 'plane':
            c = plane_content(self.F, p)
            if c is None:
                self.st['rare_unavailable'] += 1
                return 'none', None
            self.st['rare_no_grid'] += isinstance(c, str) and c == 'odd'
            return ('exc', None) if isinstance(c, str) else ('ok', c)
        if k == 'lines':
            if p['Layout'] != '1x1' and p['S'] != int(p['S']):
                return 'exc', None
            c = self.F.c['CFD_AD_Farm_lines_All.pkl']['d%d_%s_ct%.2f_hh%.2f' % (0 if p['Layout'] == '1x1' else p['S'], p['Layout'], p['CT'], p['HH'])]
            x, u = c['xyz'][:, 0], c['uvw'][:, 0]
            nx, ny = int(p['Layout'][0]), int(p['Layout'][2])
            S = 0 if p['Layout'] == '1x1' else p['S']
            r = [(x[:, 0], u[:, 0]), [np.interp(-2.5, x[:, 0], u[:, 0])], (0 if S == 0 else np.unique(c['xyz_wt'][:, 0]) / S, c['ct_wt'].reshape(ny, nx))]
            if S:
                r.append((x[:, 1], u[:, 1]))
            r.append([c[q] for q in ('xyz_wt', 'ct_wt', 'xyz', 'uvw')])
            return 'ok', r
        if k == 'proj':
            return 'ok', self.gp_content(p)
        if k == 'relerr':
            c = plane_content(self.F, self.as_plane(p))
            if c is None or isinstance(c, str):
                return 'exc', c
            try:
                with np.errstate(all='ignore'):
                    return 'ok', self.relerr(p, c)
            except Exception:
                return 'exc', None          # this model has no answer for this loading
        if k == 'measures':
            return 'ok', self.measures(p)
        raise AssertionError(k)

    def gp_content(self, p, suffix='_rev1_df01R_noGE'):
        c = self.F.c['ProjCorr/Layout1x1_CT0%02d%s.npz' % (round(p['CT'] * 100), suffix)]
        d = dict(z=np.sort(np.unique(np.round(c['x1'], 3))), Horizontal=p['Horizontal'])
        if p['Horizontal']:
            k = nearest(c['z1'] - p['HH'])
            d['Z'], d['A'] = np.meshgrid(c['x1'], c['y1'], indexing='ij')
            d['a'] = np.sort(np.unique(np.round(c['y1'], 3)))
            d['U'], d['V'], d['W'] = c['w'][:, :, k], c['v'][:, :, k], c['u'][:, :, k]
        else:
            j = nearest(c['y1'])
            d['Z'], d['A'] = np.meshgrid(c['x1'], c['z1'] - p['HH'], indexing='ij')
            d['a'] = np.sort(np.unique(np.round(c['z1'] - p['HH'], 3)))
            d['U'], d['V'], d['W'] = c['w'][:, j, :], c['v'][:, j, :], c['u'][:, j, :]
        return {a: (np.array(b) if isinstance(b, np.ndarray) else b) for a, b in d.items()}

    def relerr(self, p, c):
        rho = np.array(p['rho'])
        R = [[] for _ in p['Models']]
        g = self.gp_content(dict(p, HH=p['HH_GP']), p['suf'])
        T = {}
        for th, ro in zip(p['angles'], p['offs']):
            Z, A = (rho * math.cos(th), -rho * math.sin(th)) if p['use'] else (rho, rho * 0 + ro)
            ad = pairs(c, 'W', A, Z)
            for j, n in enumerate(p['Models']):
                if n == 'AD':
                    x = ad
                elif n == 'GP':
                    x = pairs(g, 'W', A, Z)
                else:
                    if n not in T:
                        T[n] = self.E.turbine(dict(Model=n, match=p['match'], U0=1, gamma_t=None), c)
                    w, t, q = T[n]
                    X, Y = (A, A * 0) if p['Horizontal'] else (A * 0, A)
                    with w:
                        x = t.compute_u(X, Y + q['HH'], Z, longi=False, root=False)[2]
                bad = (np.abs(ad) < 1e-3) | (np.abs(A) < 0.05)      # ill-conditioned: vanishing reference, next to the line of doublets
                R[j].append(np.where(bad, np.nan, (x - ad) / ad * 100))
        R = [np.array(r) for r in R]
        return R + [r.mean(axis=0) for r in R]

    def measures(self, p):
        x, u, v = [np.array(p[a]) for a in 'xuv']
        P = np.linspace(-4.99, -1, 100) if p['dflt'] else np.linspace(p['x1'], p['x2'], 100)
        a, b = np.interp(P, x, u) / u[-1], np.interp(P, x, v) / u[-1]
        r = [100 * np.mean(np.abs(a - b) / a)]
        for q in (0, -2.5):
            a, b = np.interp(q, x, u), np.interp(q, x, v)
            r.append(100 * abs(a - b) / a)
        ct, g = p['ct'], p['g']
        r.append(-2 * sum(k * ct ** (n + 1) for n, k in enumerate(g)))
        k = nearest(u, ct)
        import matplotlib
        cm = matplotlib.colormaps['viridis']
        col = [cm(y)[:3] for y in np.linspace(0, 1, 5)]
        al = 0.3 if p['alpha'] is None else p['alpha']
        return r + [u[k], k, np.array([z + (al,) for z in col]), np.array([z + (1.,) for z in col]), 2, 1.]

    # ---- evaluations
    def evaluation(self, o, rec, obj=None):
        """(call, expected values as a list of arrays or an exception)"""
        p, x, e = rec
        x = x if obj is None else obj
        k, how = p['op'], o['how']
        a, b = grid(o)
        r = np.linspace(-1.6, 1.7, o['n']) * o['s']
        if k == 'model':
            w, t, q = e
            h = q['HH']

            def u(X, Y, Z):
                with w:
                    with np.errstate(all='ignore'), warnings.catch_warnings():
                        warnings.simplefilter('ignore')
                        return list(t.compute_u(X, Y, Z, longi=False, root=False))
            if how == 'fU':
                X, Y, Z = a, b[::-1], a * 0.7 + 0.2
                return lambda: x.fU(X.copy(), Y.copy(), Z.copy()), lambda: u(X, Y + h, Z)
            if how == 'fHorz':
                X, Z = np.meshgrid(a, b)

                def want():
                    U, V, W = u(X, X * 0 + h, Z)
                    return [X, Z, U, W]
                return lambda: x.fHorz(a.copy(), b.copy()), want
            if how == 'fVert':
                Y, Z = np.meshgrid(a, b)

                def want():
                    U, V, W = u(Y * 0, Y + h, Z)
                    return [Y, Z, V, W]
                return lambda: x.fVert(a.copy(), b.copy()), want
            if how == 'fAxial':
                return lambda: x.fAxial(b.copy()), lambda: u(b * 0, b * 0 + h, b)
            if q['Horizontal']:
                return lambda: x.fRadial(r.copy(), o['s'] - 1), lambda: u(r, r * 0 + h, r * 0 + o['s'] - 1)
            return lambda: x.fRadial(r.copy(), o['s'] - 1), lambda: u(r * 0, r + h, r * 0 + o['s'] - 1)
        if k == 'floris':
            w, T = e
            X, Y, Z = a * 3, b[::-1] * 3, a * 0 + p['HH'] + b * 0.2
            if how == 'one':
                j = int(o['s'] * 10) % len(T)

                def want():
                    with w:
                        return list(T[j].compute_u(X, Y, Z, only_ind=True))
                return lambda: x[j].compute_u(X.copy(), Y.copy(), Z.copy(), only_ind=True), want
            return lambda: x.velocity_field(X.copy(), Y.copy(), Z.copy(), U0=[1, 0, 0], no_wake=False), lambda: list(self.E.field(w, T, X, Y, Z, no_wake=False))
        c = e
        if k == 'proj':
            if how == 'fVert':
                return lambda: x.fVert(None, None), lambda: [c['A'], c['Z'], c['U'] if c['Horizontal'] else c['V'], c['W']]
            return self.interpolated(x, c, o, ['O', 'O', 'W'], 'fW', True)
        if how in ('fHorz', 'fVert'):
            hor = how == 'fHorz'
            if hor == c['Horizontal'] or c['HH'] > 9:
                want = lambda: [c['A'], c['Z'], c['U'] if c['Horizontal'] else c['V'], c['W']]
            else:
                want = None
            return lambda: getattr(x, how)(None, None), want
        if how == 'fCenter':
            return lambda: [x.fCenter()], lambda: [center(c)]
        if how == 'fAxial':
            j = nearest(c['a'])
            return lambda: x.fAxial(b.copy()), lambda: [np.interp(b, c['Z'][:, j], c[f][:, j]) for f in 'UVW']
        if how == 'fRadial':
            i = nearest(c['z'], o['s'])
            return lambda: x.fRadial(r.copy(), o['s']), lambda: [np.interp(r, c['A'][i, :], c[f][i, :]) for f in 'UVW']
        if how == 'fW':
            return self.interpolated(x, c, o, ['O', 'O', 'W'], how)
        return self.interpolated(x, c, o, ['U', 'O', 'W'] if c['Horizontal'] else ['O', 'V', 'W'], how)

    def interpolated(self, x, c, o, what, how, proj=False):
        a, b = grid(o)
        a, b = np.clip(a, -1.8, 1.8), np.clip(b, -1.8, 1.8)
        self.st['rare_interpolated'] += 1

        def call():
            x.setupInterpolants()
            return getattr(x, how)(a.copy() if c['Horizontal'] else a * 0, a * 0 if c['Horizontal'] else a.copy(), b.copy())

        def want():
            out = []
            for f in what:
                if f == 'O':
                    out.append(a * 0)
                    continue
                out.append(pairs(c, f, a, b))
            return out
        return call, want

    # ---- comparing
    def compare(self, label, got, want, tol=1e-9):
        self.st['answers_compared'] += 1
        got, want = list(got), list(want)
        if len(got) != len(want):
            raise Violation('another answer', '%s: %d parts instead of %d' % (label, len(got), len(want)))
        for n, (g, e) in enumerate(zip(got, want)):
            g, e = np.asarray(g, float), np.asarray(e, float)
            if g.shape != e.shape:
                raise Violation('another answer', '%s, part %d: shape %s instead of %s' % (label, n, g.shape, e.shape))
            with np.errstate(all='ignore'):
                ok = (np.abs(g - e) <= tol * (1 + np.abs(e))) | (np.isnan(g) & np.isnan(e)) | (g == e)
            if not ok.all():
                i = tuple(np.argwhere(~ok)[0])
                raise Violation('another answer', '%s, part %d%s: %.12g instead of %.12g' % (label, n, list(map(int, i)), g[i], e[i]))

    def check_object(self, p, x, e):
        k = p['op']
        if k == 'model':
            for a in ('CT', 'HH', 'Lambda', 'Yaw', 'Horizontal'):
                if getattr(x, a) != e[2][a]:
                    raise Violation('another set-up', '%s is %r instead of %r' % (a, getattr(x, a), e[2][a]))
            self.st['rare_matched'] += bool(p['match'])
            self.st['rare_overridden'] += p['gamma_t'] is not None
            self.st['rare_ground'] += e[2]['HH'] < 9
            self.st['rare_tip_speed'] += e[2]['Lambda'] < 30
            self.st['rare_yawed'] += e[2]['Yaw'] != 0
        elif k == 'floris':
            if len(x) != len(e[1]):
                raise Violation('another set-up', '%d turbines instead of %d' % (len(x), len(e[1])))
            self.st['rare_ground'] += p['HH'] < 10
        elif k == 'adfarm':
            self.compare('ADFarm2VCFarm', x, e)
        elif k == 'lines':
            for g, v in zip(x, e):
                self.compare('OutputADLines', g, v)
        elif k == 'measures':
            self.compare('measures', x, e)
        elif k == 'relerr':
            # masked where the reference velocity vanishes
            n = len(e) // 2
            self.st['rare_models_compared'] += n > 1
            self.st['rare_yawed_models_compared'] += bool(p['Yaw'])
            if len(x) != len(e):
                raise Violation('another answer', 'getModelsRelErr: %d models instead of %d' % (len(x) // 2, n))
            x = [np.where(np.isnan(b), np.nan, a) if np.shape(a) == np.shape(b) else a for a, b in zip(x, e)]
            self.compare('getModelsRelErr %s' % p['Models'], x, e, 1e-7)
        elif k in ('plane', 'proj'):
            self.st['rare_vertical'] += not p['Horizontal']
            A, B = 'XY' if p['Horizontal'] else 'YX'
            if k == 'plane':
                self.compare('plane, CT %s, across' % p['CT'], [getattr(x, B), getattr(x, B.lower()), x.O], [e['A'] * 0, 0, e['O']])
            else:
                self.compare('proj, CT %s' % p['CT'], [x.O], [e['U'] * 0])
            self.compare('%s, CT %s' % (k, p['CT']), [getattr(x, a) for a in (A, 'Z', 'U', 'V', 'W', A.lower(), 'z')], [e[a] for a in ('A', 'Z', 'U', 'V', 'W', 'a', 'z')])
            if k == 'plane':
                for a in ('CT', 'HH', 'Lambda', 'Yaw', 'Horizontal'):
                    if getattr(x, a) != e[a]:
                        raise Violation('another plane', '%s is %r instead of %r' % (a, getattr(x, a), e[a]))

    def injected(self, o, fn, keep=(), dryfn=None):
        """executed, with a fault perhaps; (outcome, value, fired)"""
        f = o.get('inj')
        kw, cons, arm = {}, False, None
        con = self.ctx.console
        before = [a.copy() for a in keep]
        if f:
            n0 = con.n
            with self.disk:
                self.disk.arm(None)
                _, _, lines, calls, _ = ENGINE.call(dryfn or fn)
                ops = self.disk.ops
            nw = con.n - n0
            if f['at'] == 'line' and lines:
                kw = dict(cancel_at=1 + int(f['frac'] * lines), exc=f['exc'])
            elif f['at'] == 'call' and calls:
                kw = dict(fault_at=1 + int(f['frac'] * calls), exc=f['exc'])
            elif f['at'] == 'console' and nw:
                con.fail_at, con.fail_for, f0 = con.n + int(f['frac'] * nw), 1, con.failed
                cons = True
            elif f['at'] == 'disk' and ops:
                arm = dict(kind=f['kind'], at=int(f['frac'] * ops), frac=f['cut'], n=f['n'])
        with self.disk:
            self.disk.arm(arm)
            out, v, _, _, fired = self.exec(fn, **kw)
            for k, _ in self.disk.fired:
                self.st['fault_disk_' + k] += 1
                fired = ('disk', k)
            self.disk.arm(None)
        if cons:
            con.fail_at = -1
            if con.failed > f0:
                fired = ('console', 'write')
        if fired and f['at'] not in ('disk', 'env'):
            self.st['fault_%s_%s' % (f['at'], f.get('exc', 'oserror'))] += 1
        if out == 'exc' and not fired and self.excused(v):
            fired = ('env', type(v).__name__)
            f = dict(at='env')
        for a, b in zip(keep, before):
            self.st['arguments_checked'] += 1
            if not np.array_equal(a, b):
                raise Violation('argument modified', '%s: %s instead of %s' % (o['op'], a, b))
        return out, v, fired

    def again(self, o, fn):
        ex, self.exec = self.exec, ENGINE.call
        try:
            return self.injected(o, fn)
        finally:
            self.exec = ex

    def setup(self, p):
        k = p['op']
        self.content(p)
        keep = []
        fn = self.call(p, keep)
        if fn is None:
            return
        dry = None
        if p.get('inj'):
            m2 = World().script('wiz_abl')
            dry = self.call(p, m=m2)
        e = self.expectation(p)
        out, x, fired = self.injected(p, fn, keep, dry)
        self.ctx.log.append((k, out, bool(fired)))
        if out == 'exc' and fired:
            self.st['rare_asked_again'] += 1
            out, x, _ = self.again(dict(p, inj=None), self.call(p))
        self.accept(p, out, x, e)

    def accept(self, p, out, x, e):
        k = p['op']
        for a in [x] if out == 'exc' else []:
            if e[0] != 'exc':
                raise Violation('set-up fails', '%s: %r' % (k, a))
            self.st['rare_failing_setup'] += 1
            return
        if e[0] == 'exc':
            if k in ('plane', 'lines') or (k == 'relerr' and e[1] is not None):
                raise Violation('a plane out of nothing', '%s %r gives %r, its files are gone or form no grid' % (k, p, x))
            if k == 'model':
                raise Violation('another outcome', 'set-up succeeds: %r, on its own %r' % (p, e[1]))
            return
        if e[0] == 'none':
            if x is not None:
                raise Violation('an unavailable plane', repr(p))
            return
        if x is None:
            raise Violation('set-up fails', '%s gives nothing' % k)
        self.check_object(p, x, e[1])
        if k in EVALS:
            self.obj[p['i']] = (p, x, e[1])

    def eval(self, o):
        if o['i'] not in self.obj:
            return
        rec = self.obj[o['i']]
        self.st['rare_older_object'] += o['i'] != self.last
        call, want = self.evaluation(o, rec)
        out, v, fired = self.injected(o, call)
        if out == 'ok' and not fired:
            v = [np.array(y) for y in v]
        self.ctx.log.append((o['how'], out, bool(fired)))
        if out == 'exc' and fired:
            self.st['rare_asked_again'] += 1
            out, v, _ = self.again(dict(o, inj=None), self.evaluation(o, rec)[0])
        self.judge(o, rec, out, v, want)

    def judge(self, o, rec, out, v, want):
        label = '%s.%s' % (rec[0]['op'], o['how'])
        if want is not None:
            try:
                with np.errstate(all='ignore'):
                    e = want()
            except Exception:
                want = None
        if want is None:
            if out == 'ok':
                raise Violation('another outcome', '%s answers, on its own it raises' % label)
            return
        if out == 'exc':
            raise Violation('evaluation fails', '%s: %r' % (label, v))
        self.compare(label, v, e)

    def par(self, op):
        st = self.st

        def body(part, outs):
            local = dict(self.obj)
            for o in part['ops']:
                if o['op'] == 'eval':
                    if o['i'] not in local:
                        return
                    r = local[o['i']]
                    fn = (lambda r=r, o=o: self.evaluation(o, r)[0]())
                else:
                    fn = self.call(o, obj=local)
                    if fn is None:
                        return
                try:
                    v = fn()
                except (Exception, SimCancel, KeyboardInterrupt) as x:
                    x.__traceback__ = None
                    outs.append((o, 'exc', x))
                    return
                outs.append((o, 'ok', v))
                if o['op'] in EVALS:
                    local[o['i']] = (o, v, None)
                    ex = exp.get(o['i'])
                    if ex is None or ex[0] != 'ok':
                        return
                    local[o['i']] = (o, v, ex[1])

        exp = {}
        for part in op['par']:
            for o in part['ops']:
                if o['op'] in ('relerr', 'plane', 'proj', 'lines'):
                    self.content(o)
                    st['rare_files_read_in_threads'] += 1
        for part in op['par']:
            for o in part['ops']:
                if o['op'] != 'eval' and (o['op'] != 'model' or o['ad'] is None or o['ad'] in self.obj):
                    exp[o['i']] = self.expectation(o)
        outs = [[] for _ in op['par']]
        sim = self.run_threads([lambda a=a, b=b: body(a, b) for a, b in zip(op['par'], outs)], op['switches'], op['kills'])
        if sim.hung or sim.deadlock:
            raise Violation('no progress', 'threads wait for each other')
        self.ctx.schedules.add(sim.h.hexdigest()[:16])
        st['switches'] += sim.nswitch
        st['fault_thread_cut_off'] += len(sim.killed)
        killed = {a[0] for a in sim.killed}
        for j, l in enumerate(outs):
            for o, out, v in l:
                self.ctx.log.append((j, o['op'], out))
                if out == 'exc' and (j in killed or self.excused(v)):
                    continue
                if o['op'] == 'eval':
                    rec = self.obj.get(o['i'])
                    if rec:
                        self.judge(o, rec, out, v, self.evaluation(o, rec)[1])
                else:
                    self.accept(o, out, v, exp[o['i']])
        for t in sim.T:
            if t.out[0] == 'exc' and t.i not in killed:
                raise Violation('a thread died', repr(t.out[1]))

    def step(self, o):
        if o['op'] == 'eval':
            self.eval(o)
        elif o['op'] == 'par':
            self.par(o)
            self.last = None
        else:
            self.setup(o)
            self.last = o['i']

    def run(self, plan):
        old = os.getcwd()
        os.chdir(os.path.join(self.dir, 'run'))
        self.F.tick = plan.get('tick', 0)
        try:
            self.start()
            with self.w, warnings.catch_warnings():
                warnings.simplefilter('ignore')
                for o in plan['ops']:
                    self.st['op_' + o['op']] += 1
                    self.step(o)
                # whatever was set up is still what it was
                for i in sorted(self.obj):
                    k = self.obj[i][0]['op']
                    self.eval(dict(op='eval', i=i, how=EVALS[k][0], n=3, s=1.1))
        finally:
            os.chdir(old)


def run(plan, ctx):
    s = Study(ctx)
    try:
        s.run(plan)
    finally:
        shutil.rmtree(s.dir, ignore_errors=True)


def prepare():
    import io

    import matplotlib.pyplot
    import numpy.lib._datasource as ds
    import scipy.io
    World().script('wiz_abl')
    ds._file_openers._load()
    ds._file_openers._file_openers[None] = lambda *a, **k: io.open(*a, **k)


def nontrivial(st):
    return st.get('rare_older_object', 0) + st.get('rare_asked_again', 0) + st.get('switches', 0) > 0
