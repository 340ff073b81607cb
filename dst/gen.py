"""Seeded generation of histories.  Everything random is decided here; the result is plain JSON."""
import copy
import math

from . import domain as D
from .machine import BAD_F, BAD_Q, BAD_T


def pick(rng, pairs):
    tot = sum(w for _, w in pairs)
    x = rng.random() * tot
    for v, w in pairs:
        x -= w
        if x < 0:
            return v
    return pairs[-1][0]


RADII = [1.0, 1.0, 0.5, 2.5, 3.0, 65.0]


class Gen:
    """keeps enough of the state to generate sensible operations"""
    def __init__(self, rng, models=('VC', 'VC', 'VC', 'VC', 'VCFF', 'VD', 'SS'), swirl=True, calm=True):
        self.rng = rng
        self.models = models
        self.swirl = swirl
        self.unknown = False
        self.t = {}        # tid -> dict(R, frame, hub, model, loaded)
        self.f = {}        # fid -> [tid]
        self.winds = {}
        self.past = {}     # values used so far, by kind
        self.p_calm = rng.choice([0, 0, 0, 0.15]) if calm else 0
        self.p_clone = rng.choice([0, 0.1, 0.5])
        self.made = []
        self.loads = {}    # tid -> last loading
        self.p_near = rng.choice([0.03, 0.12, 0.3])

    # ---- values close or equal to earlier ones, of this turbine or another
    def near(self, kind, make, vary):
        r = self.rng
        l = self.past.setdefault(kind, [])
        if l and r.random() < self.p_near:
            v = vary(r.choice(l[-4:]), r.choice([0, 0, 1, 1]) and r.choice([-1, 1]) * 10 ** r.uniform(-8, -2.5))
        else:
            v = make()
        l.append(copy.deepcopy(v))
        return v

    # ---- pieces
    def free_stream(self, f):
        """of a farm field: none, some, or the wind of a member, or nearly so, or nearly one given before"""
        r = self.rng
        x = r.random()
        if x < 0.3:
            return None
        m = [self.winds[t] for t in self.f.get(f, ()) if t in self.winds]
        if x < 0.6 and m:
            e = r.choice([0, 0, 1, 1]) and r.choice([-1, 1]) * 10 ** r.uniform(-7, -2.5)
            return [v * (1 + e) for v in r.choice(m)]
        return self.near('U0', lambda: r.choice([[0, 0, 10.], [3., -1., 7.], [0, 0, 0]]), lambda v, e: [a * (1 + e) for a in v])

    def hub(self, R):
        r = self.rng
        if r.random() < 0.25:
            return [0, 0, 0]
        k = 4 if r.random() < 0.85 else r.choice([12, 40, 200])
        return [D.rnd(r.uniform(-k, k) * R, 3) for _ in range(3)]

    def wind(self, frame):
        r = self.rng
        sh, ve = D.FRAMES[frame]
        U = r.choice([10, 10, 7.5, 3, 12, 1, 0.2])
        x = r.random()
        if x < 0.4:
            ang = 0.
        elif x < 0.9:
            ang = D.rnd(r.uniform(-0.7, 0.7))
        else:
            ang = D.rnd(r.uniform(-1.1, 1.1))
        w = 0. if r.random() < 0.85 else D.rnd(r.uniform(-0.15, 0.15) * U)
        return D.wind_vec(sh, ve, U, ang, w) if r.random() > self.p_calm else [0, 0, 0]

    def form(self):
        return self.rng.choice(['list', 'list', 'arr', 'arr', 'tuple', 'col', 'row', 'ro', 'strided', 'buf', 'buf', 'buf', 'int', 'ilist'])

    def yaw(self):
        r = self.rng
        x = r.random()
        if x < 0.25:
            return 0.
        if x < 0.35:
            return r.choice([D.rnd(math.pi / 6, 12), -0.1, 0.1])
        if x < 0.42:
            # tiny steps, whole turns
            return r.choice([D.rnd(r.uniform(-1, 1) * 10 ** r.uniform(-9, -2), 12), D.rnd(2 * math.pi * r.choice([-1, 1]) + r.uniform(-0.5, 0.5), 12),
                             D.rnd(math.pi, 12)])
        if x < 0.96:
            return D.rnd(r.uniform(-0.6, 0.6))
        return D.rnd(r.uniform(-1.1, 1.1))

    def spec(self, multi=True):
        r = self.rng
        kind = pick(r, [('Ct', 6), ('Gamma', 2), ('cb', 2)])
        s = dict(kind=kind, ct=D.rnd(pick(r, [(r.uniform(0.1, 0.85), 8), (r.uniform(0.85, 1.1), 2)])),
                 shape=r.choice(['const', 'const', 'cut', 'lin', 'in']), n=r.choice([5, 12, 20]),
                 nCyl=pick(r, [(1, 6), (r.choice([2, 3, 5]), 3 if multi else 0), (None, 1 if multi else 0)]))
        lam = pick(r, [(None, 4), (30., 2), (r.choice([4., 6., 8.]), 3 if self.swirl else 0), ('inf', 1)])
        s['Lambda'] = lam
        if s['nCyl'] is None:
            s['n'] = r.choice([2, 3, 4])
        if s['nCyl'] == 1 and r.random() < 0.4:
            s['arr'] = False
            if r.random() < 0.6:
                s['total'] = True
        if kind == 'Gamma':
            s['ct'] = D.rnd(r.uniform(0.1, 0.8))
        if kind == 'cb':
            s['cbk'] = r.choice([0.5, 0.25, 0.6])
        if r.random() < 0.06:
            s['ct'] = r.choice([0., 0., 1e-4])
        if r.random() < 0.2:
            s['span'] = [r.choice([0., 0., 0.1, 0.3]), r.choice([0.8, 0.97, 1.]), r.choice([1., 1., 0.5, 2.])]
        return s

    def vary_spec(self, s, e, multi):
        s = dict(s, ct=s['ct'] * (1 + e))
        x = self.rng.random()
        o = self.spec(multi)
        if e == 0 and x < 0.4:
            for k in self.rng.choice([('Lambda',), ('shape',), ('n',), ('kind', 'cbk')]):
                if k in o and (k != 'n' or s['nCyl'] is not None):
                    s[k] = o[k]
            if s['kind'] == 'cb' and 'cbk' not in s:
                s['cbk'] = 0.5
            if s['kind'] == 'Gamma':
                s['ct'] = min(s['ct'], 0.8)
        return s

    def opts(self, farm=False):
        return self.near('opts%d' % farm, lambda: self.opts_(farm), lambda v, e: dict(v))

    def opts_(self, farm=False):
        r = self.rng
        o = {}
        if r.random() < 0.35 and not farm:
            o['only_ind'] = True
        if r.random() < 0.3:
            o['longi'] = True
        if r.random() < 0.3:
            o['root'] = True
        if r.random() < 0.12:
            o['tang'] = False
        if r.random() < 0.15:
            o['no_wake'] = True
        if r.random() < 0.3:
            o['ground'] = r.random() < 0.6
        if r.random() < 0.2:
            o['Model'] = r.choice(D.MODELS)
        if r.random() < 0.15:
            o['R_far_field'] = r.choice([2, 4, 6])
        return o

    def pts(self, t=None, n=None, form=None):
        if form or n:
            return self.pts_(t, n, form)
        R = self.t[t]['R'] if t in self.t else 1.
        return self.near('pts', lambda: self.pts_(t), lambda v, e: dict(v, p=[[x + e * R for x in q] if e > 0 or i == 0 else list(q) for i, q in enumerate(v['p'])]))

    def pts_(self, t=None, n=None, form=None):
        """control points, near turbine t (mostly)"""
        r = self.rng
        d = self.t.get(t)
        R, hub = (d['R'], d['hub']) if d else (1., [0, 0, 0])
        if n is None:
            n = r.choice([1, 2, 4, 4, 6]) if r.random() > 0.04 else r.choice([21, 33, 65, 129, 300])
        far = r.random() < 0.25
        p_sp = r.choice([0, 0, 0, 0.1, 0.5])
        p = []
        for _ in range(n):
            k = 9. if far else 2.2
            if d and r.random() < p_sp:
                # on the axis, upstream or downstream of the edge, in the rotor plane
                sh, ve = D.FRAMES[d['frame']]
                ex = [ve[1] * sh[2] - ve[2] * sh[1], ve[2] * sh[0] - ve[0] * sh[2], ve[0] * sh[1] - ve[1] * sh[0]]
                a, b = r.choice([(0, 0), (0, 0), (1, 0), (0, 1), (-1, 0), (0, -1), (.6, .8), (r.uniform(-2, 2), r.uniform(-2, 2))])
                c = r.choice([-1, -1, -1, 0, 1]) * D.rnd(r.uniform(0.2, k), 3)
                if r.random() < 0.2:
                    a += r.choice([-1, 1]) * 10 ** r.uniform(-16, -3)
                p.append([hub[i] + R * (a * ex[i] + b * ve[i] + c * sh[i]) for i in range(3)])
                continue
            p.append([D.rnd(hub[i] + r.uniform(-k, k) * R, 3 if R >= 1 else 4) for i in range(3)])
        if r.random() < 0.15 and n > 1:
            p[-1] = list(p[0])
        x = r.random()
        if not form and x < 0.06:
            return dict(p=[[float(round(c)) for c in q] for q in p], form='int')
        if not form and x < 0.075:
            return dict(p=[], form=r.choice(['arr', 'ro']))
        f = form or r.choice(['arr', 'arr', 'arr', '2d', 'col', 'fort', '3d', 'strided', 'ro', 'buf', 'buf', 'buf'])
        return dict(p=p, form=f)

    # ---- operations
    def new(self, dflt=None):
        r = self.rng
        t = len(self.t)
        R = r.choice(RADII)
        if dflt is None and self.made and r.random() < self.p_clone:
            # the same turbine again, or nearly
            op = dict(copy.deepcopy(r.choice(self.made)), t=t)
            o = op['t0']
            self.t[t] = dict(R=op['R'], frame=op.get('frame', 0), hub=op.get('hub', [0, 0, 0]), model=op.get('Model', 'VC'), loaded=False, like=o)
            if not op.get('dflt') and r.random() < 0.6:
                k = r.choice(['hub', 'U', 'Model', 'frame', 'name', 'Ground'])
                if k == 'hub':
                    op['hub'] = self.t[t]['hub'] = self.hub(op['R'])
                elif k == 'U':
                    op['U'] = self.wind(op['frame'])
                elif k == 'Model':
                    op['Model'] = self.t[t]['model'] = r.choice(self.models)
                elif k == 'frame':
                    op['frame'] = self.t[t]['frame'] = r.randrange(len(D.FRAMES))
                else:
                    op[k] = 'T%d' % t if k == 'name' else not op[k]
            return op
        op = self.new_(t, R, dflt)
        self.made.append(dict(op, t0=t))
        return op

    def new_(self, t, R, dflt):
        r = self.rng
        if dflt or (dflt is None and r.random() < 0.15):
            self.t[t] = dict(R=R, frame=0, hub=[0, 0, 0], model='VC', loaded=False)
            return dict(op='new', t=t, R=R, dflt=True)
        fr = r.randrange(len(D.FRAMES))
        model = r.choice(self.models)
        op = dict(op='new', t=t, R=R, frame=fr, hub=self.hub(R), U=self.wind(fr),
                  Lambda=pick(r, [(None, 8), (8., 2 if self.swirl else 0), (40., 2), ('none', 1.3 if self.unknown else 0)]), Ground=r.random() < 0.25,
                  Model=model, name='T%d' % t, form=self.form())
        self.t[t] = dict(R=R, frame=fr, hub=op['hub'], model=model, loaded=False, unknown=op['Lambda'] == 'none')
        return op

    def op(self, k, t):
        r = self.rng
        d = self.t[t]
        if k == 'pos':
            d['hub'] = self.near('pos', lambda: self.hub(d['R']), lambda v, e: [x + e * d['R'] * q for x, q in zip(v, r.choice([(1, 1, 1), (1, 0, 0), (0, 0, 1)]))])
            return dict(op='pos', t=t, v=d['hub'], form=self.form())
        if k == 'wind':
            self.winds[t] = self.near('wind%d' % d['frame'], lambda: self.wind(d['frame']), lambda v, e: [x * (1 + e) for x in v])
            return dict(op='wind', t=t, v=list(self.winds[t]), form=self.form())
        if k == 'yaw':
            return dict(op='yaw', t=t, v=self.near('yaw', self.yaw, lambda v, e: v + e))
        if k == 'load':
            unknown = d.get('unknown')
            if unknown and r.random() < 0.4:
                return dict(op='bad', t=t, what='load_unknown')
            d['loaded'], d['unknown'] = True, False
            multi = d['model'] == 'VC' or r.random() < 0.2
            o = d.pop('like', None)
            if o in self.loads and r.random() < 0.7 and not unknown:
                return dict(op='load', t=t, spec=copy.deepcopy(self.loads[o]), form=r.choice(['arr', 'buf']))
            spec = self.near('load%d' % multi, lambda: self.spec(multi=multi), lambda v, e: self.vary_spec(v, e, multi))
            if unknown and spec['Lambda'] is None:
                spec = dict(spec, Lambda=r.choice([30., 'inf']))
            self.loads[t] = spec
            return dict(op='load', t=t, spec=spec, form=r.choice(['arr', 'buf']))
        if k == 'chi':
            return dict(op='chi', t=t, v=r.choice([None, None, 0., D.rnd(r.uniform(-0.6, 0.6)), D.rnd(r.uniform(-0.6, 0.6)), D.rnd(r.uniform(-1.4, 1.4)), D.rnd(r.choice([-1, 1]) * r.uniform(1.5, 3.2)),
                                                D.rnd(r.choice([-1, 1]) * r.uniform(1.4, 1.555))]),
                        how=r.choice(['set', 'attr']))
        if k == 'gam':
            return dict(op='gam', t=t, v=[D.rnd(r.uniform(-6, -0.5))])
        if k == 'gamx':
            return dict(op='gamx', t=t, v=r.choice([0.5, 1.5, D.rnd(r.uniform(0.2, 2))]))
        if k == 'attr':
            n = r.choice(['Ground', 'Model'])
            return dict(op='attr', t=t, name=n, v=r.random() < 0.5 if n == 'Ground' else r.choice(D.MODELS))
        if k == 'frame':
            d['frame'] = r.randrange(len(D.FRAMES))
            return dict(op='frame', t=t, frame=d['frame'], form=self.form())
        if k == 'q':
            return dict(op='q', t=t, pts=self.pts(t), o=self.opts())
        if k == 'read':
            return dict(op='read', t=t, what=r.choice(['yaw_wind', 'yaw_error', 'yaw_pos', 'chi', 'repr', 'repr', 'repr', 'tostring', 'disk', 'disk']))
        if k == 'bad':
            return dict(op='bad', t=t, what='load_unknown' if d.get('unknown') and r.random() < 0.5 else r.choice(BAD_T + BAD_Q))
        raise KeyError(k)

    def fop(self, k, f):
        r = self.rng
        m = self.f[f]
        anyt = list(self.t)
        if k == 'fapp':
            t = r.choice(anyt)
            m.append(t)
            return dict(op='fapp', f=f, t=t)
        if k == 'fins':
            t, i = r.choice(anyt), r.randrange(len(m) + 1)
            m.insert(i, t)
            return dict(op='fins', f=f, i=i, t=t)
        if k in ('fdel', 'frem', 'fset') and not m:
            return self.fop('fapp', f)
        if k == 'fdel':
            i = r.randrange(len(m))
            del m[i]
            return dict(op='fdel', f=f, i=i)
        if k == 'frem':
            i = r.randrange(len(m))
            m.remove(m[i])
            return dict(op='frem', f=f, i=i)
        if k == 'fset':
            i, t = r.randrange(len(m)), r.choice(anyt)
            m[i] = t
            return dict(op='fset', f=f, i=i, t=t)
        if k == 'fext':
            ts = [r.choice(anyt) for _ in range(r.randrange(3))]
            m.extend(ts)
            return dict(op='fext', f=f, ts=ts)
        if k == 'frev':
            m.reverse()
            return dict(op='frev', f=f)
        if k == 'flay':
            (p_stay, near), e0 = r.choice([(0, 0), (0.4, 0), (0.4, 1), (1, 1)]), 10 ** r.uniform(-8, -2.5)
            for t in sorted(set(m)):
                h = self.t[t]['hub']
                if r.random() < p_stay:    # stays where it is, or nearly
                    e = near * r.choice([0, 1, -1]) * e0 * max(self.t[t]['R'], *map(abs, h))
                    self.t[t]['hub'] = [x + e for x in h]
                else:
                    self.t[t]['hub'] = self.hub(self.t[t]['R'])
            rows = [self.t[t]['hub'] for t in m]
            return dict(op='flay', f=f, rows=rows, form=r.choice(['list', 'arr', 'buf']))
        if k == 'fq':
            t = r.choice(m) if m else None
            o = self.opts(True)
            p = self.pts(t)
            if r.random() < 0.12:
                p['form'] = 'lst'
            return dict(op='fq', f=f, pts=p, o=o,
                        U0=self.free_stream(f), uform=r.choice(['list', 'arr', 'buf', 'ro']))
        if k == 'fread':
            return dict(op='fread', f=f, what=r.choice(['repr', 'layout', 'nWT', 'len']))
        if k == 'fbad':
            return dict(op='fbad', f=f, what=r.choice(BAD_F))
        raise KeyError(k)

    def farm(self, n=None, dflt=None):
        r = self.rng
        f = len(self.f)
        n = n if n is not None else r.choice([0, 1, 2, 3]) if r.random() > 0.06 else r.choice([4, 5, 8])
        ts = [r.choice(list(self.t)) for _ in range(n)] if self.t else []
        if n >= 2 and r.random() < 0.7:
            ts = r.sample(list(self.t), min(n, len(self.t)))
        self.f[f] = list(ts)
        return dict(op='fnew', f=f, ts=ts, dflt=(dflt if dflt is not None else r.random() < 0.6), name=r.choice(['F%d' % f, 'F%d' % f, 'F', '']))

    def inj(self, kinds):
        r = self.rng
        at = pick(r, kinds)
        if at == 'line':
            return dict(at='line', frac=D.rnd(r.random(), 5), exc=r.choice(['int', 'int', 'kbd']))
        if at == 'call':
            return dict(at='call', frac=D.rnd(r.random(), 5), exc=r.choice(['mem', 'mem', 'fpe']))
        return dict(at='console', frac=D.rnd(r.random(), 3), exc='', **{'for': r.choice([1, 3, -1])})

    def history(self, weights, n, turbines=(1, 2), farms=(0, 0), probe=0.3, inj=None, inj_on=(), inj_p=0.3,
                load_first=0.9, farm_n=None, yaw_first=0.25):
        """weights: [(op kind, weight)]"""
        r = self.rng
        ops = []
        p_yaw = yaw_first if r.random() < 0.7 else 1.
        self.unknown = True         # turbines whose tip-speed ratio nobody gave
        for _ in range(r.randint(*turbines)):
            o = self.new()
            ops.append(o)
            for k in ('yaw', 'wind'):
                if r.random() < 0.7 * p_yaw:
                    ops.append(self.op(k, o['t']))
            if r.random() < load_first:
                ops.append(self.op('load', o['t']))
        for _ in range(r.randint(*farms)):
            ops.append(self.farm(n=farm_n))
        for _ in range(n):
            k = pick(r, weights)
            if k == 'new':
                o = self.new()
                ops.append(o)
                o = self.op('load', o['t'])
            elif k == 'fnew':
                o = self.farm()
            elif k == 'mut':
                o = dict(op='mut')
                if r.random() < 0.5:
                    o['what'] = 'results'
            elif k[0] == 'f' and k != 'frame':
                if not self.f:
                    continue
                o = self.fop(k, r.choice(list(self.f)))
            else:
                o = self.op(k, r.choice(list(self.t)))
            if inj and k in inj_on and r.random() < inj_p:
                o['inj'] = self.inj(inj)
            if r.random() < probe:
                o['pt'] = [t for t in self.t if r.random() < 0.7]
                o['pf'] = [f for f in self.f if r.random() < 0.7]
            ops.append(o)
        return ops
