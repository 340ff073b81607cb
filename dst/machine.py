"""The history machine: turbines and farms of the code under test next to a bookkeeping model.

An operation is a plain dict.  `Book` knows what an operation does to the settings; `Sys` executes it on
real objects in a world, with injections, and compares what they answer with a twin (a new turbine in a
pristine world, given the settings directly) and with the independent reference."""
import copy
import math
import pickle

import numpy as np

from . import domain as D
from .engine import ENGINE, Guard, SimCancel
from .world import World


class Violation(Exception):
    def __init__(self, kind, detail=''):
        Exception.__init__(self, kind, detail)
        self.kind, self.detail = kind, detail


PROBE_DIRS = np.array([[-1.7, 0.4, -2.1], [0.35, -0.45, -1.3], [2.6, 1.1, 1.9], [0.2, 0.3, -0.55],
                       [-0.3, 2.4, 0.7], [0.0, 0.0, -1.6]])

BAD_T = ['yaw_none', 'yaw_str', 'pos_short', 'pos_none', 'wind_long', 'wind_none', 'load_nothing', 'load_cb_noCt',
         'load_cbfail', 'load_badr', 'load_len', 'load_cbfail4', 'frame_none', 'frame_short', 'frame_vert', 'frame_str']
BAD_Q = ['q_model', 'q_list', 'q_shape', 'q_kw']
BAD_F = ['append_obj', 'append_none', 'layout_shape', 'layout_short', 'layout_scalar']


class UserError(Exception):
    pass


def _boom(c):
    raise UserError('callback failed')


# ------------------------------------------------------------------ bookkeeping
class Book:
    def __init__(self):
        self.T = {}          # tid -> Settings
        self.F = {}          # fid -> [tid]

    UPDATES = ('pos', 'wind', 'yaw', 'load', 'chi', 'gam', 'gamx', 'attr', 'frame', 'flay')

    def valid(self, op):
        k = op['op']
        if k == 'new':
            return op['t'] not in self.T
        if k == 'fnew':
            return op['f'] not in self.F and all(t in self.T for t in op['ts'])
        if 't' in op and op['t'] not in self.T:
            return False
        if 'f' in op and op['f'] not in self.F:
            return False
        m = self.F.get(op.get('f'))
        if k in ('fdel', 'fset', 'frem') and not (0 <= op['i'] < len(m)):
            return False
        if k == 'fset' and op['t'] not in self.T:
            return False
        if k == 'fext' and not all(t in self.T for t in op['ts']):
            return False
        if k == 'flay' and len(op['rows']) != len(m):
            return False
        if k == 'gamx' and self.T[op['t']].load is None and self.T[op['t']].gam is None:
            return False
        if k == 'load' and self.T[op['t']].Lambda is None and op['spec'].get('Lambda') is None:
            return False                # rejected: see load_unknown
        if k == 'bad' and op['what'] == 'load_unknown' and self.T[op['t']].Lambda is not None:
            return False
        if k == 'load' and op['spec'].get('nCyl', 1) != 1 and op['spec'].get('arr', True) is False:
            return False
        return True

    def apply(self, op):
        k = op['op']
        if k == 'new':
            if op.get('dflt'):
                self.T[op['t']] = D.Settings(R=op['R'])
                return
            sh, ve = D.FRAMES[op['frame']]
            self.T[op['t']] = D.Settings(R=op['R'], shaft=sh, vert=ve, hub=list(op['hub']), U=list(op['U']),
                                         Lambda={None: float('inf'), 'none': None}.get(op['Lambda'], op['Lambda']),
                                         Ground=op['Ground'], Model=op['Model'], name=op.get('name', ''))
        elif k == 'pos':
            self.T[op['t']].hub = list(op['v'])
        elif k == 'wind':
            self.T[op['t']].U = list(op['v'])
        elif k == 'yaw':
            self.T[op['t']].yaw = op['v']
        elif k == 'load':
            s = self.T[op['t']]
            lam = op['spec'].get('Lambda')
            lam = s.Lambda if lam is None else float(lam)
            s.load = (dict(op['spec'], lam_eff=lam), list(s.U), lam)
            s.Lambda = lam
            s.gam = None
            s.gamf = 1.
        elif k == 'chi':
            self.T[op['t']].chi = op['v']
        elif k == 'gam':
            self.T[op['t']].gam = list(op['v'])
            self.T[op['t']].gamf = 1.
        elif k == 'gamx':
            self.T[op['t']].gamf *= op['v']
        elif k == 'attr':
            setattr(self.T[op['t']], op['name'], op['v'])
        elif k == 'frame':
            s = self.T[op['t']]
            s.shaft, s.vert = D.FRAMES[op['frame']]
            s.yaw = 0.
        elif k == 'fnew':
            self.F[op['f']] = list(op['ts'])
        elif k == 'fapp':
            self.F[op['f']].append(op['t'])
        elif k == 'fins':
            self.F[op['f']].insert(op['i'], op['t'])
        elif k == 'fdel':
            del self.F[op['f']][op['i']]
        elif k == 'frem':
            m = self.F[op['f']]
            m.remove(m[op['i']])
        elif k == 'fset':
            self.F[op['f']][op['i']] = op['t']
        elif k == 'fext':
            self.F[op['f']].extend(op['ts'])
        elif k == 'frev':
            self.F[op['f']].reverse()
        elif k == 'flay':
            for t, row in zip(self.F[op['f']], op['rows']):
                self.T[t].hub = list(row)


# ------------------------------------------------------------------ answers
class Twins:
    """expected answers, from new objects in pristine worlds; memoised on the settings"""
    def __init__(self):
        self.memo = {}
        self.objs = {}

    def turbine(self, s):
        """(world, turbine) in a pristine world"""
        w = World()
        with w:
            return w, D.build(w, s)

    def query(self, s, P, form, o):
        key = (s.key(), repr(P), form, repr(sorted(o.items())))
        r = self.memo.get(key)
        if r is None:
            w, t = self.turbine(s)
            with w:
                try:
                    u = t.compute_u(*D.points({'p': P, 'form': form if form not in ('buf', 'lst', 'int') else 'arr'}), **D.qopts(o))
                    r = ('ok', D.flat(u), [np.shape(c) for c in u])
                except Exception as e:
                    r = ('exc', D.outcome_class(e), None)
            self.memo[key] = r
        return r

    def gamma(self, s):
        key = ('g', s.key())
        if key not in self.memo:
            w, t = self.turbine(s)
            self.memo[key] = t
        return self.memo[key]


def clear_mask(s, P, radii=None, ground=True, tol=0.02):
    rf = D.model.Ref(s)
    if abs(rf.skew) > 1.3:
        return np.ones(len(P), bool)
    radii = radii or [s.R]
    return rf.clear(np.asarray(P, float).reshape(-1, 3), radii, ground, True) > tol


class Sys:
    def __init__(self, world=None, stats=None, log=None, console=None, ctx=None):
        if ctx is not None:
            stats, log, console = ctx.stats, ctx.log, ctx.console
        self.w = world or World()
        self.book = Book()
        self.T = {}
        self.F = {}
        self.bufs = D.Buffers()
        self.tw = Twins()
        self.st = stats if stats is not None else {}
        self.log = log if log is not None else []
        self.console = console
        self.passed = []        # writable arrays handed to the library by the caller
        self.states = ctx.states if ctx is not None else set()
        self.queried = {}
        self.call = None        # another way of making the calls
        self.track = False      # watch arguments and results (who owns which array)
        self.kept = []          # (label, array received from the library, copy)

    def count(self, k, n=1):
        self.st[k] = self.st.get(k, 0) + n

    # ---------------------------------------------------------------- executing
    def arg(self, v, form, key):
        a = D.vec3(v, form, self.bufs, key)
        if isinstance(a, np.ndarray) and a.flags.writeable:
            self.passed.append(a)
        elif isinstance(a, list):
            self.passed.append(a)
        return a

    def num(self, v, op):
        """a number, maybe as an array without dimensions, which the caller may write to"""
        if not op.get('zd') or v is None:
            return v
        a = np.array(float(v))
        self.passed.append(a)
        return a

    def pts(self, spec):
        p = D.points(spec, self.bufs)
        for a in p:
            if isinstance(a, list) or a.flags.writeable:
                self.passed.append(a)
        return p

    def thunk(self, op, T=None, F=None, w=None):
        """the call into the code under test (arguments are built outside it)"""
        T = self.T if T is None else T
        F = self.F if F is None else F
        w = w or self.w
        k = op['op']
        form = op.get('form', 'list')
        if k == 'new':
            C = w.WindTurbine.WindTurbine
            if op.get('dflt'):
                return lambda: C(op['R'])
            sh, ve = D.FRAMES[op['frame']]
            kw = dict(r_hub=self.arg(op['hub'], form, 'hub'), e_shaft_yaw0=self.arg(sh, form, 'sh'),
                      e_vert=self.arg(ve, form, 've'), U0=self.arg(op['U'], form, 'U'), Ground=op['Ground'],
                      Model=op['Model'], name=op.get('name', ''))
            if op['Lambda'] is not None:
                kw['Lambda'] = None if op['Lambda'] == 'none' else self.num(op['Lambda'], op)
            R = self.num(op['R'], op)
            return lambda: C(R, **kw)
        if k == 'pos':
            a = self.arg(op['v'], form, 'hub')
            return lambda: T[op['t']].update_position(a)
        if k == 'wind':
            a = self.arg(op['v'], form, 'U')
            return lambda: T[op['t']].update_wind(a)
        if k == 'yaw':
            a = self.num(op['v'], op)
            return lambda: T[op['t']].update_yaw_pos(a)
        if k == 'load':
            s = self.book.T[op['t']]
            lam = op['spec'].get('Lambda')
            sp = dict(op['spec'], lam_eff=s.Lambda if lam is None else float(lam))
            kw = D.load_args(sp, s.R, s.U)
            if 'Lambda' in kw:
                kw['Lambda'] = self.num(kw['Lambda'], op)
            if 'gamma_t_Ct' in kw and self.track:
                kw['gamma_t_Ct'] = self._cb(kw['gamma_t_Ct'])
            if op.get('form') == 'buf':
                for n in ('r', 'Ct', 'Gamma'):
                    if isinstance(kw.get(n), np.ndarray):
                        kw[n] = self.bufs.get('load' + n, kw[n])
            for n in ('r', 'Ct', 'Gamma'):
                if isinstance(kw.get(n), np.ndarray):
                    self.passed.append(kw[n])
            return lambda: T[op['t']].update_loading(**kw)
        if k == 'chi':
            if op.get('how') == 'attr':
                return lambda: setattr(T[op['t']], 'chi', op['v'])
            a = self.num(op['v'], op)
            return lambda: T[op['t']].set_chi(a)
        if k == 'gam':
            a = np.array(op['v'], float)
            return lambda: setattr(T[op['t']], 'gamma_t', a)
        if k == 'gamx':
            return lambda: self._gamx(T[op['t']], op['v'])
        if k == 'attr':
            return lambda: setattr(T[op['t']], op['name'], op['v'])
        if k == 'frame':
            sh, ve = D.FRAMES[op['frame']]
            a, b = self.arg(sh, form, 'sh'), self.arg(ve, form, 've')
            return lambda: T[op['t']].set_yaw0_coord(a, b)
        if k == 'q':
            p = self.pts(op['pts'])
            return lambda: T[op['t']].compute_u(*p, **D.qopts(op['o']))
        if k == 'read':
            return lambda: self._read(T[op['t']], op['what'])
        if k == 'bad':
            return self._bad(T[op['t']], op)
        if k == 'fnew':
            C = w.WindFarm.WindFarm
            if not op['ts'] and op.get('dflt'):
                return lambda: C()
            return lambda: C([T[t] for t in op['ts']], name=op.get('name', ''))
        f = F[op['f']] if 'f' in op else None
        if k == 'fapp':
            return lambda: f.append(T[op['t']])
        if k == 'fins':
            return lambda: f.insert(op['i'], T[op['t']])
        if k == 'fdel':
            return lambda: f.__delitem__(op['i'])
        if k == 'frem':
            return lambda: f.remove(f[op['i']])
        if k == 'fset':
            return lambda: f.__setitem__(op['i'], T[op['t']])
        if k == 'fext':
            return lambda: f.extend([T[t] for t in op['ts']])
        if k == 'frev':
            return lambda: f.reverse()
        if k == 'flay':
            rows = [[float(x) for x in r] for r in op['rows']]
            if form != 'list' or not rows:
                rows = np.array(rows).reshape(-1, 3)
                if form == 'buf':
                    rows = self.bufs.get('rows', rows)
            self.passed.append(rows)
            return lambda: setattr(f, 'layout', rows)
        if k == 'fq':
            p = self.pts(op['pts'])
            kw = D.qopts(op['o'])
            kw.pop('only_ind', None)
            if op.get('U0') is not None:
                kw['U0'] = self.arg(op['U0'], op.get('uform', 'list'), 'U0')
            return lambda: f.velocity_field(*p, **kw)
        if k == 'fread':
            return lambda: self._fread(f, op['what'])
        if k == 'fbad':
            return self._fbad(f, op)
        raise KeyError(k)

    def _cb(self, f):
        def cb(c):
            g = f(c)
            self.passed.append(g)      # the callback keeps the array it returned
            return g
        return cb

    @staticmethod
    def _gamx(t, f):
        t.gamma_t *= f          # the caller scales the wake strength in place

    @staticmethod
    def _read(t, what):
        if what == 'repr':
            return repr(t)
        if what == 'tostring':
            return t.tostring(short=True)
        if what == 'disk':
            return t.rotor_disk_points(7)
        return getattr(t, what)

    @staticmethod
    def _fread(f, what):
        if what == 'repr':
            return repr(f)
        if what == 'len':
            return len(f)
        return getattr(f, what)

    def _bad(self, t, op):
        b = op['what']
        x = np.array([1., 2.])
        return {
            'yaw_none': lambda: t.update_yaw_pos(None),
            'yaw_str': lambda: t.update_yaw_pos('ten'),
            'pos_short': lambda: t.update_position([1., 2.]),
            'pos_none': lambda: t.update_position(None),
            'wind_long': lambda: t.update_wind([1., 2., 3., 4.]),
            'wind_none': lambda: t.update_wind(None),
            'load_unknown': lambda: t.update_loading(Ct=0.4),           # no tip-speed ratio was ever given
            'load_nothing': lambda: t.update_loading(Lambda=5.),
            'load_cb_noCt': lambda: t.update_loading(Gamma=3., Lambda=5., gamma_t_Ct=lambda c: -c),
            'load_cbfail': lambda: t.update_loading(Ct=0.33, Lambda=5., gamma_t_Ct=_boom),
            'load_cbfail4': lambda: t.update_loading(r=np.array([0., 1.]) * t.R, Ct=np.array([.3, .4]), nCyl=4, Lambda=5., gamma_t_Ct=_boom),
            'load_badr': lambda: t.update_loading(r=None, Ct=np.array([.3, .4]), nCyl=4, Lambda=5.),
            'load_len': lambda: t.update_loading(r=np.array([.1, .5, 1.]), Ct=np.array([.3, .4]), nCyl=4, Lambda=5.),
            'frame_none': lambda: t.set_yaw0_coord(None, [0, 1, 0]),
            'frame_short': lambda: t.set_yaw0_coord([1, 0, 0], [0, 1]),
            'frame_vert': lambda: t.set_yaw0_coord(np.array([0., 1., 0.]), None),
            'frame_str': lambda: t.set_yaw0_coord([0, 1, 0], ['up', 0, 0]),
            'q_model': lambda: t.compute_u(x, x, x - 7, Model='none'),
            'q_list': lambda: t.compute_u([1., 2.], [1., 2.], [0., 1.]),
            'q_shape': lambda: t.compute_u(x, np.array([1., 2., 3.]), x, ground=True, Model='VC'),
            'q_kw': lambda: t.compute_u(x, x, x, longitudinal=True),
        }[b]

    def _fbad(self, f, op):
        n = len(f)
        b = op['what']
        return {
            'append_obj': lambda: f.append(object()),
            'append_none': lambda: f.append(None),
            'layout_shape': lambda: setattr(f, 'layout', np.zeros((n + 1, 3)) + 5),
            'layout_short': lambda: setattr(f, 'layout', np.zeros((n, 2)) + 5),
            'layout_scalar': lambda: setattr(f, 'layout', 5.),
        }[b]

    # ---------------------------------------------------------------- one operation, with injection
    def dry(self, op):
        """events an operation takes, measured on twins of everything it touches"""
        w = World()
        with w:
            T = {t: D.build(w, s) for t, s in self.book.T.items()}
            F = {f: w.WindFarm.WindFarm([T[t] for t in m]) for f, m in self.book.F.items()}
            p, b = self.passed, self.bufs
            self.passed, self.bufs = [], D.Buffers()
            try:
                fn = self.thunk(op, T, F, w)
            finally:
                self.passed, self.bufs = p, b
            n0 = self.console.n if self.console else 0
            _, _, lines, calls, _ = ENGINE.call(fn)
            nw = (self.console.n - n0) if self.console else 0
        return lines, calls, nw

    def execute(self, op):
        """returns ('ok', value) or ('exc', exception), and whether an injection fired"""
        inj = op.get('inj')
        fn = None
        kw = {}
        cons = False
        if inj:
            lines, calls, nw = self.dry(op)
            if inj['at'] == 'line' and lines:
                kw = dict(cancel_at=1 + int(inj['frac'] * lines), exc=inj['exc'])
            elif inj['at'] == 'call' and calls:
                kw = dict(fault_at=1 + int(inj['frac'] * calls), exc=inj['exc'])
            elif inj['at'] == 'console' and nw and self.console:
                cons = True
        n0 = len(self.passed)
        fn = self.thunk(op)
        mine = [(a, copy.deepcopy(a)) for a in self.passed[n0:]] if self.track else ()
        if cons:
            c = self.console
            c.fail_at, c.fail_for, f0 = c.n + int(inj['frac'] * nw), inj.get('for', 1), c.failed
        g = Guard([a for a, _ in mine]) if mine else None
        if g:
            kw['watch'] = g
        out, v, _, _, fired = (self.call or ENGINE.call)(fn, **kw)
        if g and g.bad:
            raise Violation('argument modified during the call', '%s, %s' % (op['op'], g.bad))
        if cons:
            c.fail_at = -1
            if c.failed > f0:
                fired = ('console', 'write')
        if fired:
            self.count('fault_%s_%s' % (inj['at'], inj['exc'] if inj['at'] != 'console' else 'oserror'))
            self.count('where_' + fired[1].split(':')[0].split('>')[0])
        for a, b in mine:
            self.count('arguments_checked')
            if not (repr(a) == repr(b) if isinstance(a, list) else np.array_equal(a, b, equal_nan=True)):
                raise Violation('argument modified', '%s: %s instead of %s' % (op['op'], a, b))
        if self.track:
            self.check_kept(op['op'])
            if out == 'ok':
                self.keep(op['op'], v)
        return out, v, fired

    def keep(self, label, v):
        """remember a result"""
        for a in v if isinstance(v, (tuple, list)) else [v]:
            if type(a) is np.ndarray:
                self.kept.append((label, a, a.copy()))
        del self.kept[:-24]

    def check_kept(self, label):
        for l, a, b in self.kept:
            self.count('results_checked')
            if not np.array_equal(a, b, equal_nan=True):
                raise Violation('result changed later', 'the result of %s was changed by %s' % (l, label))

    def scramble_results(self):
        """the caller writes into results it received"""
        for i, (l, a, b) in enumerate(self.kept):
            if a.flags.writeable:
                a[...] = 555.5
                for _, c, d in self.kept[i + 1:]:
                    if not np.array_equal(c, d, equal_nan=True):
                        raise Violation('results share memory', 'writing into a result of %s changed another one' % l)
        self.kept = []
        self.count('results_scrambled')

    # ---------------------------------------------------------------- checking
    def rare(self, s, o, t):
        rf = D.model.Ref(s)
        self.count('rare_skewed' if abs(rf.skew) > 1e-7 else 'rare_aligned')
        if s.yaw:
            self.count('rare_yawed')
        if o.get('ground', s.Ground):
            self.count('rare_ground')
            if abs(rf.vert.dot(rf.hub)) > 1e-9:
                self.count('rare_ground_at_height')
        if s.chi is not None:
            self.count('rare_prescribed_skew')
        if s.load and s.load[1] != s.U:
            self.count('rare_wind_changed_after_loading')
        if s.load and s.load[0].get('nCyl', 1) != 1:
            self.count('rare_several_cylinders')
        if s.load is None and s.gam is None:
            self.count('rare_query_before_loading')
        self.count('rare_model_' + (o.get('Model') or s.Model))
        for k in ('longi', 'root', 'no_wake'):
            if o.get(k):
                self.count('rare_' + k)
        if self.queried.get(t, None) not in (None, s.key()):
            self.count('rare_requery_after_update')
        self.queried[t] = s.key()

    def check_query(self, op, out, v, reference=True):
        s = self.book.T[op['t']]
        self.rare(s, D.qopts(op['o']), op['t'])
        P, o = op['pts']['p'], D.qopts(op['o'])
        e = self.tw.query(s, P, op['pts'].get('form', 'arr'), o)
        self._cmp('query', s, P, o, e, out, v)
        if reference and out == 'exc' and not isinstance(v, NotImplementedError):
            # not supported, not loaded, or else it must answer
            G = np.asarray(P, float).reshape(-1, 3)
            r = D.reference(s, self.tw.gamma(s), G, o)
            if r is not None and r[1].any():
                raise Violation('query raised', 'turbine %d: %r' % (op['t'], v))
        if reference and out == 'ok' and e[0] == 'ok':
            G = np.asarray(P, float).reshape(-1, 3)
            r = D.reference(s, self.tw.gamma(s), G, o)
            if r is not None and r[1].any():
                self.count('reference_checked')
                u, ok = r
                d = D.close(D.flat(v), u, 2e-6 * D.scale_of(s, self.tw.gamma(s).gamma_t), np.array([ok] * 3))
                if d:
                    raise Violation('velocity differs from the vortex model', 'turbine %d, %s' % (op['t'], d))

    def _cmp(self, what, s, P, o, e, out, v, extra=''):
        if out == 'exc':
            if e[0] == 'ok':
                raise Violation(what + ' raised', '%s %s: %r' % (extra, what, v))
            if D.outcome_class(v) != e[1]:
                self.count('other_exception')
            return
        if e[0] == 'exc':
            raise Violation(what + ' did not raise', '%s expected %s' % (extra, e[1]))
        if [np.shape(c) for c in v] != e[2]:
            raise Violation(what + ' has another shape', '%s %s vs %s' % (extra, [np.shape(c) for c in v], e[2]))
        g = self.tw.gamma(s)
        gt = np.atleast_1d(g.gamma_t) if g.gamma_t is not None else [0]
        radii = [s.R] if len(gt) == 1 or g.r is None else list(np.atleast_1d(g.r))
        mask = np.array([clear_mask(s, P, radii)] * 3)
        d = D.close(D.flat(v), e[1], 1e-8 * D.scale_of(s, gt), mask)
        if d:
            raise Violation(what + ' differs from that of a new turbine', extra + ' ' + d)

    def probe(self, t, label='probe'):
        """all answers of turbine t against its twin"""
        s = self.book.T[t]
        obj = self.T[t]
        self.states.add(hash(s.key()) & 0xffffffffff)
        P = (np.asarray(s.hub, float) + PROBE_DIRS * s.R).tolist()
        for o in ({}, {'only_ind': True, 'longi': True, 'root': True}):
            if o and (s.Model != 'VC' or s.gam is not None):
                continue
            e = self.tw.query(s, P, 'arr', o)
            out, v, _, _, _ = ENGINE.call(lambda: obj.compute_u(*D.points({'p': P}), **o))
            self._cmp('query', s, P, o, e, out, v, '%s, turbine %d:' % (label, t))
            self.count('answers_checked')
        self.angles(t, label)
        if self.track:
            self.disk(t, 7, label)
            a, b = getattr(obj, 'Ct', None), getattr(self.tw.gamma(s), 'Ct', None)
            if b is not None and (a is None or np.shape(a) != np.shape(b) or D.close(np.atleast_1d(a), np.atleast_1d(b), 1e-9)):
                raise Violation('thrust coefficient', label + ', turbine %d: %s instead of %s' % (t, a, b))

    def angles(self, t, label='probe'):
        """orientation bookkeeping against the independent model"""
        s, obj = self.book.T[t], self.T[t]

        def get(fn):
            out, v, _, _, _ = ENGINE.call(fn)
            if out == 'exc':
                raise Violation('reading an angle raised', label + ', turbine %d: %r' % (t, v))
            return v

        yp = get(lambda: obj.yaw_pos)
        if not abs(float(yp) - s.yaw) < 1e-12:
            raise Violation('yaw position', label + ', turbine %d: %r instead of %r' % (t, yp, s.yaw))
        sh, ve, lat = D.frame_of(s)
        U = np.asarray(s.U, float)
        rf = D.model.Ref(s)
        e = np.asarray(get(lambda: obj.e_shaft_g), float).ravel()
        if e.shape != (3,) or not np.max(np.abs(e - rf.shaft)) < 1e-9:
            raise Violation('shaft direction', label + ', turbine %d: %s instead of %s' % (t, e, rf.shaft))
        h = np.hypot(U.dot(sh), U.dot(lat))
        if h > 1e-6 * np.linalg.norm(U) and h > 0:
            yw = float(get(lambda: obj.yaw_wind))
            ref = math.atan2(U.dot(lat), U.dot(sh))
            if not abs(math.remainder(yw - ref, 2 * math.pi)) < 2e-6 or abs(yw) > math.pi + 1e-6:
                raise Violation('wind angle', label + ', turbine %d: %r instead of %r' % (t, yw, ref))
            c = get(lambda: obj.chi)
            if s.chi is not None:
                if c is None or not abs(c - s.chi) < 1e-12:
                    raise Violation('prescribed skew', label + ', turbine %d: %r instead of %r' % (t, c, s.chi))
            elif c is not None:
                if not abs(math.remainder(float(c) - (ref - s.yaw), 2 * math.pi)) < 2e-6:
                    raise Violation('skew angle', label + ', turbine %d: %r instead of %r' % (t, c, ref - s.yaw))
            ye = float(get(lambda: obj.yaw_error))
            if abs(U.dot(ve)) < 1e-9 * h:
                want = math.remainder(s.yaw - ref, 2 * math.pi)
                if abs(abs(want) - math.pi) > 1e-6 and not abs(ye - want) < 2e-6:
                    raise Violation('yaw error', label + ', turbine %d: %r instead of %r' % (t, ye, want))
            elif not math.isfinite(ye):
                raise Violation('yaw error', label + ', turbine %d: %r' % (t, ye))
        self.count('angles_checked')

    def disk(self, t, n, label='probe'):
        s, obj = self.book.T[t], self.T[t]
        out, p, _, _, _ = ENGINE.call(lambda: obj.rotor_disk_points(n))
        if out == 'exc':
            raise Violation('rotor disk raised', repr(p))
        p = np.asarray(p)
        rf = D.model.Ref(s)
        L = rf.local(p.T)
        if p.shape != (3, n) or not np.max(np.abs(L[:, 2])) < 1e-9 * max(1, s.R) or \
                not np.max(np.abs(np.hypot(L[:, 0], L[:, 1]) - s.R)) < 1e-9 * max(1, s.R):
            raise Violation('rotor disk is not the circle around the hub', 'turbine %d' % t)
        a = np.diff(np.arctan2(L[:, 1], L[:, 0]))
        if n > 1 and not min(np.max(np.abs(np.sin((a - q * 2 * np.pi / (n - 1)) / 2))) for q in (1, -1)) < 1e-6:
            raise Violation('rotor disk points are not equally spaced', 'turbine %d' % t)

    def farm_expect(self, f, P, form, o, U0):
        o = dict(o)
        o['only_ind'] = True
        n = len(np.asarray(P, float).reshape(-1, 3))
        tot = np.zeros((3, n))
        mask = np.ones(n, bool)
        sc = 1e-3
        shape = None
        for t in self.book.F[f]:
            s = self.book.T[t]
            e = self.tw.query(s, P, form, o)
            if e[0] == 'exc':
                return ('exc', e[1], None), mask, sc
            tot += e[1]
            shape = e[2]
            g = self.tw.gamma(s)
            gt = np.atleast_1d(g.gamma_t) if g.gamma_t is not None else [0]
            radii = [s.R] if len(gt) == 1 or g.r is None else list(np.atleast_1d(g.r))
            mask &= clear_mask(s, P, radii)
            sc += D.scale_of(s, gt)
        if U0 is not None:
            tot += np.asarray(U0, float).reshape(3, 1)
            sc += float(np.max(np.abs(U0)))
        return ('ok', tot, shape), mask, sc

    def check_fq(self, op, out, v):
        e, mask, sc = self.farm_expect(op['f'], op['pts']['p'], op['pts'].get('form', 'arr'), D.qopts(op['o']), op.get('U0'))
        if out == 'exc':
            if e[0] == 'ok':
                raise Violation('farm query raised', 'farm %d: %r' % (op['f'], v))
            return
        if e[0] == 'exc':
            raise Violation('farm query did not raise', 'expected ' + e[1])
        d = D.close(D.flat(v), e[1], 1e-8 * sc, np.array([mask] * 3))
        if d:
            raise Violation('farm field is not the sum over its turbines', 'farm %d: %s' % (op['f'], d))
        if e[2] is not None and [np.shape(c) for c in v] != e[2]:
            raise Violation('farm field has another shape', str([np.shape(c) for c in v]))
        self.count('farm_fields_checked')

    def probe_farm(self, f):
        m = self.book.F[f]
        obj = self.F[f]
        hubs = [self.book.T[t].hub for t in m]
        if len(obj) != len(m) or obj.nWT != len(m) or not all(obj[i] is self.T[t] for i, t in enumerate(m)):
            raise Violation('farm members', 'farm %d' % f)
        if m:
            lay = np.asarray(obj.layout)
            if lay.shape != (len(m), 3) or not np.max(np.abs(lay - np.asarray(hubs, float))) <= 1e-12 * (1 + np.max(np.abs(hubs))):
                raise Violation('layout does not describe the members', 'farm %d: %s instead of %s' % (f, lay.tolist(), hubs))
        c = np.mean(np.asarray(hubs, float), axis=0) if m else np.zeros(3)
        R = self.book.T[m[0]].R if m else 1.
        P = (c + 1.37 * R * PROBE_DIRS[:4]).tolist()
        op = dict(op='fq', f=f, pts=dict(p=P), o={}, U0=[1., 2., 3.])
        p = D.points({'p': P})
        out, v, _, _, _ = ENGINE.call(lambda: obj.velocity_field(*p, U0=[1., 2., 3.]))
        self.check_fq(op, out, v)

    def scramble(self):
        """the caller reuses all arrays it passed so far"""
        for a in self.passed:
            try:
                if isinstance(a, list):
                    for i in range(len(a)):
                        a[i] = 1e3 + i
                elif a.flags.writeable:
                    a[...] = -777.25
            except Exception:
                pass
        self.passed = []
        self.count('scrambles')

    # ---------------------------------------------------------------- a step of a history
    def step(self, op, reference=True):
        if not self.book.valid(op):
            self.count('invalid_ops')
            return
        k = op['op']
        self.count('op_' + k)
        if k == 'mut':
            if op.get('what') == 'results':
                self.scramble_results()
            else:
                self.scramble()
            if self.track:
                self.check_kept('writing to an argument')
            self.probes(op)
            return
        if k == 'probe':
            self.probes(op)
            return
        out, v, fired = self.execute(op)
        self.log.append((k, out if out == 'ok' else D.outcome_class(v), bool(fired)))
        if k in ('q', 'fq') and out == 'ok':
            self.log.append([float('%.6g' % x) for x in D.flat(v).ravel()[:6]])
        if k == 'new':
            if out == 'exc':
                if not fired:
                    raise Violation('construction raised', repr(v))
                return
            self.T[op['t']] = v
            self.book.apply(op)
        elif k == 'fnew':
            if out == 'exc':
                if not fired:
                    raise Violation('construction raised', repr(v))
                return
            self.F[op['f']] = v
            self.book.apply(op)
        elif k in ('q', 'fq'):
            if out == 'exc' and fired:
                pass                                    # an injected failure may surface
            elif k == 'q':
                self.check_query(op, out, v, reference)
            else:
                self.check_fq(op, out, v)
        elif k in ('read', 'fread'):
            if out == 'exc' and not fired:
                raise Violation('reading %s raised' % op['what'], repr(v))
            if out == 'ok' and op['what'] == 'layout' and len(self.book.F[op['f']]):
                hubs = np.array([self.book.T[t].hub for t in self.book.F[op['f']]], float)
                if np.shape(v) != hubs.shape or not np.max(np.abs(np.asarray(v) - hubs)) <= 1e-12 * (1 + np.max(np.abs(hubs))):
                    raise Violation('layout does not describe the members', 'farm %d' % op['f'])
        elif k in ('bad', 'fbad'):
            if out == 'ok':
                if k == 'fbad':
                    raise Violation('invalid %s accepted' % op['what'], 'farm %d' % op['f'])
                if op['what'] == 'load_unknown':
                    raise Violation('loading without any tip-speed ratio accepted', 'turbine %d' % op['t'])
                if op['what'] in ('load_cbfail', 'load_cbfail4'):
                    raise Violation('loading succeeds although the user function failed', 'turbine %d' % op['t'])
                if op['what'] in BAD_Q:
                    self.count('bad_query_accepted')
                else:
                    self.count('bad_accepted')
                    raise Skip()
        else:
            if out == 'ok':
                self.book.apply(op)
            elif not fired:
                raise Violation('update raised', '%s: %r' % (k, v))
            elif k == 'fapp':
                # either appended or not
                f, m = self.F[op['f']], self.book.F[op['f']]
                if fired[0] == 'cancel' and len(f) == len(m) + 1:
                    self.book.apply(op)
            elif fired[0] == 'cancel':
                # interrupted: repeating it must bring the final state
                op2 = {a: b for a, b in op.items() if a != 'inj'}
                out, v, _ = self.execute(op2)
                if out == 'exc':
                    raise Violation('update cannot be repeated after an interruption', '%s: %r' % (k, v))
                self.count('retries')
                self.book.apply(op)
            # otherwise: failed, nothing may have changed
        self.probes(op)

    def probes(self, op):
        for t in op.get('pt', ()):
            if t in self.T:
                self.probe(t, 'after ' + op['op'])
        for f in op.get('pf', ()):
            if f in self.F:
                self.probe_farm(f)

    def final(self, farms=True):
        for t in sorted(self.T):
            self.probe(t, 'at the end')
        if farms:
            for f in sorted(self.F):
                self.probe_farm(f)


class Skip(Exception):
    """the run cannot be judged further (the code accepts something it used to reject)"""
