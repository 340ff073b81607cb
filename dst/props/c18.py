"""C18: figures show the data they are given, whatever was drawn before"""
import types
import warnings

import numpy as np

from .. import domain as D
from ..engine import ENGINE
from ..machine import Violation
from ..world import World

RUNS = {'quick': 800, 'thorough': 40000}
PROBES = ['op_plot', 'op_cmap', 'op_study', 'op_ambient', 'op_close', 'figures_compared', 'rare_same_axes', 'rare_new_figure', 'rare_masked', 'rare_limits_of_data',
          'rare_negative_lines', 'rare_no_filling', 'rare_streamlines', 'rare_streamlines_plane', 'rare_near_repeat', 'rare_after_failure', 'rare_refused', 'rare_map_changed_by_caller',
          'rare_data_reused', 'fault_line_int', 'fault_line_kbd', 'fault_call_mem', 'fault_axes_fails', 'arguments_checked']
RULE = ('one run = 3-14 plots with the project\'s helpers (plotPlane and plotPlaneVert of the blockage studies, plotPlane of the coupling examples), colour maps, '
        'whole studies, changes of the settings of the plotting library, some refused, cut off or failing; every figure is compared, artist by artist, with '
        'one drawn directly with matplotlib; non-trivial = a figure was drawn after another figure or failure; distinct by digest of the history')
REAL = ['wiz.article_blockage.helper_functions (plotPlane, plotPlaneVert)', 'wiz.article_blockage.Task01-03 (main)', 'coupling_examples.helper_functions (plotPlane)',
        'wiz.plotting_functions', 'matplotlib (Agg)']
STUBS = ['standard output (simulated console)', 'welib (absent: streamQuiver)']
ASSUMPTIONS = ['figures are compared before they are rendered', 'seeded sampling: histories that were not generated are not decided']
HELPERS = ['plane', 'plane', 'vert', 'coupling']


# ------------------------------------------------------------------ plans
def data(rng, like=None):
    if like and rng.random() < 0.5:
        d = dict(like)
        k = rng.choice(['seed', 'seed', 'nan', 'scale', 'shift'])
        d[k] = data(rng)[k]
        return d
    return dict(n=rng.choice([2, 3, 5, 8]), m=rng.choice([2, 3, 5, 8]), seed=rng.randrange(10000), nan=rng.choice([0, 0, 0, 1, 3]), scale=rng.choice([1, 1, 1, 2.5, 0.1]),
                shift=rng.choice([0, 0, -0.7, 0.4]))


def levels(rng):
    k = rng.random()
    if k < 0.3:
        return None
    if k < 0.4:
        return 'CT%.2f' % rng.choice([0.4, 0.95])
    lo = rng.choice([-0.6, 0.2, 0.5])
    return sorted({D.rnd(lo + x) for x in [rng.uniform(0, 1) for _ in range(rng.choice([2, 3, 6]))]})


def plot(rng, prev):
    like = rng.choice(prev) if prev else None
    p = dict(op='plot', fn=rng.choice(HELPERS), d=data(rng, like and like['d']), ax=rng.choice(['new', 'new', 'old', 'none']),
             lim=rng.choice([None, None, [0.5, 1.05], [0.2, 1.1], [-0.5, 0.9], [0.5, None], [0, 1.1], [0., 1.], [-0.6, 0]]), fill=rng.choice([None, None, None, [], 'lev']), lines=levels(rng),
             component=rng.choice(['Axial', 'Axial', 'Vorticity', 'Total']), hor=rng.random() < 0.6, cmap=rng.choice(['coolwarm', 'coolwarm', 'viridis', 'own', 'own']),
             colors=rng.choice(['k', 'w', 'r']), lw=rng.choice([0.8, 0.8, 1.5]), alpha=rng.choice([0.3, 0.3, 1.0]), ls=rng.choice(['solid', 'solid', 'dashed', 'dotted']),
             eq=rng.random() < 0.7, stream=0, dflt=rng.random() < 0.25)
    if rng.random() < 0.06:
        p['stream'] = rng.choice([1, 2])
    if p['fill'] == 'lev':
        p['fill'] = levels(rng) or [0.3, 0.6, 0.9]
    if like and rng.random() < 0.4:
        q = dict(like)
        for k in rng.sample(['d', 'ax', 'lim', 'fill', 'lines', 'component', 'hor', 'cmap', 'colors', 'fn', 'ls', 'eq'], rng.choice([1, 2, 2, 3])):
            q[k] = p[k]
        p = q
        p['near'] = True
    p.pop('inj', None)
    if p['stream'] and p['fn'] == 'coupling':
        p['d'] = dict(p['d'], n=5, m=8, nan=0, even=True)
    elif p['stream'] and p['fn'] == 'plane':
        # with somebody who draws the arrows, or nobody
        p['arrows'] = rng.random() < 0.8
        p['d'] = dict(p['d'], n=5, m=8, nan=0, even=6 if rng.random() < 0.9 else True)
    if p['d']['nan'] and (p['lim'] is None or p['lim'][1] is None):
        p['lim'] = [0.5, 1.05]
    return p


def gen(rng, tier):
    ops, prev = [], []
    W = [('plot', 8), ('cmap', 1.5), ('ambient', 1), ('close', .5), ('study', .35)]
    for _ in range(rng.randint(3, 14)):
        k = rng.choices([a for a, _ in W], [b for _, b in W])[0]
        if k == 'plot':
            o = plot(rng, prev)
            prev.append(o)
        elif k == 'cmap':
            o = dict(op='cmap', lim=[rng.choice([0.2, 0.5, 0.7]), rng.choice([1.05, 1.1, 1.4])], alpha=rng.choice([1, 0.6, 0.6, 0.3]), spoil=rng.random() < 0.4)
        elif k == 'ambient':
            o = dict(op='ambient', what=rng.choice(['dashed', 'dashed', 'cmap', 'figure', 'hold']))
        elif k == 'close':
            o = dict(op='close', how=rng.choice(['one', 'all']), n=rng.randrange(5))
        else:
            o = dict(op='study', n=rng.choice([1, 2, 3]))
        if k in ('plot', 'cmap', 'study') and rng.random() < 0.22:
            o['inj'] = dict(at=rng.choice(['line', 'line', 'call', 'axes'] if k == 'plot' else ['line', 'call']), frac=D.rnd(rng.random(), 5), exc=rng.choice(['int', 'kbd']),
                            n=rng.choice(['pcolormesh', 'contour', 'contourf', 'set_xlabel', 'tick_params']))
        ops.append(o)
    return dict(ops=ops)


# ------------------------------------------------------------------ what is plotted
def fields(d, vert=False):
    r = np.random.RandomState(d['seed'] % 7)       # few grids
    a = np.sort(r.uniform(-2, 2, d['n']).round(3)) + np.arange(d['n']) * 0.01
    z = np.sort(r.uniform(-3, 3, d['m']).round(3)) + np.arange(d['m']) * 0.01
    if d.get('even'):
        e = 3 if d['even'] is True else d['even']
        a, z = np.linspace(-2, 2, d['n']), np.linspace(-e, e, d['m'])
    r = np.random.RandomState(d['seed'])
    A, Z = np.meshgrid(a, z)
    f = [d['scale'] * r.uniform(0.2, 1.2, A.shape) + d['shift'] for _ in range(4)]
    for k in range(min(d['nan'], A.size - 2)):
        for x in f:
            x.ravel()[(k * 3 + d['seed']) % A.size] = np.nan
    return A, Z, f


def speed(p, u, v, o):
    if p['component'] == 'Axial':
        return u
    if p['component'] == 'Vorticity' and o is not None:
        return o
    return np.sqrt(u ** 2 + v ** 2)


def own_map(lim, alpha):
    from matplotlib.colors import LinearSegmentedColormap
    c = [(63, 63, 153), (159, 159, 204), (158, 204, 170), (255, 212, 96), (255, 255, 255), (255, 255, 255), (255, 255, 255), (138, 42, 93)]
    v = np.array([lim[0], .9, .95, .98, .999, 1., 1.001, lim[1]])
    w = (v - v[0]) / (v[-1] - v[0])
    return LinearSegmentedColormap.from_list('own', [(x, tuple(q / 255 for q in y) + (alpha,)) for x, y in zip(w, c)])


def reference(ax, p, D_, cmap, fill, lines):
    """the figure, drawn directly"""
    A, Z, (U, V, W, O) = D_
    fn = p['fn']
    if fn == 'coupling':
        x, y = Z[:, 0], A[0]
        u, v = W.T, U.T
        S = speed(dict(component='Axial' if p['component'] == 'Axial' else ''), u, v, None)
        X, Y = x, y
    elif fn == 'vert':
        X, Y = Z[:, 0], A[0]
        S = speed(dict(component='Axial' if p['component'] == 'Axial' else ''), W, V, None).T
    else:
        X, Y = Z, A
        S = speed(p, W, U if p['hor'] else V, O)
    lo, hi = p['lim'] or (None, None)
    if lo is None:
        lo, hi = S.min(), S.max()
    M = np.ma.masked_where(np.isnan(S), S)
    st = {} if p['dflt'] else dict(colors=p['colors'], linewidths=p['lw'], alpha=p['alpha'])
    if p['dflt']:
        st = dict(colors='w' if fn == 'coupling' else 'k', linewidths=0.8, alpha=0.3)
    im = None
    if fn == 'coupling' or fill is None:
        im = ax.pcolormesh(X, Y, M, cmap=cmap, vmin=lo, vmax=hi)
    elif len(fill):
        im = ax.contourf(X, Y, M, levels=fill, cmap=cmap, vmin=lo, vmax=hi)
    if lines is not None:
        ax.contour(X, Y, M, levels=lines, linestyles='solid' if fn == 'coupling' or p['dflt'] else p['ls'], **st)
    if fn == 'coupling' and p['stream']:
        ys = np.linspace(Y.min() * 0.9, Y.max() * 0.9, p['stream'])
        ax.streamplot(X, Y, u, v, color='k', start_points=np.array([ys * 0, ys]).T, linewidth=0.7, density=30, arrowstyle='-')
    if fn == 'plane' and p['stream']:
        a, u, v = A[0], W.T, (U if p['hor'] else V).T
        s = [[-4, y] for y in np.linspace(a.min() * 0.9, a.max() * 0.9, p['stream'])] if p['hor'] else [[-4, -.5], [-4, 0.], [-4, .5], [-4, 1.5]]
        ax.streamplot(Z[:, 0], a, u, v, color='k', start_points=np.array(s), linewidth=0.7, density=30, arrowstyle='-')
        if not p.get('arrows'):
            raise NameError('streamQuiver')     # another package draws the arrows
        arrows(ax, None, n=5, scale=40, angles='xy')
    if fn != 'coupling':
        ax.set_xlabel('x/R [-]')
        ax.set_ylabel('y/R [-]' if fn == 'plane' and p['hor'] else 'z/R [-]')
    if fn == 'coupling' or p['eq'] or p['dflt']:
        ax.set_aspect('equal')
    if fn != 'coupling':
        ax.tick_params(direction='in')
    return im


def arrows(ax, sp, n=0, scale=0, angles=''):
    """stands for the package which draws arrows along streamlines"""
    if sp is not None and type(sp).__name__ != 'StreamplotSet':
        raise TypeError('no streamlines')
    ax.text(n, scale, angles)


# ------------------------------------------------------------------ what an axes shows
T = np.linspace(0, 1, 41)


def arr(a):
    return np.asarray(np.ma.filled(np.ma.asarray(a, dtype=float), np.nan), float)


def colours(c):
    return arr(c(T))


def show_mappable(m):
    if m is None:
        return None
    out = [type(m).__name__, [float('nan') if x is None else float(x) for x in m.get_clim()], colours(m.get_cmap())]
    if hasattr(m, 'levels'):
        out.append(arr(m.levels))
    return out


def path(p):
    return arr(p.vertices)


def show_collection(c):
    out = [type(c).__name__]
    if hasattr(c, 'get_coordinates'):
        out.append(arr(c.get_coordinates()))
    else:
        out.append([path(p) for p in c.get_paths()])
    if c.get_array() is not None:
        out.append(arr(c.get_array()).ravel())
        out += show_mappable(c)
    else:
        out += [arr(c.get_facecolor()), arr(c.get_edgecolor())]
    out += [arr(c.get_linewidth()), [[float(q[0])] + [float(z) for z in (q[1] or [])] for q in c.get_linestyle()], float('nan') if c.get_alpha() is None else float(c.get_alpha())]
    return out


def show(ax, fine=True):
    out = dict(collections=[show_collection(c) for c in ax.collections],
               lines=[[arr(l.get_xdata()), arr(l.get_ydata()), arr(colour(l.get_color())), float(l.get_linewidth()), str(l.get_linestyle())] for l in ax.lines],
               texts=[[t.get_text(), arr(t.get_position())] for t in ax.texts], patches=len(ax.patches), images=len(ax.images),
               labels=[ax.get_xlabel(), ax.get_ylabel(), ax.get_title()], aspect=str(ax.get_aspect()), limits=arr(ax.get_xlim() + ax.get_ylim()))
    return out


def colour(c):
    from matplotlib.colors import to_rgba
    return to_rgba(c)


def differ(a, b, where=''):
    """first difference, or None"""
    if isinstance(a, dict):
        for k in a:
            d = differ(a[k], b[k], k)
            if d:
                return d
        return None
    if isinstance(a, np.ndarray) and isinstance(b, np.ndarray):
        if a.shape != b.shape:
            return '%s: shape %s instead of %s' % (where, a.shape, b.shape)
        ok = np.isclose(a, b, rtol=1e-8, atol=1e-9, equal_nan=True)
        if not ok.all():
            i = tuple(np.argwhere(~ok)[0])
            return '%s%s: %.10g instead of %.10g' % (where, list(map(int, i)), a[i], b[i])
        return None
    if isinstance(a, list) and isinstance(b, list):
        if len(a) != len(b):
            return '%s: %d instead of %d' % (where, len(a), len(b))
        for n, (x, y) in enumerate(zip(a, b)):
            d = differ(x, y, '%s[%d]' % (where, n))
            if d:
                return d
        return None
    if isinstance(a, float) and isinstance(b, float):
        return None if np.isclose(a, b, rtol=1e-8, atol=1e-9, equal_nan=True) else '%s: %r instead of %r' % (where, a, b)
    return None if type(a) is type(b) and a == b else '%s: %s instead of %s' % (where, str(a)[:80], str(b)[:80])


# ------------------------------------------------------------------ running
_studies = {}


def study_world():
    w = World(overrides={})
    h = w.script('wiz_abl')
    w.overrides['helper_functions'] = h
    return w


def study_main(w, n):
    return w.script('wiz_task%d' % n).main


class Drawing:
    def __init__(self, ctx):
        self.ctx, self.st = ctx, ctx.stats
        self.axes = []          # [axes, [what was drawn], clean]
        self.maps = {}
        self.failed = False
        self.n = 0
        self.used = {}

    def cmap(self, name):
        if name == 'own':
            if 'own' in self.maps:
                return self.maps['own'][:2]
            c, _ = self.pf.get_cmap(0.5, 1.05, alpha=0.6)
            return c, own_map([0.5, 1.05], 0.6)
        return name, name

    def lev(self, l):
        if isinstance(l, str):
            return np.array(self.pf.get_contours(float(l[2:]))[1])
        return l if not l else np.array(l)

    def inject(self, o, fn, ax=None):
        f = o.get('inj')
        if not f:
            return ENGINE.call(fn)[:2] + (None,)
        if f['at'] == 'axes':
            if ax is None:
                return ENGINE.call(fn)[:2] + (None,)
            hit = []

            def boom(*a, **k):
                hit.append(1)
                raise RuntimeError('simulated failure of the plotting library')
            setattr(ax, f['n'], boom)
            try:
                out, v, _, _, _ = ENGINE.call(fn)
            finally:
                delattr(ax, f['n'])
            if hit:
                self.st['fault_axes_fails'] += 1
            return out, v, ('axes', f['n']) if hit else None
        lines, calls = o['size'] if 'size' in o else ENGINE.call(o['dry'])[2:4]
        kw = {}
        if f['at'] == 'line' and lines:
            kw = dict(cancel_at=1 + int(f['frac'] * lines), exc=f['exc'])
        elif f['at'] == 'call' and calls:
            kw = dict(fault_at=1 + int(f['frac'] * calls), exc='mem')
        out, v, _, _, fired = ENGINE.call(fn, **kw)
        if fired:
            self.st['fault_%s_%s' % (f['at'], kw['exc'])] += 1
        return out, v, fired

    def call(self, m, p, ax, cmap, fill, lines, D_):
        A, Z, (U, V, W, O) = D_
        kw = dict(minSpeed=None, maxSpeed=None)
        if p['lim']:
            kw = dict(minSpeed=p['lim'][0], maxSpeed=p['lim'][1])
        kw.update(cmap=cmap, levelsLines=lines)
        if not p['dflt']:
            kw.update(colors=p['colors'], linewidths=p['lw'], alpha=p['alpha'])
        if p['fn'] == 'coupling':
            if p['stream']:
                kw['nStreamlines'] = p['stream']
            x, y, u, v = Z[:, 0].copy(), A[0].copy(), W.T.copy(), U.T.copy()
            return lambda: m['c'].plotPlane(x, y, u, v, ax, axial=p['component'] == 'Axial', **kw), [x, y, u, v]
        kw['levelsContour'] = fill
        if not p['dflt']:
            kw.update(ls=p['ls'], axequal=p['eq'])
        if ax is not None:
            kw['ax'] = ax
        if p['fn'] == 'vert':
            return lambda: m['a'].plotPlaneVert(A, Z, V, W, component=p['component'], **kw), [A, Z, V, W]
        if p['stream']:
            kw['nStreamlines'] = p['stream']
            m['a'].__dict__.pop('streamQuiver', None)
            if p.get('arrows'):
                m['a'].streamQuiver = arrows
        o = types.SimpleNamespace(X=A, Y=A if not p['hor'] else A * 0, Z=Z, U=U, V=V, W=W, O=O)
        if not p['hor']:
            o.X = A * 0
        return lambda: m['a'].plotPlane(o, component=p['component'], Horizontal=p['hor'], **kw), [A, Z, U, V, W, O]

    def scratch_axes(self):
        from matplotlib.figure import Figure
        return Figure().add_subplot()

    def plot(self, p):
        plt, st = self.plt, self.st
        key = str(p['d'])
        if key in self.used:
            D_ = self.used[key]
            st['rare_data_reused'] += 1
        else:
            D_ = self.used[key] = fields(p['d'])
        good = fields(p['d'])
        cmap, refmap = self.cmap(p['cmap'])
        fill, lines = self.lev(p['fill']), self.lev(p['lines'])
        keep_l = [None if x is None else np.array(x) for x in (fill, lines)]
        if p['ax'] == 'none' and p['fn'] != 'coupling':
            ax = None
        elif p['ax'] == 'old' and any(r[2] for r in self.axes):
            ax = [r for r in self.axes if r[2]][-1][0]
            st['rare_same_axes'] += 1
        else:
            fig, ax = plt.subplots()
            self.axes.append([ax, [], True])
        before = set(plt.get_fignums())
        rc = dict(self.mpl.rcParams)
        fn, args = self.call(self.m, p, ax, cmap, fill, lines, D_)
        copies = [a.copy() for a in args]
        if p.get('inj'):
            def dry():
                f = self.scratch_axes()
                self.call(self.dry, dict(p, ax='x'), f, cmap, fill, lines, fields(p['d']))[0]()
            p = dict(p, dry=dry)
        out, v, fired = self.inject(p, fn, ax)
        if p.get('inj') and p['inj']['at'] != 'axes' and ax is None:
            before |= set(plt.get_fignums()) if out == 'exc' else set()
        self.ctx.log.append(('plot', p['fn'], out, bool(fired)))
        for a, b in zip(args + [fill, lines], copies + keep_l):
            st['arguments_checked'] += 1
            if b is not None and not np.array_equal(a, b, equal_nan=True):
                raise Violation('argument modified', 'plot helper %s: %s instead of %s' % (p['fn'], str(a)[:100], str(b)[:100]))
        for k, x in self.mpl.rcParams.items():
            if k != 'contour.negative_linestyle' and x != rc[k]:
                raise Violation('settings of the plotting library changed', '%s is %r instead of %r' % (k, x, rc[k]))
        # the figure drawn directly
        want, err = None, None
        A = self.scratch_axes()
        hist = [r[1] for r in self.axes if r[0] is ax]
        try:
            with np.errstate(all='ignore'):
                for q in hist[0] if hist else []:
                    reference(A, *q)
                want = reference(A, p, good, refmap, fill, lines)
        except Exception as e:
            err = e
        if out == 'exc' or err is not None:
            if out == 'exc' and err is None and not fired:
                raise Violation('plot fails', '%s: %r' % (p['fn'], v))
            if out == 'ok' and err is not None:
                raise Violation('another outcome', '%s draws, matplotlib raises %r' % (p['fn'], err))
            for r in self.axes:
                if r[0] is ax:
                    r[2] = False        # left with a part of the figure
            self.failed = True
            st['rare_refused'] += not fired
            if fired:                   # asked again, on a fresh figure
                self.plot(dict({k: x for k, x in p.items() if k not in ('inj', 'dry')}, ax='new' if p['ax'] == 'old' else p['ax']))
            return
        if fired:               # swallowed
            for r in self.axes:
                if r[0] is ax:
                    r[2] = False
            return
        # --- what was returned
        if p['fn'] == 'coupling':
            im, ax2, fig2 = v, ax, None
        else:
            im, ax2, fig2 = v
        new = [n for n in plt.get_fignums() if n not in before]
        if ax is None:
            st['rare_new_figure'] += 1
            if fig2 is None or ax2 is None or ax2 not in fig2.axes or len(new) != 1 or plt.figure(new[0]) is not fig2:
                raise Violation('another figure', 'no axes given: %d new figures, returned %r' % (len(new), fig2))
            self.axes.append([ax2, [], True])
        elif ax2 is not ax or fig2 is not None or new:
            raise Violation('another figure', 'axes given: %d new figures, %s axes returned, figure %r' % (len(new), 'these' if ax2 is ax else 'other', fig2))
        d = differ(show_mappable(im), show_mappable(want), 'returned image')
        if d:
            raise Violation('another image', '%s: %s' % (p['fn'], d))
        if im is not None and im.axes is not ax2:
            raise Violation('another image', 'the returned image is not on these axes')
        rec = [r for r in self.axes if r[0] is ax2][0]
        rec[1].append((p, good, refmap, fill if fill is None else np.array(fill), lines if lines is None else np.array(lines)))
        self.look(rec, A, p['fn'])
        st['rare_masked'] += p['d']['nan'] > 0
        st['rare_limits_of_data'] += p['lim'] is None
        st['rare_negative_lines'] += lines is not None and min(lines) < 0
        st['rare_no_filling'] += fill is not None and len(fill) == 0
        st['rare_streamlines'] += p['stream'] > 0 and p['fn'] != 'plane'
        st['rare_streamlines_plane'] += p['stream'] > 0 and p['fn'] == 'plane'
        st['rare_near_repeat'] += 'near' in p
        st['rare_after_failure'] += self.failed
        self.n += 1

    def look(self, rec, A, label):
        self.st['figures_compared'] += 1
        d = differ(show(rec[0]), show(A), label)
        if d:
            raise Violation('the figure shows something else', '%s: %s' % (label, d))

    def others(self):
        """the figures drawn before are what they were"""
        for r in self.axes:
            if r[2] and r[1]:
                A = self.scratch_axes()
                for q in r[1]:
                    reference(A, *q)
                self.look(r, A, 'a figure drawn before (%s)' % r[1][-1][0]['fn'])

    def do_cmap(self, o):
        st = self.st
        o = dict(o, dry=lambda: self.dry['p'].get_cmap(*o['lim'], alpha=o['alpha']))
        for k in range(2):
            out, v, fired = self.inject(o, lambda: self.pf.get_cmap(*o['lim'], alpha=o['alpha']))
            self.ctx.log.append(('cmap', out, bool(fired)))
            if out == 'ok' and not fired:
                break
            if not fired:
                raise Violation('colour map fails', repr(v))
            self.failed = True
            o = {a: b for a, b in o.items() if a != 'inj'}
        c, vals = v
        ref = own_map(o['lim'], o['alpha'])
        d = differ(colours(c), colours(ref), 'colour map')
        if not d:
            q = [o['lim'][0], .9, .95, .98, .999, 1., 1.001]
            e = [round(a, 2) for a, b in zip(q, q[1:] + [o['lim'][1]]) if b - a > 0.001]
            d = differ(arr(vals)[[0, -1]], arr([e[0], o['lim'][1]]), 'values of the colour map')
        if d:
            raise Violation('another colour map', '%s: %s' % (o['lim'], d))
        if hasattr(self.m['a'], 'fColrs'):
            cm = self.mpl.colormaps['viridis']
            for i, n in [(2, 3), (1, 3), (0, 2), (2, 3)]:
                d = differ(arr(self.m['a'].fColrs(i) if n == 3 else self.m['a'].fColrs(i, n)), arr(cm((n - i) / n)[:3] + (1.,)), 'fColrs(%d, %d)' % (i, n))
                if d:
                    raise Violation('another colour', d)
        L = self.pf.get_contours(0.95 if o['spoil'] else 0.4)
        e = np.array([.5, .6, .7, .8, .9, .95, .98, .99, 1., 1.01]) if o['spoil'] else np.array([.7, .8, .85, .9, .95, .98, .99, .995, 1.01])
        d = differ([arr(x) for x in L], [np.sort(np.append(e, [1.4, 0.2])), e], 'contour levels')
        if d:
            raise Violation('other levels', d)
        L[1][:] = 0         # the caller's from now on
        if o['spoil']:
            st['rare_map_changed_by_caller'] += 1
            c.set_under('m')
            c.set_bad('c')
            c._init()
            c._lut[:, :3] = 0.3
            vals[:] = -1
            self.maps.pop('own', None)
        else:
            self.maps['own'] = (c, ref)

    def study(self, o):
        plt = self.plt
        n = o['n']
        rc = {k: x for k, x in self.mpl.rcParams.items()}
        rc.pop('contour.negative_linestyle')
        if o.get('inj'):
            open_ = plt.get_fignums()
            o = dict(o, size=ENGINE.call(study_main(self.dryw, n))[2:4])
            for x in plt.get_fignums():
                if x not in open_:
                    plt.close(x)
        for k in range(2):
            before = plt.get_fignums()
            out, v, fired = self.inject(o, study_main(self.w, n))
            self.ctx.log.append(('study', n, out, bool(fired)))
            new = [x for x in plt.get_fignums() if x not in before]
            got = [[show(a) for a in plt.figure(x).axes] for x in new] if out == 'ok' and not fired else None
            for x in new:
                plt.close(x)
            if out == 'ok' and not fired:
                break
            if not fired:
                raise Violation('study fails', 'Task%02d: %r' % (n, v))
            self.failed = True
            o = {a: b for a, b in o.items() if a != 'inj'}
        for k, x in rc.items():
            if x != self.mpl.rcParams[k]:
                raise Violation('settings of the plotting library changed', '%s by study %d' % (k, n))
        if n not in _studies:
            with study_world() as w, self.mpl.rc_context():
                f = study_main(w, n)
                before = plt.get_fignums()
                f()
                new = [x for x in plt.get_fignums() if x not in before]
                _studies[n] = [[show(a) for a in plt.figure(x).axes] for x in new]
                for x in new:
                    plt.close(x)
        if got is not None:
            self.st['figures_compared'] += 1
            d = differ(got, _studies[n], 'Task%02d' % n)
            if d:
                raise Violation('the figure shows something else', d)

    def run(self, plan):
        import matplotlib
        import matplotlib.pyplot as plt
        self.mpl, self.plt = matplotlib, plt
        plt.close('all')
        with matplotlib.rc_context(), warnings.catch_warnings():
            matplotlib.rcParams['figure.max_open_warning'] = 0
            warnings.simplefilter('ignore')
            self.w, self.dryw = study_world(), study_world()
            self.m, self.dry = [dict(a=w.script('wiz_abl'), c=w.script('wiz_coupling'), p=w.mod('plotting_functions')) for w in (self.w, self.dryw)]
            with self.w:
                self.pf = self.m['p']
                try:
                    for o in plan['ops']:
                        self.st['op_' + o['op']] += 1
                        if o['op'] == 'plot':
                            self.plot(o)
                        elif o['op'] == 'cmap':
                            self.do_cmap(o)
                        elif o['op'] == 'study':
                            self.study(o)
                        elif o['op'] == 'ambient':
                            self.ambient(o)
                        else:
                            self.close(o)
                    self.others()
                finally:
                    plt.close('all')
        self.st['drawn'] += self.n

    def ambient(self, o):
        k = o['what']
        if k == 'dashed':
            self.mpl.rcParams['contour.negative_linestyle'] = 'dashed'
        elif k == 'cmap':
            self.mpl.rcParams['image.cmap'] = 'gray'
        elif k == 'figure':
            self.plt.figure()
        elif self.axes:
            self.plt.sca(self.axes[0][0])

    def close(self, o):
        if o['how'] == 'all':
            self.plt.close('all')
            self.axes = []
        elif self.axes:
            r = self.axes.pop(o['n'] % len(self.axes))
            self.plt.close(r[0].figure)


def run(plan, ctx):
    Drawing(ctx).run(plan)


def prepare():
    import matplotlib.pyplot as plt
    w = study_world()
    w.script('wiz_coupling')
    with w, warnings.catch_warnings():
        warnings.simplefilter('ignore')
        for n in (1, 2, 3):
            study_main(w, n)
        f, a = plt.subplots()
        a.contour([[0, 1], [2, 3.]])
    plt.close('all')


def nontrivial(st):
    return st.get('drawn', 0) > 1
