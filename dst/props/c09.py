"""C09: a saved object or plane is loaded whole or not at all"""
import os
import shutil

import numpy as np

from .. import domain as D
from ..disk import Disk, reset_dir
from ..engine import ENGINE, SimCancel, SimCrash
from ..machine import Violation
from ..world import World

RUNS = {'quick': 14000, 'thorough': 1000000}
KINDS = ['crash', 'enospc', 'eio', 'short', 'line']
PROBES = (['fault_disk_' + k for k in KINDS] + ['rare_loaded', 'rare_refused', 'rare_load_after_failed_save', 'rare_save_over_failed',
          'rare_crash_in_write', 'rare_crash_in_open_w', 'rare_crash_in_close', 'rare_crash_in_remove', 'rare_read_fault',
          'rare_turbine', 'rare_farm', 'rare_list', 'rare_array', 'rare_scalar', 'rare_plane', 'rare_dict', 'rare_unpicklable', 'rare_same_grid', 'rare_big', 'rare_two_processes',
          'rare_same_content', 'rare_object_reused', 'rare_clock_stalls'])
RULE = ('one run = 2-8 saves and loads of 1-2 names (objects and planes), where saves are cut off by process death at any '
        'disk operation, full disks, I/O errors, short writes, interrupts and unpicklable content, followed by restarts; '
        'each load is compared with all versions saved; non-trivial = at least one fault; distinct by digest of the '
        'history and of the disk operations')
REAL = ['wiz.article_blockage.helper_functions (save_obj, load_obj)', 'coupling_examples.helper_functions (savePlane, loadPlane)',
        'pickle', 'numpy.save/load', 'buffered files of the standard library']
STUBS = ['disk (raw files of a scratch directory with injected faults)', 'floris (absent package imported by the helper script)']
ASSUMPTIONS = ['process death loses user-space buffers; what was written to the file survives (no power loss)',
               'numpy writes through write() instead of its own C buffers']


def prepare():
    import matplotlib.pyplot
    w = World()
    w.script('wiz_abl')
    w.script('wiz_coupling')


def gen(rng, tier):
    names = rng.choice([['a'], ['a', 'b'], ['a.v1', 'a']])
    style = rng.choice(['obj', 'plane', 'plane', 'mix'])
    saves = []
    ver = 0
    two = rng.random() < 0.25
    again = rng.choice([0, 0.1, 0.3])
    for _ in range(rng.randint(2, 8)):
        kind = style if style != 'mix' else rng.choice(['obj', 'plane'])
        n = rng.choice(names)
        if rng.random() < 0.4:
            e = dict(op='load', kind=kind, key=n, proc=int(two and rng.random() < 0.5))
            if rng.random() < 0.15:
                e['fault'] = dict(kind=rng.choice(['eio', 'short', 'short']), frac=D.rnd(rng.random()), at=rng.randrange(4),
                                  n=rng.choice([1, 3, 100]))
            saves.append(e)
            continue
        ver += 1
        e = dict(op='save', kind=kind, key=n, ver=ver, proc=int(two and rng.random() < 0.5))
        old = [x for x in saves if x['op'] == 'save' and x['kind'] == kind and x.get('what') != 'unpicklable']
        if old and rng.random() < again:
            # the same content again
            o = dict(rng.choice(old), proc=e['proc'], again=True)
            o.pop('fault', None)
            if rng.random() < 0.3:
                o['key'] = n
            e = o
        elif kind == 'obj':
            e['what'] = rng.choice(['dict', 'dict', 'list', 'tuple', 'array', 'scalar', 'turbine', 'farm', 'unpicklable'])
            e['size'] = rng.choice([1, 10, 500, 3000, 9000])
            e['reuse'] = rng.random() < 0.2
        else:
            e['shape'] = rng.choice([[1, 1], [3, 4], [3, 4], [20, 30], [70, 40]])
            e['grid'] = rng.choice([0, 0, ver])
            e['U0'] = rng.choice([None, None, 4.0])
            e['packed'] = rng.random() < 0.2
        if rng.random() < 0.6:
            k = rng.choice(['crash', 'crash', 'crash', 'enospc', 'enospc', 'eio', 'short', 'line'])
            e['fault'] = dict(kind=k, pos=D.rnd(rng.random()), frac=rng.choice([D.rnd(rng.random()), 0.0, 1.0]), n=rng.choice([1, 1, 2, 1000]))
        saves.append(e)
    return dict(saves=saves, tick=rng.choice(TICKS))


TICKS = [0, 0, 1, 10**8, 10**9, 10**10, -10**9]     # ns between saves


def content(e, w):
    """the object or plane of a save; a function of the plan only"""
    v = e['ver']
    if e['kind'] == 'plane':
        n, m = e['shape']
        x = np.arange(n) + 100. * e['grid']
        y = np.arange(m) - 50. * e['grid']
        u = np.arange(n * m).reshape(m, n) * 0.5 + 1000. * v
        vv = -np.arange(n * m).reshape(m, n) - 7. * v
        return x, y, u, vv
    if e['what'] in ('turbine', 'farm'):
        with w:
            WT = w.WindTurbine.WindTurbine
            def mk(i):
                t = WT(R=2., r_hub=[v, i, -v], U0=[0.5, 0, 8 + v], name='v%d' % v)
                t.update_loading(r=np.linspace(0, 2, 10), Ct=np.linspace(0.2, 0.8, 10) * (1 - 0.01 * v), nCyl=1 + 2 * (e['size'] > 9))
                t.update_yaw_pos(0.01 * v)
                return t
            if e['what'] == 'turbine':
                return mk(0)
            return w.WindFarm.WindFarm([mk(i) for i in range(3)], name='v%d' % v)
    if e['what'] in ('list', 'tuple'):
        # few large parts or many small ones; cuts may fall exactly between parts
        n = {1: 0, 10: 12, 500: 500, 3000: 30, 9000: 12}[e['size']]
        m = {3000: 3000, 9000: 9000}.get(e['size'], 2)
        x = [np.arange(m) + 10. * v + i if i % 3 else 'p%d.%d' % (v, i) for i in range(n)]
        return x if e['what'] == 'list' else tuple(x)
    if e['what'] == 'array':
        return np.arange(e['size'] * 3).reshape(-1, 3) * 0.5 + v
    if e['what'] == 'scalar':
        return [v, 'v%d' % v, None, b'v%d' % v, 0.5 * v][e['size'] % 5]
    d = dict(ver=v, data=np.arange(e['size']) + 0.25 * v, more=['x' * e['size'], v], tail=v)
    if e['what'] == 'unpicklable':
        d['bad'] = lambda: None
    return d


def ident(kind, obj):
    """comparable form of what was loaded"""
    if kind == 'plane':
        return tuple((np.asarray(a).shape, np.asarray(a, float).tobytes()) for a in obj)
    t = type(obj).__name__

    def tu(o):
        return (o.name, o.R, o.r_hub.tobytes(), o.U0_g.tobytes(), float(o.yaw_pos), np.asarray(o.gamma_t).tobytes(), np.asarray(o.r).tobytes())
    if t == 'WindTurbine':
        return ('T', tu(obj))
    if t == 'WindFarm':
        return ('F', obj.name, tuple(tu(o) for o in obj))
    if isinstance(obj, dict):
        return ('D',) + tuple(map(str, obj)) + tuple((k, v.tobytes() if isinstance(v, np.ndarray) else repr(v)) for k, v in sorted(obj.items()) if k != 'bad')
    if isinstance(obj, (list, tuple)):
        return ('L', t, tuple(ident(kind, x) for x in obj))
    if isinstance(obj, np.ndarray):
        return ('A', obj.shape, str(obj.dtype), obj.tobytes())
    return ('?', repr(obj))


def expected(e, w):
    c = content(e, w)
    if e['kind'] == 'plane' and e.get('U0'):
        c = (c[0], c[1], c[2] / e['U0'], c[3] / e['U0'])
    return ident(e['kind'], c)


def in_place(old, c):
    """the object saved before, changed by the caller to hold c (or c itself)"""
    if type(old) is not type(c):
        return c
    if type(c) is dict:
        old.clear()
        old.update(c)
    elif type(c) is list:
        old[:] = c
    elif isinstance(c, np.ndarray) and c.shape == old.shape:
        old[...] = c
    elif type(c).__name__ == 'WindTurbine':
        old.__dict__.update(c.__dict__)
    else:
        return c
    return old


def saver(e, w, base, objs=None):
    c = content(e, w)
    if e.get('reuse') and objs is not None:
        c = in_place(objs.get(e['proc']), c)
    if objs is not None:
        objs[e['proc']] = c
    if e['kind'] == 'obj':
        f = w.script('wiz_abl').save_obj
        return lambda: f(c, base)
    f = w.script('wiz_coupling').savePlane
    if e.get('packed'):
        return lambda: f(c, base, U0=e.get('U0'))
    return lambda: f(c[0], c[1], c[2], c[3], base, e.get('U0'))


def run(plan, ctx):
    st = ctx.stats
    d = os.path.join(ctx.scratch, 'c09')
    dry = os.path.join(ctx.scratch, 'c09dry')
    reset_dir(d)
    disk = Disk(d)
    st['rare_clock_stalls'] += not plan.get('tick')
    ws = [start(), None]
    objs = {}
    tried, last, failed = {}, {}, {}
    try:
        with disk:
            for e in plan['saves']:
                disk.clock += plan.get('tick', 0)
                i = e.get('proc', 0)
                if ws[i] is None:
                    ws[i] = start()
                    st['rare_two_processes'] += 1
                ws[i] = step(e, plan, ctx, disk, d, dry, ws[i], tried, last, failed, objs)
            # finally everything must still load as promised
            for key in sorted(tried):
                for w in ws:
                    if w is not None:
                        load(dict(kind=key[0], key=key[1]), ctx, disk, d, w, tried, last, failed)
    finally:
        shutil.rmtree(d, ignore_errors=True)
        shutil.rmtree(dry, ignore_errors=True)


def start():
    w = World()
    w.script('wiz_abl')
    w.script('wiz_coupling')
    return w


def step(e, plan, ctx, disk, d, dry, w, tried, last, failed, objs):
    st = ctx.stats
    key = (e['kind'], e['key'])
    if e['op'] == 'load':
        load(e, ctx, disk, d, w, tried, last, failed)
        return w
    st['rare_' + (e['what'] if e['kind'] == 'obj' else 'plane')] += 1
    st['rare_big'] += e.get('size', 0) > 1000 or e.get('shape', [0])[0] > 50
    if e['kind'] == 'plane' and e['grid'] == 0:
        st['rare_same_grid'] += 1
    fault = e.get('fault')
    st['rare_same_content'] += bool(e.get('again'))
    st['rare_object_reused'] += bool(e.get('reuse') and e['proc'] in objs)
    kw = {}
    arm = None
    if fault:
        # how many operations and lines does this save take?
        reset_dir(dry)
        if os.path.isdir(d):
            for f in os.listdir(d):
                shutil.copy(os.path.join(d, f), dry)
        dd = Disk(dry)
        disk.__exit__()
        with dd:
            with w:
                _, _, lines, _, _ = ENGINE.call(saver(e, w, os.path.join(dry, e['key'])))
            n = dd.ops
        disk.__enter__()
        if fault['kind'] == 'line':
            kw = dict(cancel_at=1 + int(fault['pos'] * lines), exc='int')
        else:
            arm = dict(kind=fault['kind'], at=int(fault['pos'] * n), frac=fault['frac'], n=fault['n'])
    fn = saver(e, w, os.path.join(d, e['key']), objs)
    disk.arm(arm)
    last.pop(key, None)
    was_failed = failed.pop(key, None)
    if was_failed:
        st['rare_save_over_failed'] += 1
    if not (e['kind'] == 'obj' and e['what'] == 'unpicklable'):
        tried.setdefault(key, set()).add(expected(e, w))
    else:
        tried.setdefault(key, set())
    try:
        with w:
            out, v, _, _, fired = ENGINE.call(fn, **kw)
    except SimCrash as x:
        x.__traceback__ = None
        out, v, fired = 'crash', x, ('crash', '')
    crashed = disk.dead
    trace = list(disk.trace)
    for k, what in disk.fired:
        st['fault_disk_' + k] += 1
        st['rare_%s_in_%s' % (k, what)] += 1
    if fired and fired[0] == 'cancel':
        st['fault_disk_line'] += 1
    ctx.log.append(('save', e['kind'], e['key'], e['ver'], out, [list(x) for x in disk.fired], len(trace), disk.written))
    err = repr(v)
    v = None
    disk.arm(None)
    if crashed:
        # the process is gone; a new one starts
        fn = None
        objs.pop(e['proc'], None)
        w = start()
        disk.revive()
        failed[key] = True
        if out == 'ok':
            raise Violation('code goes on after its process died', str(trace))
        return w
    if out == 'ok':
        if e['kind'] == 'obj' and e['what'] == 'unpicklable':
            # nothing of it can be loaded
            raise Violation('a save which was not possible returns without error', 'unpicklable object')
        last[key] = expected(e, w)
        load(dict(kind=e['kind'], key=e['key']), ctx, disk, d, w, tried, last, failed) if fault else None
    else:
        failed[key] = True
        if not fault and not (e['kind'] == 'obj' and e['what'] == 'unpicklable'):
            raise Violation('save fails', '%s: %s' % (e, err))
    return w


def load(e, ctx, disk, d, w, tried, last, failed):
    st = ctx.stats
    key = (e['kind'], e['key'])
    base = os.path.join(d, e['key'])
    disk.arm(e.get('fault'))
    f = w.script('wiz_abl').load_obj if e['kind'] == 'obj' else w.script('wiz_coupling').loadPlane
    with w:
        out, v, _, _, _ = ENGINE.call(lambda: f(base))
    for k, what in disk.fired:
        st['fault_disk_' + k] += 1
        st['rare_read_fault'] += 1
    hard = any(k != 'short' for k, _ in disk.fired)
    disk.arm(None)
    st['rare_load_after_failed_save'] += bool(failed.get(key))
    if out == 'exc':
        st['rare_refused'] += 1
        ctx.log.append(('load', key, type(v).__name__))
        if key in last and not hard:
            raise Violation('the version saved last cannot be loaded', '%s: %r' % (key, v))
        return
    st['rare_loaded'] += 1
    try:
        got = ident(e['kind'], v)
    except Exception as x:
        got = ('?', repr(v)[:200], repr(x))
    ctx.log.append(('load', key, 'ok'))
    if key in last:
        if got != last[key]:
            raise Violation('another version than the one saved last is loaded', str(key))
    elif got not in tried.get(key, set()):
        raise Violation('what is loaded was never saved', '%s' % (key,))


def nontrivial(st):
    return any(k.startswith('fault_') for k in st) or st.get('rare_unpicklable', 0) > 0
