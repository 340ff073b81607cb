"""C06: arrays belong to whoever made them"""
import copy

import numpy as np

from .. import domain as D
from .. import kernels as K
from ..engine import ENGINE, Guard
from ..gen import Gen
from ..machine import Sys, Violation
from ..world import World
from ._hist import ASSUMPTIONS, REAL, STUBS

RUNS = {'quick': 1800, 'thorough': 100000}
PROBES = ['scrambles', 'results_scrambled', 'arguments_checked', 'results_checked', 'kernel_calls', 'kernel_failed',
          'rare_callback_array', 'rare_readonly']
RULE = ('one run = one history of 4-14 updates, queries and library calls (some failing), where the caller reuses and '
        'overwrites the arrays it passed and the results it received at arbitrary moments; arguments and earlier '
        'results are compared with copies after every call, and all objects with their twins; non-trivial = '
        'something was overwritten; distinct by digest of the whole history')
W = [('pos', 2), ('wind', 2), ('yaw', 1), ('load', 4), ('frame', .7), ('q', 4), ('fq', 2), ('flay', 2), ('fread', 1),
     ('read', 1), ('mut', 5), ('new', .5), ('k', 5), ('bad', .4)]


def gen(rng, tier):
    g = Gen(rng)
    w = [(a, b) for a, b in W if a in ('mut', 'load') or rng.random() < 0.75]
    kern = sum(b for a, b in w if a == 'k')
    w = [(a, b) for a, b in w if a != 'k']
    nt = rng.choice([1, 1, 2])
    ops = g.history(w, rng.randint(3, 12), turbines=(1, nt), farms=(0, 1), probe=0.15, load_first=0.95,
                    inj=[('line', 1), ('call', 2)], inj_on=('q', 'fq', 'load', 'pos', 'wind', 'flay'), inj_p=0.08)
    for o in ops:
        if o['op'] in ('yaw', 'chi', 'load', 'new') and rng.random() < 0.3:
            o['zd'] = True
        # forms which hand out arrays that the caller can write to
        if o.get('form') in ('list', 'tuple', 'ro') and rng.random() < 0.5:
            o['form'] = rng.choice(['arr', 'col', 'strided', 'buf'])
        if o['op'] == 'mut':
            o['pt'], o['pf'] = list(range(len(g.t))), list(range(len(g.f)))
        if o['op'] == 'load' and rng.random() < 0.4 and o['spec']['kind'] != 'cb':
            o['spec']['nCyl'] = None if o['spec'].get('arr', True) else 1
            if o['spec']['nCyl'] is None:
                o['spec']['n'] = rng.choice([2, 3])
    out = []
    for o in ops:
        out.append(o)
        if kern and rng.random() < 0.25:
            o = dict(op='k', c=K.make(rng))
            if rng.random() < 0.4:
                o['inj'] = dict(at=rng.choice(['line', 'call', 'call']), frac=D.rnd(rng.random()), exc=rng.choice(['int', 'kbd', 'mem', 'fpe']))
                if o['inj']['at'] == 'call' and o['inj']['exc'] in ('int', 'kbd'):
                    o['inj']['exc'] = 'mem'
            out.append(o)
    return dict(ops=out)


def _snap(keep):
    return [copy.deepcopy(a) for a in keep]


def _eq(a, b):
    return np.array_equal(np.asarray(a), np.asarray(b), equal_nan=True)


def cut_off(s, op, st):
    """the call fails inside: the arguments are the caller's all the same"""
    c, inj = op['c'], op['inj']
    f, a, kw = K.build(s.w, c)
    _, _, lines, calls, _ = ENGINE.call(lambda: f(*a, **kw))
    n = lines if inj['at'] == 'line' else calls
    if not n:
        return
    keep = []
    f, a, kw = K.build(s.w, c, keep=keep)
    before = _snap(keep)
    at = 1 + int(inj['frac'] * n)
    out, v, _, _, fired = ENGINE.call(lambda: f(*a, **kw), exc=inj['exc'], **{'cancel_at' if inj['at'] == 'line' else 'fault_at': at})
    if fired:
        st['fault_%s_%s' % (inj['at'], inj['exc'])] += 1
        st['kernel_failed'] += 1
    for x, y in zip(keep, before):
        if not _eq(x, y):
            raise Violation('argument modified', '%s, cut off: %s instead of %s' % (c['fn'], x, y))


def kernel(s, op, st):
    st['kernel_calls'] += 1
    c = op['c']
    if op.get('inj'):
        cut_off(s, op, st)
    keep, keep2 = [], []
    f, a, kw = K.build(s.w, c, bufs=s.bufs, keep=keep)
    before = _snap(keep)
    g = Guard(keep)
    out, v, _, _, _ = ENGINE.call(lambda: f(*a, **kw), watch=g)
    for x, y in zip(keep, before):
        if not _eq(x, y):
            raise Violation('argument modified', '%s: %s instead of %s' % (c['fn'], x, y))
    if g.bad:
        raise Violation('argument modified during the call', '%s, %s' % (c['fn'], g.bad))
    st['arguments_watched'] += g.looks
    if out == 'exc':
        st['kernel_failed'] += 1
        return
    res = K.norm(v)
    ref = [x.copy() for x in res]
    # the same call again, with read-only arguments
    f2, a2, kw2 = K.build(s.w, c, keep=keep2, ro=True)
    out2, v2, _, _, _ = ENGINE.call(lambda: f2(*a2, **kw2))
    st['rare_readonly'] += 1
    if out2 == 'exc':
        raise Violation('read-only argument refused', '%s: %r' % (c['fn'], v2))
    d = K.same(K.norm(v2), ref)
    if d:
        raise Violation('repeated call answers otherwise', '%s: %s' % (c['fn'], d))
    for x, y in zip(res, ref):
        if not _eq(x, y):
            raise Violation('result changed later', '%s: by a later call' % c['fn'])
    # writing to the arguments must not change the result, nor vice versa
    for x in keep:
        if isinstance(x, np.ndarray) and x.flags.writeable:
            x[...] = -33.25
    for x, y in zip(res, ref):
        if not _eq(x, y):
            raise Violation('result shares memory with an argument', c['fn'])
    if isinstance(v, tuple):
        # the components of a result are separate arrays
        for i, x in enumerate(v):
            for y in v[i + 1:]:
                if isinstance(x, np.ndarray) and isinstance(y, np.ndarray) and np.may_share_memory(x, y) and np.shares_memory(x, y):
                    raise Violation('results share memory', c['fn'])
    for x in res:
        if x.flags.writeable:
            x[...] = 44.5
    for x in keep:
        if isinstance(x, np.ndarray) and x.flags.writeable and not np.all(x == -33.25):
            raise Violation('result shares memory with an argument', c['fn'])
    f3, a3, kw3 = K.build(s.w, c)
    out3, v3, _, _, _ = ENGINE.call(lambda: f3(*a3, **kw3))
    d = K.same(K.norm(v3), ref) if out3 == 'ok' else repr(v3)
    if d:
        raise Violation('repeated call answers otherwise', '%s: %s' % (c['fn'], d))
    s.log.append(('k', c['fn']))


def run(plan, ctx):
    s = Sys(ctx=ctx)
    s.track = True
    with s.w:
        for op in plan['ops']:
            if op['op'] == 'k':
                kernel(s, op, ctx.stats)
                s.check_kept(op['c']['fn'])
                continue
            if op['op'] == 'load' and op['spec']['kind'] == 'cb':
                ctx.stats['rare_callback_array'] += 1
            s.step(op, reference=False)
        s.scramble()
        s.scramble_results()
        s.final()


def nontrivial(st):
    return st.get('scrambles', 0) + st.get('results_scrambled', 0) > 2
