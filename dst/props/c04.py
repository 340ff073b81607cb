"""C04: a failed update changes nothing, and can be repeated"""
from ..gen import Gen
from ._hist import ASSUMPTIONS, REAL, STUBS, play

RUNS = {'quick': 1600, 'thorough': 80000}
PROBES = ['fault_line_int', 'fault_line_kbd', 'fault_call_mem', 'fault_call_fpe', 'op_bad', 'op_fbad', 'retries',
          'where_update_loading', 'where_layout', 'where_update_position', 'where_update_yaw_pos', 'where_update_wind']
RULE = ('one run = one history of updates on 1-3 turbines and 0-2 farms in which updates are cut off at a random line '
        '(then repeated), fail in a random call into numpy/scipy, or get invalid arguments or failing callbacks; after '
        'every one, every turbine and farm is compared with its twin; non-trivial = at least one fault or rejected '
        'update; distinct by digest of the whole history')
W = [('pos', 2), ('wind', 2), ('yaw', 3), ('load', 5), ('flay', 3), ('fapp', 1.5), ('frame', .6), ('bad', 4), ('fbad', 1.5),
     ('chi', .5), ('attr', .5), ('q', .7)]
ON = ('pos', 'wind', 'yaw', 'load', 'flay', 'fapp', 'frame', 'new')


def gen(rng, tier):
    g = Gen(rng)
    nt = rng.choice([1, 1, 2, 3])
    w = [(a, b) for a, b in W if a in ('load', 'bad') or rng.random() < 0.75]
    ops = g.history(w, rng.randint(3, 12), turbines=(1, nt), farms=(0, 2), probe=0.,
                    inj=[('line', 4), ('call', 5), ('console', 1)], inj_on=ON, inj_p=0.6, load_first=0.93)
    nt, nf = len(g.t), len(g.f)
    for o in ops:
        if o['op'] in ('bad', 'fbad') or 'inj' in o:
            o['pt'], o['pf'] = list(range(nt)), list(range(nf))
    return dict(ops=ops)


def run(plan, ctx):
    play(plan, ctx, reference=False)


def nontrivial(st):
    return any(k.startswith('fault_') for k in st) or st.get('op_bad', 0) + st.get('op_fbad', 0) > 0
