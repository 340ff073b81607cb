"""C05: velocity queries are read-only, even when they fail or are interrupted"""
from ..gen import Gen
from ..machine import BAD_Q
from ._hist import ASSUMPTIONS, REAL, STUBS, play

RUNS = {'quick': 1300, 'thorough': 60000}
PROBES = ['fault_line_int', 'fault_line_kbd', 'fault_call_mem', 'fault_call_fpe', 'fault_console_oserror', 'op_bad',
          'where_compute_u', 'where_velocity_field', 'where_svc_tang_u', 'where_svcs_tang_u', 'where_vcs_tang_u',
          'where_ellipticPiCarlson', 'where_doublet_line_u', 'where_chi', 'where_yaw_wind', 'where_transform']
RULE = ('one run = one history of queries and reads on 1-3 turbines and 0-2 farms, cut off at a random line, failing in '
        'a random call into numpy/scipy or in a console write, or given bad arguments; all turbines and farms are '
        'compared with their twins after every one; non-trivial = at least one fault or rejected query; distinct by '
        'digest of the whole history')
W = [('q', 8), ('fq', 4), ('read', 2), ('fread', 1.5), ('bad', 2), ('yaw', .6), ('load', .6), ('wind', .4), ('flay', .4), ('attr', .2)]


def gen(rng, tier):
    g = Gen(rng)
    few = rng.random() < 0.2     # mostly reads
    w = [(a, b / 4 if few and a in ('q', 'fq') else b) for a, b in W if a == 'q' or rng.random() < 0.8]
    ops = g.history(w, rng.randint(2, 8), turbines=(1, rng.choice([1, 2, 3])), farms=(0, 2), probe=0.,
                    inj=[('line', 5), ('call', 4), ('console', 2)], inj_on=('q', 'fq', 'read', 'fread'), inj_p=0.6,
                    load_first=0.95, yaw_first=0.6)
    for o in ops:
        if o['op'] == 'bad':
            o['what'] = rng.choice(BAD_Q)
        if o['op'] in ('q', 'fq', 'read', 'fread', 'bad'):
            o['pt'], o['pf'] = list(range(len(g.t))), list(range(len(g.f)))
    return dict(ops=ops)


def run(plan, ctx):
    play(plan, ctx, reference=False)


def nontrivial(st):
    return any(k.startswith('fault_') for k in st) or st.get('op_bad', 0) > 0
