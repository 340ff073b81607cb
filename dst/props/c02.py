"""C02: a farm's field is the sum over its current turbines plus the wind once"""
from ..gen import Gen
from ._hist import ASSUMPTIONS, REAL, STUBS, play

RUNS = {'quick': 1600, 'thorough': 80000}
PROBES = ['rare_empty_farm', 'rare_turbine_twice', 'rare_turbine_in_two_farms', 'rare_farm_of_4', 'rare_layout_assigned',
          'op_fdel', 'op_frem', 'op_fset', 'op_fext', 'op_frev', 'op_fins', 'op_fbad', 'rare_field_with_wind',
          'rare_farm_no_wake', 'rare_farm_ground', 'fault_call_mem', 'fault_call_fpe', 'fault_line_int', 'fault_console_oserror']
RULE = ('one run = one history of 5-30 membership changes, layouts, turbine updates and farm queries on 1-4 turbines in '
        '1-3 farms, some of them cut off or with failing library calls; every field compared with the sum over new turbines in pristine worlds; non-trivial = at least '
        'two fields of non-empty farms compared; distinct by digest of the whole history')
W = [('fapp', 2.5), ('fins', 1), ('fdel', 1), ('frem', .7), ('fset', 1), ('fext', .8), ('frev', .6), ('flay', 2.5),
     ('fq', 7), ('fread', 1.5), ('fbad', 1.2), ('fnew', .8), ('new', .5), ('pos', 1.5), ('wind', 1), ('yaw', 2),
     ('load', 1.5), ('q', 1), ('attr', .4), ('chi', .4)]


def gen(rng, tier):
    g = Gen(rng)
    n = rng.randint(4, 12) if rng.random() < 0.8 else rng.randint(13, 30)
    w = [(a, b) for a, b in W if a in ('fq', 'fapp', 'flay') or rng.random() < 0.7]
    return dict(ops=g.history(w, n, turbines=(1, rng.choice([2, 3, 4])), farms=(1, rng.choice([1, 2, 3])), probe=0.35,
                              load_first=0.96, inj=[('line', 1), ('call', 4), ('console', 1)], inj_on=('fq', 'flay', 'fapp'), inj_p=0.12))


def run(plan, ctx):
    s = play(plan, ctx, reference=False)
    st = ctx.stats
    for f, m in s.book.F.items():
        if not m:
            st['rare_empty_farm'] += 1
        if len(set(m)) < len(m):
            st['rare_turbine_twice'] += 1
        if len(m) >= 4:
            st['rare_farm_of_4'] += 1
        if any(set(m) & set(m2) for f2, m2 in s.book.F.items() if f2 != f):
            st['rare_turbine_in_two_farms'] += 1
    for op in plan['ops']:
        if op['op'] == 'flay':
            st['rare_layout_assigned'] += 1
        if op['op'] == 'fq':
            st['rare_field_with_wind'] += op.get('U0') is not None
            st['rare_farm_no_wake'] += bool(op['o'].get('no_wake'))
            st['rare_farm_ground'] += bool(op['o'].get('ground'))


def nontrivial(st):
    return st.get('farm_fields_checked', 0) >= 2
