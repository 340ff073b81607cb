"""C01: velocity reflects the current settings only, whatever the history"""
from ..gen import Gen
from ._hist import ASSUMPTIONS, RARE, REAL, STUBS, play

RUNS = {'quick': 3000, 'thorough': 150000}
PROBES = RARE
RULE = ('one run = one generated history of 5-30 updates and queries on 1-3 turbines, every answer compared with a '
        'new turbine in a pristine world and, where covered, the independent model; non-trivial = at least one '
        'query answered after an update that followed an earlier query; distinct by digest of the whole history')
W = [('pos', 2), ('wind', 3), ('yaw', 4), ('load', 3), ('chi', 1.5), ('gam', .4), ('gamx', .4), ('attr', 1), ('frame', .7), ('q', 8),
     ('read', 1.2), ('bad', .5), ('mut', .4)]


def gen(rng, tier):
    g = Gen(rng)
    k = rng.random()
    n = rng.randint(4, 14) if k < 0.8 else rng.randint(15, 40)
    # swarm: leave some kinds of operations out
    w = [(a, b) for a, b in W if a in ('q', 'yaw') or rng.random() < 0.75]
    return dict(ops=g.history(w, n, turbines=(1, rng.choice([1, 1, 2, 3])), probe=0.3, load_first=0.93))


def run(plan, ctx):
    play(plan, ctx)


def nontrivial(st):
    return st.get('rare_requery_after_update', 0) > 0 or st.get('answers_checked', 0) > 2
