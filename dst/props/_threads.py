"""simulated threads: generation of schedules"""
import math


def switches(rng, budget=4000):
    """a schedule as [gap, choice] pairs.  Dense, medium or sparse switching, or a few switches placed anywhere."""
    k = rng.random()
    if k < 0.25:
        n, f = rng.randint(20, 250), lambda: rng.randint(1, 4)
    elif k < 0.55:
        n, f = rng.randint(10, 120), lambda: rng.randint(1, 40)
    elif k < 0.8:
        n, f = rng.randint(5, 60), lambda: int(math.exp(rng.uniform(0, math.log(600))))
    else:
        n, f = rng.randint(1, 4), lambda: int(math.exp(rng.uniform(0, math.log(budget))))
    out = [[f(), rng.randrange(3)] for _ in range(n)]
    if rng.random() < 0.5:
        # start at some random distance
        out.insert(0, [rng.randint(1, 800), rng.randrange(3)])
    return out


def aims(rng):
    """schedules directed at races: two threads are brought to the entry of the same function and then interleaved"""
    out = []
    for _ in range(rng.choice([1, 2, 4, 8])):
        k = rng.random()
        d = rng.choice([1, 1, 2, 3, 5, 8]) if k < 0.7 else rng.randint(1, 60)
        how = rng.choice(['lock', 'lock', 'pass', 'mix'])
        gaps = [1] * rng.choice([6, 20, 60, 400]) if how == 'lock' else [rng.randint(1, 4) for _ in range(rng.choice([4, 20, 60]))] if how == 'mix' else []
        out.append(dict(fn=rng.random(), at=[rng.random(), rng.random()], d=d, gaps=gaps))
    return out


def kills(rng, n, p=0.2):
    return [[rng.randrange(n), int(math.exp(rng.uniform(0, math.log(1500)))), rng.choice(['int', 'kbd'])] for _ in range(rng.choice([1, 1, 2]))] if rng.random() < p else []


def entries(trace):
    """[(function, first event, length)] of a solo trace; consecutive events of one function are one piece"""
    out, open_ = [], None
    for n, (f, line) in enumerate(trace):
        if open_ is None or open_[0] != f:
            open_ = [f, n, 1]
            out.append(open_)
        else:
            open_[2] += 1
    return out


def resolve(aims, traces, n):
    """the schedule (threads 0 and 1 of n) for these aims, given what each thread does when alone"""
    sw, pos = [], [0, 0]
    E = [entries(t) for t in traces[:2]]
    for a in aims:
        here = [[e for e in E[i] if e[1] > pos[i]] for i in (0, 1)]
        common = sorted({e[0] for e in here[0]} & {e[0] for e in here[1]})
        if not common:
            break
        f = common[int(a['fn'] * len(common))]
        if a['fn'] > 0.75 and E[0][0][0] in common:
            f = E[0][0][0]      # from the start of a query
        pick = []
        for i in (0, 1):
            c = [e for e in here[i] if e[0] == f]
            pick.append(c[int(a['at'][i] ** 2 * len(c))])
        g0 = pick[0][1] - pos[0] + a['d']
        g1 = pick[1][1] - pos[1] + (1 if a['gaps'] else pick[1][2] + 1)
        sw += [[max(1, g0), 0], [max(1, g1), n - 2]]
        pos = [pick[0][1] + a['d'], pick[1][1] + (1 if a['gaps'] else pick[1][2] + 1)]
        cur = 0
        for g in a['gaps']:
            sw.append([g, 0 if cur == 0 else n - 2])
            pos[cur] += g
            cur = 1 - cur
        if cur == 1:
            sw.append([1, n - 2])
            pos[1] += 1
    return sw
