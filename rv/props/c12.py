"""C12: index sampling is distinct, honours exclusions and follows the bias."""
import random, math
import numpy as np
from rv import lab
from rv.lab import norm

LEVEL = 'exploration'
ROUNDS = 5
RULE = ("Cases are distinct by population, exclusions and sample size; non-trivial when more than one position was "
        "eligible.")
NEED = ['samples', 'uniform_samples', 'best_samples', 'biased_samples', 'excluded_positions', 'distributions_judged',
        'pairs_judged', 'refused']

#: Standard errors a proportion may be off before it counts
Z = 6.0
CASE_CPU = 20


def cases(tier, seed):
    n = 160 if tier == 'quick' else 1600
    rng = random.Random(seed*53 + 1)
    return [dict(seed=seed*100003 + k, Np=rng.choice([4, 5, 6, 8, 10, 20, 30, 100]), draws=3000 if tier == 'quick' else 6000)
            for k in range(n)]


def spread(counts):
    """Total-variation distance from uniform of a distribution."""
    c = np.array(counts, dtype=float)
    return 0.5*np.abs(c/c.sum() - 1.0/len(c)).sum()


def run_case(params, m):
    rng = random.Random(params['seed'])
    Np = params['Np']
    p = lab.small_population(Np)(lambda x: rng.choice([rng.uniform(0, 100), float(rng.randint(0, 5))]), ['a', 'b'], [(-5, 5)]*2)
    lab.Lab(rng, 'sync').drive(p.setup())
    # Let the ranking have moved since setup
    for _ in range(rng.randint(0, 6)):
        i = p.spawn([0.0, 1.0])
        i.SSE = rng.uniform(0, 50)
        p[rng.randrange(Np)] = i
    SSEs = [norm(i.SSE) for i in p]
    nEx = rng.choice([0, 1, 1, 2, 2, Np//2, Np-2])
    ex = rng.sample(range(Np), min(nEx, Np-2))
    if rng.random() < 0.5: ex = [np.int64(k) for k in ex]
    m.count('excluded_positions', len(ex))
    eligible = [k for k in range(Np) if k not in ex]
    n = len(eligible)
    def judge(result, N, what):
        m.count('samples')
        got = [result] if N == 1 else list(result)
        ok = m.check(len(got) == N and len(set(map(int, got))) == N, 'distinct', "{} gave {}", what, got)
        ok = ok and m.check(all(k in eligible for k in got), 'excluded', "{} gave {}, excluded were {}", what, got, ex)
        return [int(k) for k in got] if ok else None
    # Uniform
    counts = {k: 0 for k in eligible}
    pairs = {}
    draws = params['draws']
    for _ in range(draws):
        r = judge(p.sample(2, *ex) if n > 1 else p.sample(1, *ex), min(2, n), "sample(2, excluding {})".format(len(ex)))
        if r is None: return
        for k in r: counts[k] += 1
        pairs[tuple(r)] = pairs.get(tuple(r), 0) + 1
        m.count('uniform_samples')
    expect = draws*min(2, n)/float(n)
    for k in eligible:
        m.check(abs(counts[k] - expect) < Z*math.sqrt(expect) + 3, 'not-uniform', "position {} sampled {} times, expected {} ({} eligible)",
                k, counts[k], expect, n)
    m.count('distributions_judged')
    if 1 < n <= 8:
        m.count('pairs_judged')
        expect = draws/float(n*(n-1))
        for a in eligible:
            for b in eligible:
                if a != b: m.check(abs(pairs.get((a, b), 0) - expect) < Z*math.sqrt(expect) + 3, 'pairs-not-uniform',
                                   "pair {} sampled {} times, expected {}", (a, b), pairs.get((a, b), 0), expect)
    for N in range(1, n+1):
        for rb in (True, 1.0): judge(p.sample(N, *ex, randomBase=rb), N, "sample({})".format(N))
    # Best
    least = min(SSEs[k] for k in eligible)
    for rb in (False, 0, 0.0, None):
        k = judge(p.sample(1, *ex, randomBase=rb), 1, "sample(1, randomBase={})".format(rb))
        m.count('best_samples')
        m.check(SSEs[k[0]] == least, 'not-best', "sample with randomBase {} gave SSE {}, best eligible is {}", rb, SSEs[k[0]], least)
    # Biased
    ranked = [int(k) for k in p.KS if int(k) in eligible]
    m.check([SSEs[k] for k in ranked] == sorted(SSEs[k] for k in eligible), 'ranking', "ranking has SSEs {}", [SSEs[k] for k in ranked])
    rank = {k: r for r, k in enumerate(ranked)}
    last = None
    fractions = sorted(rng.sample([0.02, 0.1, 0.2, 0.25, 0.33, 0.4, 0.49, 0.5, 0.51, 0.6, 0.7, 0.8, 0.9, 0.97], 5))
    for rb in fractions:
        c = [0]*n
        for _ in range(draws):
            r = judge(p.sample(1, *ex, randomBase=rb), 1, "sample(1, randomBase={})".format(rb))
            if r is None: return
            c[rank[r[0]]] += 1
            m.count('biased_samples')
        m.count('distributions_judged')
        what = "randomBase {}: counts by rank {}".format(rb, c[:12])
        for r in range(n-1):
            for s in (r+1, n-1):
                if s > r and not m.check(c[r] >= c[s] - Z*math.sqrt(c[r] + c[s] + 1), 'bias-order', "rank {} less likely than rank {}, {}", r, s, what): break
        if rb < 0.5:
            reach = max(1, math.ceil(2*rb*n - 1e-9))
            m.check(sum(c[reach:]) == 0, 'bias-reach', "rank {} or worse chosen, {}", reach, what)
        d = spread(c)
        if last is not None:
            slack = Z*0.5*math.sqrt(n/float(draws))
            m.check(d <= last[1] + slack, 'bias-uniformity', "distribution is less uniform with randomBase {} ({:.3f}) than with {} ({:.3f})", rb, d, last[0], last[1])
        last = (rb, d)
        if rb >= 0.97 and n > 1:
            m.check(d < 0.1 + Z*0.5*math.sqrt(n/float(draws)), 'bias-uniformity', "far from uniform, {}", what)
        # More than one at a time, and more than there can be
        most = n if rb >= 0.5 else max(1, math.ceil(2*rb*n - 1e-9))
        for N in {1, min(2, most), min(3, most)}: judge(p.sample(N, *ex, randomBase=rb), N, "sample({}, randomBase={})".format(N, rb))
        if rng.random() < 0.3:
            N = max(n, most) + 1
            try: got = p.sample(N, *ex, randomBase=rb)
            except ValueError: m.count('refused')
            else: m.bad('not-refused', "sample({}) of {} eligible positions with randomBase {} gave {}", N, n, rb, got)
    m.sig(params, ex)
    m.nontrivial = n > 1
    m.notes = dict(eligible=n, fractions=fractions)
