"""C18: improvement ratios and the progress score follow their definition."""
import random
import numpy as np
from rv.lab import norm, INF, Lab, small_population
from rv.sim import reactor

LEVEL = 'exploration'
ROUNDS = 8
RULE = ("Cases are distinct by their sequence of comparisons, recorded ratios and inquiries; non-trivial when something was "
        "compared or inquired after the first inquiry.")
NEED = ['ratios', 'ratio_none', 'ratio_zero', 'ratio_rounded', 'ratio_high', 'ratio_invalid_new', 'both_zero', 'inquiries', 'first_inquiries',
        'inquiries_above', 'inquiries_at_zero', 'bonuses', 'repeated_setup', 'statistics_judged', 'other_minDiff', 'fatal_compared']

RATIOS = [[0], [0]*3, [1], [2], [3], [9], [1000], [0, 1], [1, 2, 0], [1]*4, [17, 0]]


def cases(tier, seed):
    rng = random.Random(seed*37 + 1)
    n = 150 if tier == 'quick' else 1500
    out = []
    for k in range(n):
        for mode in ('ratio', 'score', 'report'):
            out.append(dict(mode=mode, seed=seed*100003 + 10*k + len(mode), n=60, Np=rng.choice([4, 6, 20, 50]),
                            tf=rng.choice([None, None, 0.05, 0.5])))
    return out


def number(rng):
    r = rng.random()
    if r < 0.08: return 0.0
    if r < 0.11: return 0
    if r < 0.17: return None
    if r < 0.23: return INF
    if r < 0.29: return float('nan')
    if r < 0.34: return rng.choice([1e-300, 1e300, 5e-324, 1e-10, np.float64(4.0), np.float32(2.5), 7])
    if r < 0.38: return rng.choice([-1, -0.5, -INF])
    return rng.uniform(0.001, 100)


def expected(old, new, minDiff):
    """Set of acceptable ratios, 'high', or None when rounding decides."""
    if (old is not None and old < 0) or (new is not None and new < 0): return [None]
    o, n = norm(old), norm(new)
    if n == INF: return [0]
    if o == INF: return 'high'
    if o < n: return [None]
    if o == n: return [0]
    if n == 0 and o > 0: return 'high'
    r = float(n)/float(o)
    if abs(abs(r - 1.0) - minDiff) < 1e-9: return None
    if abs(r - 1.0) < minDiff: return [0]
    x = float(o)/float(n)
    if x == INF: return 'high'
    return [np.floor(x), np.ceil(x)] if abs(x - np.floor(x) - 0.5) < 1e-9*x else [np.round(x)]


def make(params):
    kw = {}
    if params['tf']: kw['targetFraction'] = params['tf']
    p = small_population(params['Np'])(lambda values: 1.0, ['a', 'b'], [(-10, 10)]*2, **kw)
    lb = Lab(random.Random(1), 'sync')
    lb.drive(p.setup(blank=True))
    return p, lb, (params['tf'] or 0.02)*params['Np']


def ind(p, rng, s):
    i = p.spawn([rng.uniform(-10, 10), rng.uniform(-10, 10)])
    i.SSE = s
    return i


def check_ratio(m, got, old, new, minDiff, how):
    want = expected(old, new, minDiff)
    if want is None: return
    m.count('ratios')
    if old is not None and new is not None and (old < 0 or new < 0): m.count('fatal_compared')
    if want == 'high':
        m.count('ratio_high')
        ok = got is not None and got >= 100
    else:
        ok = any((got is None) == (w is None) and (w is None or got == w) for w in want)
        if want == [None]: m.count('ratio_none')
        elif want == [0]:
            m.count('ratio_invalid_new' if norm(new) == INF else 'ratio_zero')
            if old == 0 and new == 0: m.count('both_zero')
        else: m.count('ratio_rounded')
    m.check(ok, 'ratio', "{}: old SSE {}, new SSE {} gave a ratio of {!r}, expected {}", how, old, new, got, want)


def ratio(params, m):
    rng = random.Random(params['seed'])
    p, lb, sqs = make(params)
    minDiff = 0.02
    if rng.random() < 0.3:
        minDiff = rng.choice([0.1, 0.5, 0.001])
        p.reporter.minDiff = minDiff
        m.count('other_minDiff')
    for _ in range(params['n']):
        old = number(rng)
        new = number(rng)
        if rng.random() < 0.5 and old and norm(old) < INF and old > 0: new = old*rng.choice([1.0, 0.99, 0.981, 0.979, 0.9, 0.667, 0.66, 0.5, 0.401, 0.399, 0.1, 1.001, 2, 1e-5])
        if rng.random() < 0.1: new = old
        a, b = ind(p, rng, old), ind(p, rng, new)
        if rng.random() < 0.5: check_ratio(m, p.report(b, a), old, new, minDiff, "report")
        else: check_ratio(m, p.reporter.msgRatio(a, b, noProgress=rng.random() < 0.5), old, new, minDiff, "comparison")
        m.sig(old, new)
    lb.drive(p.waitForReports())
    m.nontrivial = True


def points(rirs): return sum(0.1 if r == 0 else r - 0.5 for r in rirs)


def inquire(m, p, score, x, key):
    """Inquires with the target chosen such that the score is x times it."""
    m.count('inquiries')
    yes = bool(p.replacement())
    if score == 0:
        m.count('inquiries_at_zero')
        m.check(not yes, 'yes-at-zero', "inquiry said yes although the score was zero")
    elif x > 1:
        m.count('inquiries_above')
        m.check(yes, 'no-above', "inquiry said no although the score of {} ({}) exceeds the target {}", score, key, score/x)
    elif x < 1e-3: m.check(not yes, 'yes-near-zero', "inquiry said yes with a score of {} ({}) and a target of {}", score, key, score/x)
    else: m.stat('yes', "{}/{}".format(x, key.split(':')[0]), [float(yes), 1.0])
    return yes


def score(params, m):
    rng = random.Random(params['seed'])
    p, lb, sqs = make(params)
    for again in range(2):
        # Whatever was recorded before the first inquiry does not matter
        for _ in range(rng.randint(0, 2)): p.replacement(rng.choice([0, 1, 5]))
        m.check(bool(p.replacement()) is True, 'first-inquiry', "the first inquiry said no")
        m.count('first_inquiries')
        # With the target it was made with
        inquire(m, p, 0, 0, 'zero')
        p.replacement(int(sqs + 2))
        m.count('inquiries')
        m.check(bool(p.replacement()), 'no-above', "inquiry said no with a ratio of {} and a target of {}", int(sqs + 2), sqs)
        if sqs >= 0.3:
            p.replacement(0)
            yes = bool(p.replacement())
            m.stat('own', "{:.3g}".format(0.1/sqs), [float(yes), 1.0])
        for _ in range(params['n']):
            rirs = rng.choice(RATIOS)
            order = list(rirs)
            rng.shuffle(order)
            T = points(rirs)
            x = rng.choice([1 + 1e-6, 0.25, 0.5, 0.75, 1e-4])
            p.replacement(sqs=T/x)
            for r in order: p.replacement(r)
            inquire(m, p, T, x, "{}x{}".format(len(rirs), max(rirs)))
            m.sig(rirs, x)
            if rng.random() < 0.2: inquire(m, p, 0, 0, 'zero')
        if again == 0:
            lb.drive(p.setup(blank=True))
            m.count('repeated_setup')
            sqs = T/x
    m.nontrivial = True


def report(params, m):
    rng = random.Random(params['seed'])
    p, lb, sqs = make(params)
    p.replacement()
    best = INF
    first = ind(p, rng, 1000.0)
    p.report(first)
    best = 1000.0
    for _ in range(params['n']):
        T = 0.0
        x = rng.choice([1 + 1e-6, 0.25, 0.5, 0.75, 1e-4])
        pairs = []
        bonus = False
        for _ in range(rng.randint(1, 3)):
            old = rng.choice([rng.uniform(1, 1000), INF, best*rng.uniform(1, 3)])
            new = rng.choice([old*rng.uniform(0.2, 1.2), old*0.99, None, old, best*rng.choice([0.995, 0.9, 0.6, 1.5])])
            if new == INF or new != new: new = 5.0
            want = expected(old, new, 0.02)
            if want is None: continue
            if want == 'high': want = [1000]     # how high is nobody's business
            if len(want) > 1: continue
            pairs.append((old, new, want[0]))
        if any(w == 1000 for o, n, w in pairs): pairs = [(o, n, w) for o, n, w in pairs if w != 1000]
        for o, n, w in pairs:
            if w is not None: T += 0.1 if w == 0 else w - 0.5
            if norm(n) < best:
                best = norm(n)
                T += 0.5
                bonus = True
                m.count('bonuses')
        if T > 0: p.replacement(sqs=T/x)
        for o, n, w in pairs:
            a, b = ind(p, rng, o), ind(p, rng, n)
            got = p.report(b, a)
            check_ratio(m, got, o, n, 0.02, "report")
        if best < 1e-3:
            i = ind(p, rng, 1000.0)
            lb.drive(p.setup(blank=True))
            p.replacement()
            p.report(i)
            best = 1000.0
            continue
        inquire(m, p, T, x, ("bonus:" if bonus else "plain:") + repr(pairs))
        m.sig(pairs, x)
    lb.drive(p.waitForReports())
    m.nontrivial = True


def run_case(params, m):
    {'ratio': ratio, 'score': score, 'report': report}[params['mode']](params, m)


def finish(stats, m):
    """The chance of a yes depends on the score's share of the target only, and rises with it."""
    d = stats.get('yes', {})
    byX = {}
    for key, (yes, n) in d.items():
        x, how = key.split('/', 1)
        byX.setdefault(float(x), []).append((how, yes, n))
    out = {}
    mean = {}
    for x in sorted(byX):
        Y, N = sum(y for h, y, n in byX[x]), sum(n for h, y, n in byX[x])
        q = Y/N
        mean[x] = (q, N)
        out[str(x)] = dict(inquiries=N, yes=round(q, 4))
        for how, y, n in byX[x]:
            if n < 50: continue
            m.count('statistics_judged')
            rest = (Y - y, N - n)
            if rest[1] < 50: continue
            q2 = rest[0]/rest[1]
            sd = np.sqrt(max(q*(1-q), 1e-3)*(1/n + 1/rest[1]))
            z = (y/n - q2)/sd
            m.check(abs(z) < 6, 'weights', "with the score at {} of the target, ratios {} gave {:.3f} yes ({} inquiries), others {:.3f}: the score is not the documented one",
                    x, how, y/n, int(n), q2)
    xs = sorted(mean)
    for a, b in zip(xs, xs[1:]):
        (qa, na), (qb, nb) = mean[a], mean[b]
        sd = np.sqrt(0.25*(1/na + 1/nb))
        m.check(qb - qa > 3*sd, 'not-rising', "chance of a yes is {:.3f} at {} of the target and {:.3f} at {}", qa, a, qb, b)
        m.count('statistics_judged')
    for x in xs:
        q, n = mean[x]
        m.check(0 < q < 1, 'not-gradual', "with the score at {} of the target, the chance of a yes is {} ({} inquiries)", x, q, int(n))
    # With a single tiny improvement against the population's own target
    own = stats.get('own', {})
    out['own_target'] = {k: dict(yes=y, of=n) for k, (y, n) in own.items()}
    ks = sorted(own, key=float)
    for a, b in zip(ks, ks[1:]):
        (ya, na), (yb, nb) = own[a], own[b]
        if min(na, nb) < 30: continue
        m.check(yb/nb - ya/na > -5*np.sqrt(0.25*(1/na + 1/nb)), 'own-target', "chance of a yes falls from {:.3f} to {:.3f} with a smaller target", ya/na, yb/nb)
    return out
