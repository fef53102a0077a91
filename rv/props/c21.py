"""C21: analysis queries return exactly the records asked for."""
import random, pickle, warnings
import numpy as np
from twisted.python.failure import Failure
from rv.sim import reactor, history, Individual, Hang, drain

LEVEL = 'exploration'
ROUNDS = 8
RULE = ("Record sets and queries are distinct by the individuals added, their classes and the query arguments; "
        "non-trivial when a query had to leave out at least one record and return at least one.")
NEED = ['queries', 'class_queries', 'records_returned', 'records_left_out', 'best_zero_queries', 'empty_results',
        'name_selections', 'fraction_queries', 'rank_queries', 'correlations', 'line_fits', 'queued_queries',
        'pickled_histories', 'full_rosters', 'ties', 'empty_histories', 'purged_histories']


class Pop(object):
    def __init__(self, Nd): self.Nd = Nd; self.history = None
    KS = property(lambda self: None, None, lambda self: None)


def cases(tier, seed):
    rng = random.Random(seed*37 + 21)
    out = []
    for k in range(500 if tier == 'quick' else 6000):
        out.append(dict(seed=seed*100043 + k, Nd=rng.choice([1, 2, 3, 4, 6]),
                        N=rng.choice([0, 1, 2, 3, 5, 8, 15, 30, 60]),
                        best=rng.choice(['plain', 'plain', 'plain', 'zero', 'zeros', 'tiny']),
                        spread=rng.choice([0.5, 2, 5, 8]), tie=rng.choice([0, 0, 0.3, 1.0]),
                        constant=rng.choice([0, 0, 0.4]), full=rng.choice([0, 0, 0, 1]),
                        pickle=rng.choice([0, 0, 1]), purge=rng.choice([0, 0, 1]), queries=8))
    return out


class Stop(Exception): pass


def f4(x): return float(np.float32(x))


def run_case(params, m):
    rng = random.Random(params['seed'])
    Nd, N = params['Nd'], params['N']
    names = ["p{}".format(k) for k in range(Nd)]
    rng.shuffle(names)
    pop = Pop(Nd)
    N_max = max(4, N//2) if params['full'] else N + 10
    h = history.History(list(names), N_max=N_max)
    const = [rng.random() < params['constant'] for _ in range(Nd)]
    recs = {}           # values (single precision) -> [SSE, class]
    inds = []

    def done(d, what):
        box = []
        d.addBoth(box.append)
        drain()
        if not box: m.bad('hang', "{} never completed", what); raise Stop(what)
        if isinstance(box[0], Failure):
            m.bad('failed', "{} failed: {}", what, box[0].getErrorMessage()); raise Stop(what)
        return box[0]

    def sse(k):
        if params['best'] == 'zero' and k == 0: return 0.0
        if params['best'] == 'zeros' and k < 3: return 0.0
        if params['best'] == 'tiny' and k == 0: return 1e-30
        if inds and rng.random() < params['tie']:
            m.count('ties')
            return rng.choice(inds).SSE
        return 10**rng.uniform(0, params['spread'])

    order = list(range(N)); rng.shuffle(order)
    for k in order:
        values = [5.0 if const[j] else rng.uniform(-10, 10) for j in range(Nd)]
        if Nd > 1 and not const[0] and not const[1] and rng.random() < 0.7: values[1] = 2*values[0] + rng.uniform(-1, 1)
        if all(const): values[0] = rng.uniform(-10, 10)
        i = Individual(pop, np.array(values)); i.SSE = sse(k)
        never = rng.random() < 0.3
        done(h.add(i, neverInPop=never), "add")
        key = tuple(f4(x) for x in values)
        recs[key] = [f4(i.SSE), 'never' if never else 'in']
        inds.append(i)
        if not never and rng.random() < 0.3:
            done(h.notInPop(i), "notInPop")
            recs[key][1] = 'former'

    if params['purge']:
        # Members are taken off the record, as for a new population
        done(h.purgePop(), "purgePop")
        for key in [k for k, r in recs.items() if r[1] == 'in']: del recs[key]
        m.count('purged_histories')
        for _ in range(rng.randint(0, 2)):
            i = Individual(pop, np.array([rng.uniform(-10, 10) for _ in range(Nd)]))
            i.SSE = 10**rng.uniform(0, params['spread'])
            done(h.add(i), "add")
            recs[tuple(f4(x) for x in i.values)] = [f4(i.SSE), 'in']
    if params['pickle']:
        h = pickle.loads(pickle.dumps(h))
        m.count('pickled_histories')
    if params['full'] and N > N_max: m.count('full_rosters')

    def roster():
        """The records there are, from the public sequence interface."""
        out = []
        for k in range(len(h)):
            row = [float(x) for x in h[k]]
            out.append((row[0], tuple(row[1:])))
        return out

    def model(cls, maxRatio, slack):
        rows = roster()
        best = min(r[0] for r in rows) if rows else 0.0
        out = []
        for SSE, values in rows:
            c = recs[values][1]
            if cls and c != cls: continue
            if SSE <= best*maxRatio*(1+slack) if best else SSE == 0: out.append((SSE, values))
        return out

    CLS = dict(inPop='in', notInPop='former', neverInPop='never')
    if not N: m.count('empty_histories')
    for _ in range(params['queries']):
        kw = {}
        c = rng.choice([None, 'inPop', 'notInPop', 'neverInPop'])
        if c: kw[c] = True
        elif rng.random() < 0.3: kw['inPop'] = False
        rows = roster()
        ratio = 1000
        r = rng.random()
        if r < 0.35: ratio = kw['maxRatio'] = rng.choice([1, 1.0, 2, 10, 50, 1e4, 1e12])
        elif r < 0.6 and rows and min(r[0] for r in rows) > 0:
            # Exactly at or just around the ratio of an existing record
            x = rng.choice(rows)[0]/min(r[0] for r in rows)
            ratio = kw['maxRatio'] = x*rng.choice([1, 1 - 1e-4, 1 + 1e-4])
        sel = rng.choice(['all', 'one', 'some', 'tuple'])
        if sel == 'all': want, arg = sorted(names), []
        else:
            want = rng.sample(names, 1 if sel == 'one' else rng.randint(1, Nd))
            arg = tuple(want) if sel == 'tuple' else list(want)
            m.count('name_selections')
        what = "query names={} {} of {} records".format(arg, kw, len(rows))
        direct = rng.random() < 0.3
        lo, hi = model(CLS.get(c), ratio, -2e-6), model(CLS.get(c), ratio, 2e-6)
        try:
            with warnings.catch_warnings():
                warnings.simplefilter('ignore')
                if direct: result = h.a.value_vs_SSE(arg, **kw)
                elif rng.random() < 0.4 and N:
                    # The query is made while an addition is still pending, and waits for it
                    i = Individual(pop, np.array([rng.uniform(-10, 10) for _ in range(Nd)]))
                    i.SSE = 10**rng.uniform(0, 3) if inds else 1.0
                    recs[tuple(f4(x) for x in i.values)] = [f4(i.SSE), 'in']
                    d1 = h.add(i); d2 = h.value_vs_SSE(arg, **kw)
                    result = done(d2, what); done(d1, 'add')
                    inds.append(i)
                    lo, hi = model(CLS.get(c), ratio, -2e-6), model(CLS.get(c), ratio, 2e-6)
                    m.count('queued_queries')
                else: result = done(h.value_vs_SSE(arg, **kw), what)
        except Stop: continue
        except Exception as e:
            m.bad('query-raised', "{} raised {!r}", what, e); continue
        m.count('queries')
        if c: m.count('class_queries')
        if rows and min(r[0] for r in rows) == 0: m.count('best_zero_queries')
        if not m.check(len(result) == 1 + len(want), 'columns', "{} gave {} arrays, wanted {}", what, len(result), 1+len(want)):
            continue
        cols = [[float(x) for x in a] for a in result]
        if not m.check(len(set(len(a) for a in cols)) == 1, 'aligned', "{}: lengths {}", what, [len(a) for a in cols]): continue
        S = cols[0]
        m.check(all(a <= b for a, b in zip(S, S[1:])), 'ascending', "{}: SSEs not ascending: {}", what, S[:6])
        proj = lambda rec: (rec[0],) + tuple(rec[1][names.index(n)] for n in want)
        got = sorted(zip(*cols))
        wlo, whi = sorted(map(proj, lo)), sorted(map(proj, hi))
        if wlo == whi: ok = got == whi
        else:
            ok = all(whi.count(g) >= got.count(g) for g in set(got)) and all(got.count(g) >= wlo.count(g) for g in set(wlo))
        m.check(ok, 'records', "{}: returned {} records, wanted {}; missing {}, extra {}", what, len(got), len(whi),
                [x for x in wlo if x not in got][:2], [x for x in got if x not in whi][:2])
        m.count('records_returned', len(got)); m.count('records_left_out', max(0, len(rows) - len(got)))
        if not got: m.count('empty_results')
        if got and len(got) < len(rows): m.nontrivial = True; m.sig(('q', c, ratio, tuple(want), len(got), params['seed']))
    rows = roster()
    n = len(rows)
    if not n: return
    a = h.a
    SS = [r[0] for r in rows]
    at = lambda k: (float(a.X[k,0]), tuple(float(x) for x in a.X[k,1:]))

    # Fractions of the SSE range, and of the ranking
    for _ in range(4):
        x, y = sorted([rng.choice([0, 0.05, 0.1, 0.5, rng.random()]), rng.choice([0.2, 0.7, 1.0, 1.01, rng.random()])])
        K = [int(k) for k in a.Kf12(x, y)]
        m.count('fraction_queries')
        rng_ = SS[-1] - SS[0]
        tol = 1e-5*max(abs(SS[-1]), 1e-37)
        got = sorted(at(k) for k in K)
        lo, hi = SS[0] + x*rng_, SS[0] + y*rng_
        must = sorted(r for r in rows if lo + tol < r[0] < hi - tol)
        may = sorted(r for r in rows if lo - tol <= r[0] <= hi + tol)
        m.check(not [r for r in must if r not in got], 'fraction-missing', "Kf12({}, {}) leaves out {}", x, y,
                [r for r in must if r not in got][:2])
        m.check(not [r for r in got if r not in may] and len(set(K)) == len(K), 'fraction-extra',
                "Kf12({}, {}) has {} outside [{}, {}]", x, y, [r[0] for r in got if r not in may][:3], lo, hi)
        if rng_ > 0:
            # Neighbouring intervals share the records out without loss or duplication
            z = rng.uniform(x, y)
            both = [int(k) for k in a.Kf12(x, z)] + [int(k) for k in a.Kf12(z, y)]
            m.check(sorted(both) == sorted(K), 'fraction-split', "Kf12({0}, {1}) + Kf12({1}, {2}) is not Kf12({0}, {2})", x, z, y)
        K = [int(k) for k in a.Kp12(x, y)]
        m.count('rank_queries')
        rank = [at(k) for k in K]
        m.check(len(set(K)) == len(K) and [r[0] for r in rank] == sorted(r[0] for r in rank), 'rank-order',
                "Kp12({}, {}) not in ranking order: {}", x, y, rank[:3])
        # Position k lies within the two portions
        must = [rows[k] for k in range(n) if x*n <= k <= y*n - 1e-9]
        m.check(not [r for r in must if r not in rank], 'rank-missing', "Kp12({}, {}) of {} leaves out {}", x, y, n,
                [rows.index(r) for r in must if r not in rank][:3])
        may = [rows[k] for k in range(n) if x*n - 1 < k <= y*n]
        m.check(not [r for r in rank if r not in may], 'rank-extra', "Kp12({}, {}) of {} has positions {}", x, y, n,
                [rows.index(r) for r in rank if r not in may][:3])
    # All records make a whole range
    m.check(sorted(int(k) for k in a.Kp12(0, 1)) == sorted(int(k) for k in a.K), 'rank-all', "Kp12(0, 1) is not everything")

    V = np.array([r[1] for r in rows])
    if Nd > 1:
        with warnings.catch_warnings():
            warnings.simplefilter('ignore')
            kkR = list(a.correlator())
        pairs = [(k1, k2) for k1, k2, R in kkR]
        m.check(sorted(pairs) == [(p, q) for p in range(1, Nd+1) for q in range(p+1, Nd+1)], 'pairs',
                "Pairs correlated: {}", pairs)
        mags = []
        for k1, k2, R in kkR:
            X, Y = V[:,k1-1], V[:,k2-1]
            dx, dy = X - X.mean(), Y - Y.mean()
            den = np.sqrt((dx**2).sum()*(dy**2).sum())
            m.count('correlations')
            if n < 2 or den < 1e-6: continue
            ref = (dx*dy).sum()/den
            m.check(abs(R - ref) < 1e-4, 'pearson', "{}-{}: correlation {}, should be {}", a.k2name(k1), a.k2name(k2), R, ref)
            mags.append(abs(ref))
        m.check(all(p >= q - 1e-4 for p, q in zip(mags, mags[1:])), 'correlation-order',
                "Correlations not by decreasing magnitude: {}", [round(x, 3) for x in mags])
        # Fit
        for _ in range(2):
            k1, k2 = rng.sample(range(1, Nd+1), 2)
            K = [int(k) for k in a.K]
            if len(K) < 3: break
            if rng.random() < 0.5: K = sorted(rng.sample(K, rng.randint(3, len(K))), key=lambda k: a.X[k,0])
            sub = np.array([[float(x) for x in a.X[k]] for k in K])
            S, X, Y = sub[:,0], sub[:,k1], sub[:,k2]
            if X.std() < 1e-3: continue
            with warnings.catch_warnings():
                warnings.simplefilter('ignore')
                try: slope, icpt = a.lineFit(k1, k2, K)
                except Exception as e:
                    m.bad('fit-raised', "Line fit over {} records, lowest SSE {}, raised {!r}", len(K), S.min(), e); continue
            m.count('line_fits')
            if not m.check(np.isfinite(slope) and np.isfinite(icpt), 'fit-finite', "Line fit gave {}, {}", slope, icpt): continue
            W = np.where(S == S.min(), 1.0, 2*S.min()/np.maximum(S + S.min(), 1e-300))
            obj = lambda p: float((W**2*(Y - p[0]*X - p[1])**2).sum())
            A = np.stack([X, np.ones_like(X)], 1)*W[:,None]
            ref = np.linalg.lstsq(A, Y*W, rcond=None)[0]
            m.check(obj((slope, icpt)) <= obj(ref)*(1+1e-3) + 1e-5, 'fit', "Fit {}x+{} has weighted error {}, best is {}x+{} with {}",
                    slope, icpt, obj((slope, icpt)), ref[0], ref[1], obj(ref))
            # Names and columns go together
            m.check(a.name2k(a.k2name(k1)) == k1 and a.k2name(k1) == names[k1-1], 'names', "Column {} is {}", k1, a.k2name(k1))
