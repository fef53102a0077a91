"""C19: the history roster stays sorted, truthful, bounded, and keeps working."""
import random, collections, pickle
import numpy as np
from twisted.python.failure import Failure
from rv.sim import reactor, history, Individual, Hang, drain

LEVEL = 'exploration'
ROUNDS = 6
RULE = ("Operation sequences are distinct by the operations, individuals and overlaps chosen; "
        "non-trivial when the roster was full at least once or operations overlapped.")
NEED = ['operations', 'quiescent_comparisons', 'records_compared', 'adds_when_full', 'overlapping_operations',
        'nonfinite_ignored', 'blacklisted_while_added', 'pickled_and_resumed', 'removals_by_row',
        'adds_with_many_expendable']


class Pop(object):
    """What an Individual needs of its population."""
    def __init__(self, Nd): self.Nd = Nd; self.history = None
    KS = property(lambda self: None, None, lambda self: None)


def cases(tier, seed):
    rng = random.Random(seed*31 + 19)
    out = []
    for k in range(500 if tier == 'quick' else 6000):
        out.append(dict(seed=seed*100019 + k, Nd=rng.choice([1, 2, 3, 5]),
                        N_max=rng.choice([1, 2, 3, 3, 4, 5, 8, 12, 20, 30]),
                        ops=rng.choice([20, 40, 80, 150]), overlap=rng.choice([0, 0.3, 0.8]),
                        dup=rng.choice([0, 0, 0.2]), extreme=rng.choice([0, 0.1]),
                        purge=rng.choice([0, 0.02, 0.1]),
                        removal=rng.choice([0.1, 0.3, 0.45]), mute=rng.choice([0, 0.2]),
                        byRow=rng.choice([0, 0.5]), pickle=rng.choice([0, 0.05])))
    # Enough expendable records that not all pairs of them are looked at
    for k in range(4 if tier == 'quick' else 60):
        out.append(dict(seed=seed*100019 + 50000 + k, Nd=rng.choice([1, 2, 3]), N_max=rng.choice([155, 170]), ops=700,
                        overlap=0.95, dup=rng.choice([0, 0.2]), extreme=0, purge=0, removal=0.38, mute=0,
                        byRow=0, pickle=0))
    return out


def run_case(params, m):
    rng = random.Random(params['seed'])
    Nd, N_max = params['Nd'], params['N_max']
    pop = Pop(Nd)
    h = history.History(["p{}".format(k) for k in range(Nd)], N_max=N_max)
    # Model
    P = collections.Counter()       # member records
    cand = collections.Counter()    # records that may or may not have been dropped
    never = collections.Counter()   # those of cand never in the population
    addedRows = collections.Counter()
    state = dict(non=0, written=0)
    members = []                    # individuals the model has as members
    seenInds = []
    pending = []                    # Deferreds not fired
    opsDone = [0]

    def row(SSE, values):
        return tuple(np.array([SSE] + list(values), dtype='f4').tolist())

    def individual():
        if seenInds and rng.random() < params['dup']:
            i0 = rng.choice(seenInds)
            i = Individual(pop, np.array(i0.values))
            i.SSE = i0.orig
            return i
        values = np.array([rng.choice([rng.uniform(-10, 10), rng.randint(-3, 3)*1.0]) for _ in range(Nd)])
        r = rng.random()
        if r < params['extreme']:
            SSE = rng.choice([0, 0.0, 1e-300, 1e-45, 3e38, 1e39, 1e308, float('inf'), float('nan'), None, 1e38, 7])
            if rng.random() < 0.2: values[0] = rng.choice([1e39, -1e300, 1e38, 0.0])
        elif r < 0.5: SSE = rng.uniform(0, 100)
        elif r < 0.7: SSE = float(rng.randint(0, 5))
        else: SSE = 10**rng.uniform(-3, 5)
        i = Individual(pop, values)
        i.SSE = SSE
        return i

    class Ind(Individual):
        __slots__ = ['orig', 'recorded', 'row']

    def make():
        i0 = individual()
        i = Ind(pop, i0.values)
        i.SSE = i0._SSE
        i.orig = i0._SSE
        i.recorded = False
        i.row = None
        return i

    def total(): return sum(P.values()) + state['non']

    def track(d, what):
        rec = [what, False]
        pending.append(rec)
        opsDone[0] += 1
        m.count('operations')
        def done(x):
            rec[1] = True
            if isinstance(x, Failure):
                m.bad('operation-failed', "{} failed: {}", what, x.getErrorMessage())
        d.addBoth(done)

    def add(never_):
        i = make()
        seenInds.append(i)
        with np.errstate(all='ignore'):
            r = row(i.SSE, i.values)
        finite = all(np.isfinite(x) for x in r)
        if not finite:
            m.count('nonfinite_ignored')
        else:
            addedRows[r] += 1
            full = total() >= N_max
            ok = True
            if full:
                m.count('adds_when_full')
                if state['non'] > 142: m.count('adds_with_many_expendable')
                if state['non'] == 0:
                    m.count('adds_when_full_of_members')
                    ok = False
                else: state['non'] -= 1
            if ok:
                state['written'] += 1
                if never_:
                    cand[r] += 1; never[r] += 1; state['non'] += 1
                else:
                    P[r] += 1
                    i.recorded = True
                    members.append(i)
        d = h.add(i, neverInPop=True) if never_ else h.add(i)
        def gotRow(kr):
            i.row = kr
            return kr
        d.addCallback(gotRow)
        track(d, "add SSE={} never={}".format(i.orig, never_))
        if rng.random() < params['mute']:
            # Blacklisted right away, perhaps before the record was written
            m.count('blacklisted_while_added')
            i.SSE = float('inf')

    def remove():
        if not members: return
        i = members.pop(rng.randrange(len(members)))
        i.SSE = i.orig
        r = row(i.SSE, i.values)
        P[r] -= 1
        cand[r] += 1
        state['non'] += 1
        if i.row is not None and addedRows[r] == 1 and rng.random() < params['byRow']:
            m.count('removals_by_row')
            track(h.notInPop(rng.choice([int, np.int64, np.uint16])(i.row)), "notInPop by row")
        else: track(h.notInPop(i), "notInPop")

    def removeStranger():
        i = make()
        i.SSE = 12345.678 + rng.random()
        track(h.notInPop(i), "notInPop of an unknown individual")

    def purgePop():
        P.clear(); del members[:]
        track(h.purgePop(), "purgePop")

    def clear():
        P.clear(); cand.clear(); never.clear(); del members[:]
        state['non'] = 0; state['written'] = 0
        track(h.clear(), "clear")

    def repickle():
        quiesce()
        m.count('pickled_and_resumed')
        return pickle.loads(pickle.dumps(h))

    def quiesce():
        n = 0
        while any(not r[1] for r in pending):
            if not reactor.step() or n > 20000:
                what = [r[0] for r in pending if not r[1]]
                raise Hang("history operations never finish: {}".format(what[:3]))
            n += 1
        drain(200)
        del pending[:]
        compare()

    def compare():
        m.count('quiescent_comparisons')
        K = [int(k) for k in h.K]
        rows = [tuple(float(x) for x in h[k]) for k in range(len(h))]
        m.count('records_compared', len(rows))
        if not m.check(len(rows) <= N_max, 'over-full', "{} records with a maximum of {}", len(rows), N_max): return
        if not m.check(len(set(K)) == len(K), 'shared-row', "two records share one row: {}", K): return
        if not m.check(all(np.isfinite(rows).ravel()) if rows else True, 'non-finite-record', "a record is not finite"): return
        SSEs = [r[0] for r in rows]
        m.check(SSEs == sorted(SSEs), 'unsorted', "SSEs not in order: {}", SSEs[:10])
        inPop = collections.Counter(rows[n] for n, k in enumerate(K) if k in h.Kp)
        wanted = +P
        m.check(inPop == wanted, 'member-records', "records of current members: {} missing, {} extra",
                list((wanted - inPop).elements())[:3], list((inPop - wanted).elements())[:3])
        nev = collections.Counter(rows[n] for n, k in enumerate(K) if k in h.Kn)
        m.check(not (nev - never), 'never-records', "reported as never in the population: {}", list((nev - never).elements())[:3])
        former = collections.Counter(rows[n] for n, k in enumerate(K) if k not in h.Kn and k not in h.Kp)
        m.check(not (former - (cand - never)), 'former-records', "reported as formerly in the population: {}",
                list((former - (cand - never)).elements())[:3])
        m.check(len(rows) == total(), 'record-count', "{} records, expected {}", len(rows), total())
        m.check(all(int(k) in K for k in list(h.Kp) + list(h.Kn)), 'dangling', "class sets refer to rows without record")
        m.check(h.N_total == state['written'], 'lifetime-count', "N_total is {}, {} were written", h.N_total, state['written'])
        its = [tuple(float(x) for x in v) for v in h]
        m.check(its == [r[1:] for r in rows], 'iteration', "iteration differs from the records")

    for _ in range(params['ops']):
        r = rng.random()
        if any(not x[1] for x in pending): m.count('overlapping_operations')
        if r < params['purge']:
            rng.choice([purgePop, purgePop, clear])()
        elif r < params['purge'] + params['removal']:
            if rng.random() < 0.1: removeStranger()
            else: remove()
        else: add(rng.random() < 0.35)
        if rng.random() < params['overlap']:
            for _ in range(rng.randint(0, 4)): reactor.step()
        else: quiesce()
        if m.violations: break
        if rng.random() < params['pickle']: h = repickle()
    if not m.violations: quiesce()
    m.sig(params, opsDone[0])
    m.nontrivial = bool(m.counts.get('adds_when_full') or m.counts.get('overlapping_operations'))
    m.notes = dict(final_records=len(h))
