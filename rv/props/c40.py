"""C40: a full history drops its most redundant expendable record."""
import random, collections, pickle
import numpy as np
from twisted.python.failure import Failure
from rv.sim import reactor, history, Individual, Hang, drain

LEVEL = 'exploration'
ROUNDS = 2
RULE = ("Histories are distinct by the records added, in what order, and which became expendable when; "
        "non-trivial when at least one record was dropped out of three or more expendable ones.")
NEED = ['drops', 'drops_judged', 'drops_of_many', 'drops_sampled', 'drops_of_former', 'drops_of_never', 'drops_with_majority_never',
        'drops_overlapped', 'drops_after_pickling', 'grouped', 'pairs_compared']

# Pairs looked at by a history at one time
EXAMINED = 10000
# The chance allowed for all of the closest few pairs being missed, see sampled()
MISS = 1e-10


class Pop(object):
    """What an Individual needs of its population."""
    def __init__(self, Nd): self.Nd = Nd; self.history = None
    KS = property(lambda self: None, None, lambda self: None)


def cases(tier, seed):
    rng = random.Random(seed*37 + 40)
    q = tier == 'quick'
    out = []
    for k in range(400 if q else 5000):
        out.append(dict(seed=seed*100019 + 40000 + k, Nd=rng.choice([1, 2, 3, 5]),
                        N_max=rng.choice([4, 6, 10, 16, 30, 60]), drops=rng.choice([8, 20, 40]),
                        members=rng.choice([0, 0.2, 0.6]), never=rng.choice([0.1, 0.5, 0.9, 0.97]),
                        clusters=rng.choice([0, 2, 4]), overlap=rng.choice([0, 0.5]), pickle=rng.choice([0, 0.1])))
    for k in range(16 if q else 150):
        N = rng.choice([150, 180, 230])
        out.append(dict(seed=seed*100019 + 90000 + k, Nd=rng.choice([1, 2, 3]), N_max=N + 10, drops=30,
                        members=10.0/(N+10), never=rng.choice([0.1, 0.5, 0.9]), clusters=rng.choice([0, 4]),
                        overlap=rng.choice([0, 0.5]), pickle=0))
    # The only similar ones were added one after the other
    for k in range(24 if q else 150):
        N = rng.choice([30, 100, 150, 180, 230])
        out.append(dict(seed=seed*100019 + 95000 + k, Nd=rng.choice([1, 2, 3]), N_max=N, drops=6, members=rng.choice([0, 5.0/N]),
                        never=rng.choice([0.1, 0.9]), clusters=0, overlap=rng.choice([0, 0.5]), pickle=0, group=rng.choice([0.0, 0.5, 1.0])))
    return out


def differences(X, never, penalty):
    """
    How different the records of each pair are: Pair indices and values.
    """
    A, B = np.triu_indices(len(X), 1)
    S = 1.0/(np.var(X, axis=0) + 1e-20)
    D = np.sum(np.square(X[A] - X[B])*S, axis=1)/(0.5*(X[A, 0] + X[B, 0]))
    if penalty > 1: D = D/np.where(never[A], penalty, 1.0)
    return A, B, D


def sampled(Npairs):
    """
    The rank such that EXAMINED pairs drawn with replacement include none of the closest pairs up to that
    rank with a chance below MISS.
    """
    perPair = np.log1p(-1.0/Npairs)*EXAMINED
    return int(np.ceil(np.log(MISS)/perPair))


def run_case(params, m):
    rng = random.Random(params['seed'])
    np.random.seed(params['seed'] % 2**32)
    Nd, N_max = params['Nd'], params['N_max']
    pop = Pop(Nd)
    h = history.History(["p{}".format(k) for k in range(Nd)], N_max=N_max)
    scales = [10**rng.uniform(-4, 4) for _ in range(Nd)]
    centers = [[rng.uniform(-1, 1) for _ in range(Nd)] + [10**rng.uniform(-2, 4)] for _ in range(params['clusters'])]
    spread = 10**rng.uniform(-3, -0.5)
    members = []
    count = [0]
    first = int(params['group']*(N_max - 20)) if 'group' in params else N_max*1000

    def individual():
        if centers and rng.random() < 0.8:
            c = rng.choice(centers)
            x = [c[k] + spread*rng.gauss(0, 1) for k in range(Nd)]
            SSE = c[-1]*(1 + abs(spread*rng.gauss(0, 1)))
        else:
            x = [rng.uniform(-1, 1) for _ in range(Nd)]
            SSE = 10**rng.uniform(-2, 4)
        if first <= count[0] < first + 20:
            # One of those having something similar
            m.count('grouped')
            x = [0.3 + 1e-4*rng.gauss(0, 1) for _ in range(Nd)]
            SSE = 2000.0*(1 + 1e-4*rng.random())
        i = Individual(pop, np.array([v*s for v, s in zip(x, scales)]))
        i.SSE = SSE
        count[0] += 1
        return i

    def wait(ds):
        left = []
        for d in ds:
            rec = [False]
            left.append(rec)
            def done(x, rec=rec):
                rec[0] = True
                if isinstance(x, Failure): m.bad('operation-failed', "failed: {}", x.getErrorMessage())
            d.addBoth(done)
        n = 0
        while not all(r[0] for r in left):
            if not reactor.step() or n > 50000: raise Hang("history operations never finish")
            n += 1
        drain(50)

    def records():
        """Multiset of all records, and those expendable with whether never in the population."""
        rows = {int(k): tuple(float(x) for x in h.X[int(k)]) for k in h.K}
        loose = [(r, k in h.Kn) for k, r in rows.items() if k not in h.Kp]
        return collections.Counter(rows.values()), loose

    def judge(before, loose, after, added):
        m.count('drops')
        gone = before + added - after
        if not m.check(sum(gone.values()) == 1, 'dropped', "making room for one record dropped {}", list(gone.elements())[:4]): return
        r = next(iter(gone))
        which = [n for n, x in enumerate(loose) if x[0] == r]
        if not m.check(which, 'not-expendable', "{} was dropped but is not an expendable record", r): return
        N = len(loose)
        m.count('drops_of_never' if any(loose[n][1] for n in which) else 'drops_of_former')
        if N < 2: return
        if N >= 3: m.nontrivial = True
        if N >= 20: m.count('drops_of_many')
        X = np.array([x[0] for x in loose])
        never = np.array([x[1] for x in loose])
        fraction = np.mean(never)
        Npairs = N*(N-1)//2
        # With all pairs looked at, or the closest few of them when a sample is
        full = Npairs < EXAMINED
        if not full: m.count('drops_sampled')
        m.count('drops_judged')
        m.count('pairs_compared', Npairs)
        good = False
        for penalty in (1.0, 1 + np.exp(12*(fraction - 0.4))):
            A, B, D = differences(X, never, penalty)
            if full: limit = 1.02*np.min(D)
            else: limit = 1.02*np.partition(D, min(sampled(Npairs), len(D)-1))[min(sampled(Npairs), len(D)-1)]
            mine = np.isin(A, which) | np.isin(B, which)
            # Either of the pair may go
            if np.min(D[mine]) <= limit*(1 + 1e-6):
                good = True
                break
        A, B, D = differences(X, never, 1.0)
        mine = np.isin(A, which) | np.isin(B, which)
        m.check(good, 'not-closest', "dropped a record that differs by {:.4g} from the nearest one, while another pair of the "
                "{} expendable records differs by only {:.4g}", float(np.min(D[mine])), N, float(np.min(D)))
        if full and fraction >= 0.75:
            m.count('drops_with_majority_never')
            nn = never[A] & never[B]
            if nn.any() and np.min(D[nn]) <= 5*np.min(D):
                m.count('drops_with_never_candidate')
                if not any(loose[n][1] for n in which) and not m.counts.get('former_dropped'):
                    m.count('former_dropped')
                    m.bad('former-dropped', "a record formerly in the population was dropped although {:.0f}% of the {} expendable ones were "
                          "never in it and two of those are about as close", 100*fraction, N)

    # Fill up
    Nm = int(params['members']*N_max)
    for n in range(N_max):
        i = individual()
        if n < Nm:
            wait([h.add(i)])
            members.append(i)
        elif rng.random() < params['never']: wait([h.add(i, neverInPop=True)])
        else:
            wait([h.add(i)])
            wait([h.notInPop(i)])
    m.check(len(h) == N_max, 'not-full', "{} records added but only {} there", N_max, len(h))
    pickled = False
    for n in range(params['drops']):
        if any(key != 'former-dropped' for key, text in m.violations): break
        if rng.random() < params['pickle']:
            h = pickle.loads(pickle.dumps(h))
            pickled = True
        before, loose = records()
        if not loose: break
        i = individual()
        with np.errstate(all='ignore'):
            r = tuple(np.array([i.SSE] + list(i.values)).astype('f4').tolist())
        isNever = rng.random() < params['never']
        ds = [h.add(i, neverInPop=True) if isNever else h.add(i)]
        if rng.random() < params['overlap']:
            # Somebody leaves the population while room is being made
            m.count('drops_overlapped')
            for _ in range(rng.randint(0, 3)): reactor.step()
            if members and rng.random() < 0.7: ds.append(h.notInPop(members.pop(rng.randrange(len(members)))))
        wait(ds)
        if pickled: m.count('drops_after_pickling')
        after, _ = records()
        judge(before, loose, after, collections.Counter([r]))
        if not isNever:
            members.append(i)
            # Keep about as many members as there were
            while len(members) > Nm: wait([h.notInPop(members.pop(rng.randrange(len(members))))])
    m.sig(params, count[0])
