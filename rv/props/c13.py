"""C13: position locks are exclusive, first-come first-served, fully released."""
import random
import numpy as np
from rv import lab
from rv.sim import drain

LEVEL = 'exploration'
ROUNDS = 8
RULE = ("Operation sequences are distinct by their operations; non-trivial when a request had to wait and was "
        "granted later.")
NEED = ['requests', 'granted_at_once', 'waited', 'woken', 'partial_releases', 'duplicates_refused', 'aborts', 'pending_at_abort',
        'requests_after_abort', 'all_free_checks']


def cases(tier, seed):
    n = 500 if tier == 'quick' else 6000
    rng = random.Random(seed*17 + 11)
    return [dict(seed=seed*100003 + k, Np=rng.choice([4, 5, 8, 20]), ops=rng.choice([10, 40, 120]), most=rng.choice([1, 2, 4, 4]),
                 abort=rng.random() < 0.3, hold=rng.choice([0.2, 0.5, 0.8])) for k in range(n)]


class Request(object):
    def __init__(self, id, indices):
        self.id, self.indices = id, indices
        self.fired = 0
        self.held = set(indices)      # not released yet
    def granted(self, result):
        self.fired += 1


def run_case(params, m):
    rng = random.Random(params['seed'])
    Np = params['Np']
    p = lab.small_population(Np)(lambda x: 1.0 + float(np.sum(x**2)), ['a'], [(-5, 5)])
    lab.Lab(rng, 'sync').drive(p.setup())
    queue = {k: [] for k in range(Np)}
    reqs = []
    log = []
    def grantable(r): return all(queue[k] and (r.id not in [x.id for x in queue[k]] or queue[k][0] is r) for k in r.indices)
    def isGranted(r): return all(queue[k] and queue[k][0] is r for k in r.held) if r.held else True
    def compare(when):
        for r in reqs:
            expected = r.done or isGranted(r)
            if expected and not r.done: r.done = True
            if r.fired > 1: m.bad('twice', "{}: request {} for {} granted {} times", when, r.id, r.indices, r.fired); return False
            if bool(r.fired) != r.done:
                m.bad('granted-early' if r.fired else 'not-granted', "{}: request {} for {} is {}granted; ahead of it: {}", when, r.id, r.indices,
                      '' if r.fired else 'not ', {k: [x.id for x in queue[k] if x is not r][:4] for k in r.indices})
                return False
        m.count('checks')
        return True
    def request(indices):
        r = Request(len(reqs), indices)
        r.done = False
        free = all(not queue[k] for k in indices)
        for k in indices: queue[k].append(r)
        reqs.append(r)
        m.count('requests')
        given = [np.int64(k) for k in indices] if rng.random() < 0.3 else indices
        p.lock(*given).addCallback(r.granted)
        r.waited = not r.fired
        if free:
            m.count('granted_at_once')
            m.check(r.fired == 1, 'free-not-granted', "request for free positions {} was not granted at once", indices)
        if r.waited: m.count('waited')
        return r
    def release(r, indices):
        for k in indices:
            queue[k].remove(r)
            r.held.discard(k)
        if r.held: m.count('partial_releases')
        p.release(*indices)
    woken = 0
    for n in range(params['ops']):
        active = [r for r in reqs if r.fired and r.held]
        x = rng.random()
        if x < 0.06:
            ks = rng.sample(range(Np), min(Np, rng.randint(1, 3)))
            ks.insert(rng.randint(0, len(ks)), rng.choice(ks))
            try: p.lock(*ks)
            except ValueError: m.count('duplicates_refused')
            else: m.bad('duplicate-accepted', "a request for {} was not refused", ks)
            log.append(('dup', ks))
        elif x < params['hold'] or not active:
            ks = rng.sample(range(Np), min(Np, rng.randint(1, params['most'])))
            request(ks)
            log.append(('lock', ks))
        else:
            r = rng.choice(active)
            ks = sorted(r.held)
            rng.shuffle(ks)
            if rng.random() < 0.4: ks = ks[:rng.randint(1, len(ks))]
            before = sum(1 for q in reqs if q.fired)
            release(r, ks)
            log.append(('release', r.id, ks))
            now = sum(1 for q in reqs if q.fired)
            m.count('woken', now - before)
            woken += now - before
        if not compare("after {}".format(log[-1])): return
        if rng.random() < 0.1: drain(5)
    m.sig(params, log)
    m.nontrivial = woken > 0
    m.notes = dict(operations=len(log), woken=woken)
    if params['abort']:
        m.count('aborts')
        pending = [r for r in reqs if not r.fired]
        m.count('pending_at_abort', len(pending))
        holders = [r for r in reqs if r.fired]
        p.abort()
        done = set()
        for _ in range(len(reqs) + 2):
            # Whoever got its locks gives them back
            for r in reqs:
                if r.fired and r.id not in done:
                    done.add(r.id)
                    if rng.random() < 0.5: p.release(*r.indices)
                    else: p.release()
            p.abort()
        left = [r.id for r in reqs if not r.fired]
        m.check(not left, 'not-released', "{} of {} pending requests were never released after the abort", len(left), len(pending))
        twice = [r.id for r in reqs if r.fired > 1]
        m.check(not twice, 'twice', "requests {} were granted more than once", twice)
        for _ in range(5):
            box = []
            p.lock(*rng.sample(range(Np), min(Np, 2))).addCallback(box.append)
            m.count('requests_after_abort')
            m.check(len(box) == 1, 'abort-lock', "a request made after the abort was not granted at once")
        return
    # Everybody finishes: nothing may be left locked
    for _ in range(10*len(reqs) + 10):
        active = [r for r in reqs if r.fired and r.held]
        if not active: break
        r = rng.choice(active)
        release(r, sorted(r.held))
        if not compare("while finishing"): return
    left = [r for r in reqs if not r.fired]
    m.check(not left, 'starved', "{} requests never granted although everybody released", len(left))
    for k in range(Np):
        box = []
        p.lock(k).addCallback(box.append)
        m.count('all_free_checks')
        m.check(len(box) == 1, 'lock-left', "position {} is still locked after everybody released", k)
