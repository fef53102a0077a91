"""C11: best, ranking and worst-eviction always reflect the current SSEs."""
import random, os, tempfile, shutil
import numpy as np
from rv import lab
from rv.lab import norm, INF
from rv.sim import Population, drain

LEVEL = 'exploration'
ROUNDS = 8
RULE = ("Operation sequences are distinct by their operations; non-trivial when the best or the worst member "
        "changed at least once and was asked for before and after.")
NEED = ['rankings_compared', 'pushes', 'assignments', 'blacklistings', 'loads', 'best_changed', 'ties_at_top', 'setups_blank',
        'evaluated_in_place', 'membership']


def cases(tier, seed):
    n = 420 if tier == 'quick' else 5000
    rng = random.Random(seed*131 + 9)
    return [dict(seed=seed*100003 + k, Np=rng.choice([4, 5, 8, 20]), Nd=rng.choice([1, 2, 3]), blank=rng.random() < 0.15,
                 values=rng.choice(['noise', 'few', 'weird', 'down']), ask=rng.choice([0.2, 0.6, 1.0]),
                 ops=rng.choice([5, 15, 40])) for k in range(n)]


def run_case(params, m):
    rng = random.Random(params['seed'])
    n = [0]
    def SSE():
        n[0] += 1
        v = params['values']
        if v == 'few': return float(rng.randint(0, 4))
        if v == 'down': return 1000.0/n[0]
        if v == 'weird': return rng.choice([0, 0.0, 5, 1e-300, 1e300, np.float32(3.5), np.float64(2.5), rng.uniform(0, 5), INF, None, float('nan')])
        return rng.uniform(0, 100)
    def func(values):
        return rng.uniform(50, 100)
    Nd = params['Nd']
    p = lab.small_population(params['Np'])(func, ["x{}".format(k) for k in range(Nd)], [(-5, 5)]*Nd)
    lb = lab.Lab(rng, 'sync')
    lb.drive(p.setup(blank=params['blank']))
    if params['blank']: m.count('setups_blank')
    model = list(p)                     # identity of the member at each position
    changed = [0]
    def compare(p, model, when):
        m.count('rankings_compared')
        m.check(len(p) == params['Np'] == len(model), 'length', "{}: {} members", when, len(p))
        got = list(p)
        if not m.check(all(a is b for a, b in zip(got, model)), 'members', "{}: positions {} hold other members than put there", when,
                       [k for k, (a, b) in enumerate(zip(got, model)) if a is not b]): return False
        SSEs = [norm(i.SSE) for i in model]
        SSEs = [INF if s < 0 else s for s in SSEs]
        least = min(SSEs)
        if SSEs.count(least) > 1: m.count('ties_at_top')
        order = [0, 1, 2]
        rng.shuffle(order)
        for what in order:
            if what == 0:
                b = p.best()
                ok = m.check(any(b is i for i in model) and norm(b.SSE) == least, 'best', "{}: best has SSE {} but the lowest is {}", when, b.SSE, least)
            elif what == 1:
                s = p.iSorted
                ok = m.check(sorted(map(id, s)) == sorted(map(id, model)), 'sorted-members', "{}: sorted list has other members", when)
                x = [norm(i.SSE) for i in s]
                ok = ok and m.check(x == sorted(x), 'sorted-order', "{}: sorted list has SSEs {}", when, x)
            else:
                k = p.kBest
                ok = m.check(SSEs[k] == least, 'best-index', "{}: best index points at SSE {} but the lowest is {}", when, SSEs[k], least)
            if not ok: return False
        k = rng.randrange(len(model))
        m.check(p[k] is model[k] and bool(p), 'item', "{}: item {} is another individual than the member there", when, k)
        m.count('membership')
        other = p.spawn(np.array([9.0]*Nd)); other.SSE = 5E6
        m.check(model[k] in p and other not in p, 'in', "{}: 'in' says {} of a member and {} of another individual", when, model[k] in p, other in p)
        m.check(p[int(p.kBest)] is p.best(), 'best-index', "{}: best index does not point at the best member", when)
        return True
    compare(p, model, "after setup")
    log = []
    tmp = None
    last = min(norm(i.SSE) for i in model)
    try:
        for _ in range(params['ops']):
            op = rng.choice(['set', 'set', 'push', 'push', 'blacklist', 'save', 'inplace', 'again'])
            i = p.spawn(np.array([rng.uniform(-5, 5) for _ in range(Nd)]))
            i.SSE = SSE()
            SSEs = [norm(x.SSE) for x in model]
            if op == 'set':
                k = rng.randrange(len(model))
                if rng.random() < 0.3: k = int(np.argmin(SSEs))
                if rng.random() < 0.2: k = int(np.argmax(SSEs))
                p[k] = i
                model[k] = i
                m.count('assignments')
            elif op == 'push':
                before = list(model)
                p.push(i)
                m.count('pushes')
                now = list(p)
                diff = [k for k in range(min(len(now), len(before))) if now[k] is not before[k]]
                if not m.check(len(now) == len(before) and len(diff) == 1 and now[diff[0]] is i, 'push',
                               "push changed positions {}", diff): return
                m.check(SSEs[diff[0]] == max(SSEs), 'push-evicts', "push evicted SSE {} although the worst was {}", SSEs[diff[0]], max(SSEs))
                model[diff[0]] = i
            elif op == 'blacklist':
                k = rng.choice([int(np.argmin(SSEs)), rng.randrange(len(model))])
                model[k].blacklist()
                m.count('blacklistings')
                m.check(norm(model[k].SSE) == INF, 'blacklist', "blacklisted individual has SSE {}", model[k].SSE)
            elif op == 'inplace':
                # The documented way to change a member: give it another SSE
                # and invalidate the sorting
                model[rng.randrange(len(model))].SSE = SSE()
                if rng.random() < 0.5: del p.KS
                else: del p.KS; del p.iSorted
                m.count('evaluated_in_place')
            elif op == 'again':
                # The same individual set again where it is
                k = rng.randrange(len(model))
                p[k] = model[k]
            elif op == 'save':
                if rng.random() < 0.6: continue
                if tmp is None: tmp = tempfile.mkdtemp(prefix='rv-c11-')
                path = os.path.join(tmp, 'p.dat')
                old = [(list(x.values), norm(x.SSE)) for x in model]
                p.save(path)
                p = Population.load(path, func=func)
                model = list(p)
                m.check([(list(x.values), norm(x.SSE)) for x in model] == old, 'load', "loaded population has other members")
                m.count('loads')
            log.append(op)
            now = min(norm(x.SSE) for x in model)
            if now != last:
                m.count('best_changed')
                changed[0] += 1
            last = now
            if rng.random() < params['ask']:
                if not compare(p, model, "after " + ",".join(log[-4:])): return
            if rng.random() < 0.3: drain(rng.randint(1, 50))
    finally:
        if tmp: shutil.rmtree(tmp)
    compare(p, model, "at the end")
    m.sig(params, log)
    m.nontrivial = changed[0] > 0
    m.notes = dict(ops=log)
