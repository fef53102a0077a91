"""C10: setup yields exactly the configured number of valid, evaluated members."""
import random
import numpy as np
from rv import lab
from rv.lab import POLICIES, Lab, Evaluator, norm, INF
from rv.sim import Population

LEVEL = 'exploration'
CASE_CPU = 120
ROUNDS = 3
RULE = ("Setups are distinct by configuration and order of events; non-trivial when evaluations overlapped, "
        "failed, or the setup was repeated.")
NEED = ['setups', 'members_verified', 'failed_evaluations', 'hypercubes', 'hypercube_strata', 'announcements',
        'repeated_setups', 'blank_setups', 'reached_parallel_limit', 'rejected_candidates', 'candidates_fresh']


def cases(tier, seed):
    n = 360 if tier == 'quick' else 3600
    rng = random.Random(seed*997 + 5)
    out = []
    for k in range(n):
        Nd = rng.choice([1, 2, 2, 3, 4, 6, 10])
        out.append(dict(
            seed=seed*100003 + k, Nd=Nd, popsize=rng.choice([None, None, 1, 3, 5, 12, 7.0]) if k % 40 else 60,
            policy=(POLICIES + ['sync'])[k % (len(POLICIES)+1)], bounds=rng.choice(['wide', 'unit', 'mixed', 'int']),
            fail=rng.choice([0, 0, 0, 0.1, 0.4, 0.8]), uniform=rng.random() < 0.2, blank=rng.random() < 0.1,
            repeat=rng.choice([1, 1, 2, 3]), slowReports=rng.random() < 0.3, trend=rng.choice(['noise', 'down', 'up', 'ties']),
            reject=rng.choice([0, 0, 0, 0.5, 0.9])))
        # These would take too long
        if k % 40 == 0 or out[-1]['fail'] == 0.8: out[-1]['reject'] = min(0.5, out[-1]['reject'])
        if k % 40 == 0: out[-1]['fail'] = min(0.4, out[-1]['fail'])
    return out


def run_case(params, m):
    rng = random.Random(params['seed'])
    lb = Lab(rng, params['policy'])
    Nd = params['Nd']
    names = ["x{}".format(k) for k in range(Nd)]
    bounds = lab.bounds_for(rng, params['bounds'], Nd)
    n = [0]
    def objective(e):
        n[0] += 1
        if rng.random() < params['fail']:
            m.count('failed_evaluations')
            return rng.choice([None, INF, float('nan'), np.float64('nan'), np.inf])
        t = params['trend']
        if t == 'down': return 1e4/(n[0] + 1.0)
        if t == 'up': return 5.0 + n[0]
        if t == 'ties': return float(rng.randint(0, 3))
        return rng.uniform(0, 100)
    ev = Evaluator(lb, objective)
    peak = [0]
    def onStart(e):
        x = len(ev.inFlight)
        peak[0] = max(peak[0], x)
        m.check(x <= 12, 'too-parallel', "{} evaluations unfinished at once during setup", x)
    ev.onStart = onStart
    kw = {}
    if params['popsize']: kw['popsize'] = params['popsize']
    if params['reject']:
        # Rejects that fraction of all vectors, always the same ones
        def constraint(x):
            ok = (sum(x[n]*(k+1) for k, n in enumerate(names))*7919.0/(bounds[0][1] - bounds[0][0])) % 1.0 >= params['reject']
            if not ok: m.count('rejected_candidates')
            return ok
        kw['constraints'] = [constraint]
    p = Population(ev, names, bounds, **kw)
    Np = max(20, min(int(params['popsize'] or 10)*Nd, 500))
    announced = []
    def callback(values, counter, SSE):
        m.count('announcements')
        lb.event('report')
        announced.append((len(p), tuple(float(x) for x in values), norm(SSE)))
        if params['slowReports'] and params['policy'] not in ('sync',): return lb.defer('report', None)
    p.addCallback(callback)
    members = set()           # of all setups: a slow report may be late
    for attempt in range(params['repeat']):
        del announced[:]
        first = len(ev.evals)
        blank = params['blank'] and attempt % 2 == 0
        result = lb.drive(p.setup(uniform=params['uniform'], blank=blank), maxEvents=100000)
        if attempt: m.count('repeated_setups')
        m.count('setups')
        m.check(result is True, 'setup-result', "setup fired with {!r}", result)
        m.check(len(p) == Np, 'count', "{} members instead of {}", len(p), Np)
        evals = ev.evals[first:]
        if blank:
            m.count('blank_setups')
            m.check(not evals and not ev.noneCalls, 'blank-evaluated', "blank setup evaluated {} individuals", len(evals))
            for i in p: m.check(norm(i.SSE) == INF, 'blank-SSE', "blank member has SSE {}", i.SSE)
        else:
            byValues = {}
            for e in evals: byValues.setdefault(tuple(e.values), []).append(e)
            used = set()
            for k, i in enumerate(p):
                v = tuple(float(x) for x in i.values)
                es = [e for e in byValues.get(v, []) if e.id not in used]
                m.count('members_verified')
                if not m.check(bool(es), 'unevaluated-member', "member {} was not evaluated in this setup", v): break
                used.add(es[0].id)
                s = float(i.SSE)
                m.check(np.isfinite(s), 'invalid-member', "member {} has SSE {}", k, i.SSE)
                m.check(s == norm(es[0].raw), 'wrong-SSE', "member {} has SSE {} but evaluated to {}", k, s, es[0].raw)
            # Each candidate is a fresh one
            m.count('candidates_fresh', len(byValues))
            again = [v for v in byValues if len(byValues[v]) > 1]
            m.check(not again, 'not-fresh', "{} vectors were candidates more than once, such as {}", len(again), again[:1])
            ok = [e for e in evals if np.isfinite(norm(e.raw))]
            m.count('surplus_candidates', len(ok) - len(p))
            members |= {tuple(float(x) for x in i.values) for i in p}
            for nMembers, v, s in announced:
                if nMembers and v not in members:
                    m.bad('announced-nonmember', "an individual with SSE {} was announced but not admitted, {} members had been", s, nMembers)
        if not params['uniform'] and (not params['fail'] or blank) and not params['reject']:
            m.count('hypercubes')
            lo = np.array([float(b[0]) for b in bounds]); hi = np.array([float(b[1]) for b in bounds])
            U = (np.array([i.values for i in p], dtype=float) - lo)/(hi - lo)
            for k in range(Nd):
                strata = sorted(np.minimum(np.floor(U[:, k]*Np + 1e-9), Np-1).astype(int))
                m.count('hypercube_strata', len(set(strata)))
                if not m.check(strata == list(range(len(p))), 'not-latin', "parameter {}: {} of {} strata are taken",
                               k, len(set(strata)), Np): break
    lb.settle()
    if peak[0] >= 11: m.count('reached_parallel_limit')
    m.sig(params, lb.sigEvents)
    m.nontrivial = lb.maxInFlight > 1 or params['fail'] > 0 or params['repeat'] > 1
    m.notes = dict(Np=Np, evaluations=len(ev.evals), peak_unfinished=peak[0])
