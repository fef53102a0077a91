"""C20: history membership matches the population, also across save and resume."""
import random, os, sys, subprocess, tempfile, shutil, json
import numpy as np
from rv import decases
from rv.histmon import HistoryMonitor
from rv.lab import POLICIES, norm, Lab, Evaluator
from rv.sim import history, Population, Individual, DifferentialEvolution, drain, reactor

History = history.History

LEVEL = 'exploration'
ROUNDS = 4
RULE = ("Executions are distinct by kind, configuration and event or operation sequence; non-trivial "
        "when at least one member was replaced and its record had to change class.")
NEED = ['membership_comparisons', 'member_records', 'former_records', 'never_records', 'blacklisted_members',
        'resumed_from_other_process', 'duplicate_members', 'replacements', 'repeated_setups']


class Pop(Population):
    Np_min = 4


def cases(tier, seed):
    q = tier == 'quick'
    out = []
    for c in decases.configs(seed, 160 if q else 2000, policies=POLICIES + ['sync'],
                             objectives=['noise', 'corner', 'better', 'ties', 'plateau'],
                             _Nd=[1, 2, 3], _Np=[5, 8, 12, 20], _maxiter=[2, 4, 7], _complain=[0, 0, 0.3],
                             _histExtra=[3, 30, 2000], _bounds=['wide', 'unit', 'tight'], _xSSE=[False, False, True]):
        c['kind'] = 'run'
        out.append(c)
    rng = random.Random(seed*13 + 20)
    for k in range(200 if q else 2500):
        out.append(dict(kind='ops', seed=seed*100003 + 30000 + k, Nd=rng.choice([1, 2, 3]), Np=rng.choice([4, 6, 10]),
                        ops=rng.choice([15, 40, 80]), dup=rng.choice([0, 0.3]), histExtra=rng.choice([1, 4, 2000]),
                        quiesce=rng.choice([0.1, 0.5, 1.0]), saves=rng.choice([0, 0, 0.1]), rebound=rng.choice([0, 0.5]), again=rng.choice([0, 0, 0.05])))
    # Enough records that there are too many pairs to look at all of them
    for k in range(4 if q else 60):
        out.append(dict(kind='ops', seed=seed*100003 + 50000 + k, Nd=rng.choice([1, 2, 3]), Np=rng.choice([6, 10]),
                        ops=400, dup=rng.choice([0, 0.1]), histExtra=rng.choice([150, 200]),
                        quiesce=0.05, saves=0, rebound=0, again=0))
    for k in range(24 if q else 200):
        out.append(dict(kind='process', seed=seed*100003 + 60000 + k, Nd=rng.choice([1, 2, 3]), Np=rng.choice([6, 10]),
                        gens=rng.choice([0, 2, 4]), ops=20, rebound=(k % 3 == 2)))
    return out


def run_case(params, m):
    dict(run=run_run, ops=run_ops, process=run_process)[params['kind']](params, m)


def run_run(params, m):
    rng2 = random.Random(params['seed'] + 9)
    pop = {}
    if params['complain']: pop['complaintCallback'] = lambda i, x: m.count('blacklisted_members')
    p2 = dict(params)
    if params['objective'] == 'corner': p2['objective'] = 'noise'
    run = decases.build(m, p2, set(), pop=pop)
    if params['objective'] == 'corner':
        # Best at one corner, so members pile up on identical values
        run.ev.objective = lambda e: float(np.sum(run.maxs - e.values))
    p = run.p
    p.history = History(run.names, N_max=params['Np'] + params['histExtra'])
    mon = HistoryMonitor(m, p)
    if params['complain']:
        p.addCallback(lambda v, c, SSE: 'bad' if rng2.random() < params['complain'] else None)
    run.setup()
    for v, s in run.M: mon.member(s, v)
    orig = run.ev.onFinish
    def finished(e):
        if e.phase == 'run' and e.cur is not None:
            t = norm(p[e.cur.kt].SSE)
            if e.SSE < t:
                mon.member(e.SSE, e.values)
                m.count('replacements')
            elif not params['xSSE']: mon.loser(e.SSE, e.values)
        orig(e)
    run.ev.onFinish = finished
    run.run()
    run.lab.settle()
    drain(5000)
    if len({tuple(i.values) for i in p}) < len(p): m.count('duplicate_members')
    mon.compare("after a run", exactLosers=params['histExtra'] > 1000)
    m.sig(params, run.lab.sigEvents)
    m.nontrivial = m.counts.get('replacements', 0) > 0
    m.notes = dict(records=len(p.history))


class Ops(object):
    """Random replacements on a population with the monitor alongside."""
    def __init__(self, m, p, rng, mon, dup=0):
        self.m, self.p, self.rng, self.mon, self.dup = m, p, rng, mon, dup

    def individual(self):
        rng, p = self.rng, self.p
        if rng.random() < self.dup:
            i0 = rng.choice(list(p))
            i = Individual(p, np.array(i0.values))
            i.SSE = i0.SSE
            return i
        values = np.array([rng.uniform(-1, 1) for _ in range(p.Nd)])
        i = Individual(p, p.pm.fromUnity(np.abs(values)))
        i.SSE = rng.choice([rng.uniform(0, 10), float(rng.randint(0, 4))])
        return i

    def one(self):
        rng, p, m, mon = self.rng, self.p, self.m, self.mon
        r = rng.random()
        if r < 0.45:
            i = self.individual()
            p[rng.randrange(len(p))] = i
            mon.member(i.SSE, i.values)
            m.count('replacements')
        elif r < 0.6:
            i = self.individual()
            p.push(i)
            mon.member(i.SSE, i.values)
            m.count('replacements')
        elif r < 0.7:
            i = rng.choice(list(p))
            if np.isfinite(float(i.SSE)): m.count('blacklisted_members')
            i.blacklist()
        else:
            i = self.individual()
            p.history.add(i, neverInPop=True)
            mon.loser(i.SSE, i.values)


def run_ops(params, m):
    rng = random.Random(params['seed'])
    L = Lab(rng, 'sync')
    ev = Evaluator(L, lambda e: rng.uniform(1, 50))
    Nd = params['Nd']
    bounds = [(-5.0, 5.0)]*Nd
    cls = type('P', (Population,), dict(Np_min=params['Np'], Np_max=params['Np']))
    if params['saves']: cls = Pop
    p = cls(ev, ["x{}".format(k) for k in range(Nd)], bounds, popsize=max(1, params['Np']//Nd))
    p.history = History(p.pm.names, N_max=p.Np + params['histExtra'])
    L.drive(p.setup())
    drain(2000)
    mon = HistoryMonitor(m, p)
    for i in p: mon.member(i.SSE, i.values)
    ops = Ops(m, p, rng, mon, params['dup'])
    scratch = tempfile.mkdtemp(prefix='rv-') if params['saves'] else None
    try:
        for n in range(params['ops']):
            ops.one()
            if len({tuple(i.values) for i in ops.p}) < len(ops.p): m.count('duplicate_members')
            if params['again'] and rng.random() < params['again']:
                # All members are new after another setup
                if rng.random() < 0.5: drain(3000)
                L.drive(p.setup())
                for i in p: mon.member(i.SSE, i.values)
                m.count('repeated_setups')
            if rng.random() < params['quiesce']:
                drain(3000)
                mon.compare("after operation {}".format(n))
            if params['saves'] and rng.random() < params['saves']:
                if rng.random() < 0.5: drain(3000)
                else: m.count('saved_with_operations_pending')
                path = os.path.join(scratch, 'p.dat')
                p.save(path)
                kw = {}
                if rng.random() < params['rebound']:
                    bounds = [(lo + 0.3*rng.random(), hi - 0.3*rng.random()) for lo, hi in bounds]
                    kw['bounds'] = bounds
                p = ops.p = mon.p = Population.load(path, func=ev, **kw)
                if kw:
                    for i in p: mon.member(i.SSE, i.values)
                m.count('resumed')
                drain(3000)
                mon.compare("after loading")
            if m.violations: break
    finally:
        if scratch: shutil.rmtree(scratch)
    drain(3000)
    mon.compare("at the end")
    m.sig(params, n)
    m.nontrivial = m.counts.get('replacements', 0) > 0


def run_process(params, m):
    rng = random.Random(params['seed'])
    scratch = tempfile.mkdtemp(prefix='rv-')
    try:
        path = os.path.join(scratch, 'p.dat')
        env = dict(os.environ, PYTHONHASHSEED=str(1 + params['seed'] % 4000))
        subprocess.run([sys.executable, '-m', 'rv.child_pop', path, str(params['seed']), str(params['Nd']),
                        str(params['Np']), str(params['gens'])], check=True, env=env, timeout=120,
                       cwd=os.path.dirname(os.path.dirname(os.path.dirname(os.path.abspath(__file__)))),
                       stdout=subprocess.DEVNULL)
        kw = {}
        if params['rebound']: kw['bounds'] = [(-1.0, 1.0)]*params['Nd']
        L = Lab(rng, 'sync')
        ev = Evaluator(L, lambda e: rng.uniform(0.001, 3))
        p = Population.load(path, func=ev, **kw)
        saved = json.load(open(path + '.json'))
    finally: shutil.rmtree(scratch)
    mon = HistoryMonitor(m, p)
    m.count('resumed_from_other_process')
    # Whatever was recorded before is taken as given
    h = p.history
    for k in h.K:
        r = tuple(float(x) for x in h.X[int(k)])
        if k in h.Kn: mon.losers[r] += 1
        else: mon.ever[r] += 1
    for i in p: mon.member(i.SSE, i.values)
    drain(3000)
    mon.compare("after resuming in another process")
    ops = Ops(m, p, rng, mon, 0.1)
    for n in range(params['ops']):
        ops.one()
        drain(3000)
        mon.compare("after operation {} on a resumed population".format(n))
        if m.violations: break
    if not m.violations:
        for i in p:
            if not np.isfinite(float(i.SSE)): i.SSE = 100.0; p.history.add(i); mon.member(i.SSE, i.values)
        del p.KS
        L.phase = 'run'
        M = [norm(i.SSE) for i in p]
        de = DifferentialEvolution(p, logHandle=None, maxiter=2, bitterEnd=True)
        ev.onFinish = lambda e: (mon.loser(e.SSE, e.values), mon.member(e.SSE, e.values))
        L.drive(de())
        drain(3000)
        m.count('resumed_runs')
        mon.compare("after a resumed run")
    m.sig(params)
    m.nontrivial = m.counts.get('replacements', 0) > 0
