"""C37: a per-generation callback can stop a run or fail without harm."""
import random, os, tempfile, shutil
import numpy as np
from twisted.python.failure import Failure
from rv import decases, lab, sim
from rv.lab import POLICIES, norm, Boom, INF
from rv.sim import Population, DifferentialEvolution, Hang, abort, reactor

LEVEL = 'fault_enumeration'
ROUNDS = 4
RULE = ("Cases are distinct by configuration, what the callback does and in which generation; non-trivial when it did it. "
        "Every generation of a small run is enumerated for each kind.")
NEED = ['raised', 'shutdown', 'population', 'enter', 'reactor', 'plain', 'in_last_generation', 'members_compared', 'new_runs', 'saved', 'aborted_later', 'with_report_in_progress',
        'truthy_results']
HOWS = ['raise', 'shutdown', 'population', 'enter', 'reactor', 'plain']


def cases(tier, seed):
    rng = random.Random(seed*73 + 37)
    out = []
    for how in HOWS:
        for at in range(4):
            for policy in ('sync', 'fifo', 'hold', 'lifo'):
                out.append(dict(seed=seed*100357 + len(out), Nd=2, Np=4, bounds='wide', CR=0.8, F=0.5, randomBase=False, adaptive=True, maxiter=4, bitterEnd=True,
                                objective='noise', constrained=0, policy=policy, how=how, at=at, slow=False))
    n = 260 if tier == 'quick' else 3000
    for k, c in enumerate(decases.configs(seed + 77, n, policies=POLICIES + ['sync'], objectives=['noise', 'better', 'weird', 'sphere', 'ties'],
                                          _Np=[4, 6, 10], _maxiter=[1, 2, 4], _constrained=[0, 0, 0.4], _slow=[True, False], _xSSE=[False, True])):
        c['how'] = HOWS[k % len(HOWS)]
        c['bitterEnd'] = True
        c['at'] = rng.randrange(c['maxiter'])
        out.append(c)
    return out


def run_case(params, m):
    how, at = params['how'], params['at']
    ref = []
    error = Boom("trouble in generation {}".format(at))
    state = {}
    reports = [0]

    def onGeneration(run, kg):
        if kg != at: return
        state['evals'] = len(run.ev.evals)
        state['members'] = [(i, np.array(i.values, dtype=float), norm(i.SSE)) for i in run.p]
        if reports[0]: m.count('with_report_in_progress')
        if kg == params['maxiter'] - 1: m.count('in_last_generation')
        m.count('raised' if how == 'raise' else how)
        if how == 'raise': raise error
        if how == 'shutdown': run.de.shutdown()
        elif how == 'population': run.p.abort()
        elif how == 'enter': sim.enter()
        elif how == 'reactor': reactor.fireSystemEvent('shutdown')

    run = decases.build(m, params, {'select', 'account'}, onGeneration=onGeneration,
                        constraint=decases.half_plane(ref, params['constrained']) if params['constrained'] else None)
    ref.append(run)
    lb, p = run.lab, run.p

    def callback(values, counter, SSE):
        if params['slow'] and lb.policy != 'sync' and lb.rng.random() < 0.5:
            reports[0] += 1
            def over(op): reports[0] -= 1
            return lb.defer('report', None, onFire=over)
    p.addCallback(callback)
    run.setup()

    # What the callback returns does not matter
    results = [None, True, 0, "x", INF]
    inner = run.generationDone
    def done(kg):
        inner(kg)
        r = run.rng.choice(results)
        if r: m.count('truthy_results')
        return r
    run.generationDone = done

    box = []
    d = run.start()
    try: result = lb.drive(d, maxEvents=6000 + 30*params['Np']*(params['maxiter'] + 2), stall=2000)
    except Hang as e:
        m.bad('hang', "the run does not end after its callback did '{}' in generation {}: {}", how, at, e)
        return
    if not m.check('evals' in state, 'not-called', "the callback was not called for generation {}", at): return
    ended = how != 'plain'
    if how == 'raise':
        ok = isinstance(result, Failure) and result.value is error
        m.check(ok, 'result', "the run's Deferred gave {!r} although its callback raised", result)
    else: m.check(result is p, 'result', "the run's Deferred gave {!r} after '{}' in its callback", result, how)
    if ended:
        m.check(len(run.ev.evals) == state['evals'], 'goes-on', "{} evaluations after the callback did '{}' in generation {}", len(run.ev.evals) - state['evals'], how, at)
        m.check(run.kgs == list(range(at + 1)), 'callback-again', "callback was called for generations {} after '{}' in {}", run.kgs, how, at)
        for k, i in enumerate(p):
            m.count('members_compared')
            i0, v, s = state['members'][k]
            m.check(i is i0 and np.array_equal(np.asarray(i.values, dtype=float), v) and norm(i.SSE) == s, 'member', "member {} is not what it was when the callback did '{}'", k, how)
    else: m.check(run.kgs == list(range(params['maxiter'])), 'generations', "callback was called for generations {}", run.kgs)
    for op in list(lb.ops): lb.fire(op)
    lb.settle(1500)
    if ended: m.check(len(run.ev.evals) == state['evals'] and len(p) == params['Np'], 'goes-on', "something went on after the callback did '{}'", how)
    m.check(not sim.logErrors.errors, 'unhandled-error', "'{}' in the callback left an error nobody handled: {}", how, sim.logErrors.errors[:1])

    # Nothing is left locked, and what is left can be saved and run further
    d = p.lock(*range(params['Np'])) if p.running else None
    if d is not None:
        m.check(d.called, 'locked', "positions were left locked after '{}' in the callback", how)
        p.release()
    p.setConstraints()
    n = [0]
    def func(values, **kw):
        if values is None: return
        n[0] += 1
        return 1e6 + n[0]
    if how in ('enter', 'reactor') or run.rng.random() < 0.3: abort.restart()
    if how in ('population', 'enter') or run.rng.random() < 0.3:
        m.count('saved')
        tmp = tempfile.mkdtemp(prefix='rv-c37-')
        try:
            path = os.path.join(tmp, 'p.dat')
            p.save(path)
            p2 = Population.load(path, func=func)
        finally: shutil.rmtree(tmp)
        m.check([(list(i.values), norm(i.SSE)) for i in p2] == [(list(i.values), norm(i.SSE)) for i in p], 'loaded', "population saved after '{}' in the callback has other members", how)
        p = p2
    else: p.func = func
    lb.phase = 'later'
    later = run.rng.random() < 0.2
    kgs = []
    de = DifferentialEvolution(p, logHandle=None, maxiter=2, bitterEnd=True)
    def func2(kg):
        kgs.append(kg)
        if later: sim.enter()
    try: r = lb.drive(de(func2), stall=2000)
    except Hang as e:
        m.bad('new-run', "a new run after '{}' in the callback does not end: {}", how, e)
        return
    m.count('new_runs')
    if later:
        m.count('aborted_later')
        m.check(r is p and kgs == [0] and n[0] == len(p), 'new-run-abort', "a new run aborted in its first generation after '{}' gave {!r}, generations {}, {} evaluations", how, r, kgs, n[0])
    else: m.check(r is p and kgs == [0, 1] and n[0] == 2*len(p), 'new-run', "a new run after '{}' in the callback gave {!r}, generations {}, {} evaluations", how, r, kgs, n[0])
    m.sig(params, lb.sigEvents)
    m.nontrivial = True
