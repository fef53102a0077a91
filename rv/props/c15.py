"""C15: a fatal evaluation stops everything and never enters the population."""
import io, random
import numpy as np
from rv import decases, sim
from rv.lab import POLICIES, norm, Boom, INF
from rv.sim import DifferentialEvolution, Hang, abort

LEVEL = 'fault_enumeration'
ROUNDS = 6
RULE = ("Cases are distinct by configuration, form and place of the fatal result and event order; non-trivial when the fatal "
        "result was delivered. Small configurations have it at every evaluation in every form.")
NEED = ['fatal_results', 'fatal_in_setup', 'fatal_in_run', 'fatal_with_others_in_flight', 'fatal_twice', 'members_compared',
        'fatal_raise', 'fatal_fail', 'fatal_negative', 'reports_watched', 'resumed_after_fatal',
        'constraint_raised_setup', 'constraint_raised_run', 'constraint_with_others_in_flight', 'resumed_after_constraint', 'trouble_logged']

FORMS = ['raise', 'fail', '-1', '-1e-300', '-inf', 'np-2.5', 'int-7', 'abort', 'stop', 'np32']


def fatal(form):
    """What the evaluation gives: an Exception or a negative number."""
    return {'raise': Boom("fatal"), 'fail': Boom("fatal"), '-1': -1.0, '-1e-300': -1e-300, '-inf': -INF,
            'np-2.5': np.float64(-2.5), 'int-7': -7, 'abort': abort.AbortError(), 'stop': StopIteration(),
            'np32': np.float32(-0.25)}[form]


def cases(tier, seed):
    rng = random.Random(seed*23 + 5)
    out = []
    base = dict(Nd=2, Np=4, bounds='wide', CR=0.8, F=0.5, randomBase=False, adaptive=True, maxiter=2, bitterEnd=True,
                objective='noise', twice=0, constrained=0, xSSE=False, slow=False)
    n = 0
    for policy in (['fifo', 'hold', 'sync'] if tier == 'quick' else POLICIES + ['sync']):
        for phase in ('setup', 'run'):
            for at in range(8 if phase == 'run' else 4):
                for form in FORMS:
                    out.append(dict(base, seed=seed*100003 + 50000 + n, policy=policy, setupPolicy=policy, phase=phase, at=at, form=form))
                    n += 1
    m = 420 if tier == 'quick' else 5000
    for k, c in enumerate(decases.configs(
            seed + 400, m, policies=POLICIES + ['sync'], objectives=['noise', 'better', 'weird', 'sphere', 'ties'],
            _Np=[4, 6, 10, 20], _maxiter=[1, 3, 5], _constrained=[0, 0, 0.4], _form=FORMS, _twice=[0, 0, 1, 3],
            _xSSE=[False, True], _slow=[False, True], _setupPolicy=POLICIES + ['sync'])):
        c['phase'] = 'setup' if k % 4 == 3 else 'run'
        c['at'] = rng.randrange(c['Np'] if c['phase'] == 'setup' else int(1 + 0.7*c['Np']*c['maxiter']))
        out.append(c)
    for k, c in enumerate(decases.configs(
            seed + 500, 120 if tier == 'quick' else 1200, policies=POLICIES + ['sync'], objectives=['noise', 'better', 'weird', 'sphere', 'ties'],
            _Np=[4, 6, 10], _maxiter=[1, 3], _xSSE=[False, True], _setupPolicy=POLICIES + ['sync'])):
        c['raising'] = True
        c['phase'] = 'setup' if k % 4 == 3 else 'run'
        c['at'] = rng.randrange(c['Np'] if c['phase'] == 'setup' else c['Np']*c['maxiter'])
        out.append(c)
    return out


def run_raising(params, m):
    """A constraint raises."""
    n, state = [0], {}
    log = io.StringIO()
    log.close = lambda: None
    def constraint(d):
        if run.lab.phase != params['phase'] and not (params['phase'] == 'setup' and run.lab.phase != 'run'): return True
        n[0] += 1
        if n[0] - 1 == params['at']:
            state['gen'], state['evals'], state['flying'] = run.gen, len(run.ev.evals), len(run.ev.inFlight)
            raise Boom("trouble with a constraint")
        return True
    run = decases.build(m, params, set(), constraint=constraint)
    lb, ev, p = run.lab, run.ev, run.p
    setup = lb.drive(p.setup(), maxEvents=20000)
    if params['phase'] == 'setup':
        if not state: return
        m.count('constraint_raised_setup')
        m.check(setup is not True, 'setup-result', "setup fired True although a constraint raised")
        lb.settle()
        m.check(len(ev.evals) == state['evals'], 'setup-goes-on', "{} evaluations were started after a constraint raised", len(ev.evals) - state['evals'])
    else:
        if not m.check(setup is True, 'setup-result', "setup fired {!r}", setup): return
        run.takeSnapshot()
        outcomes = [[x] for x in run.M]
        old = ev.onFinish
        def finished(e):
            old(e)
            if e.cur is not None and e.phase == 'run': outcomes[e.cur.kt].append(run.M[e.cur.kt])
        ev.onFinish = finished
        try: result = lb.drive(run.start(logHandle=log), maxEvents=6000 + 30*params['Np']*(params['maxiter'] + 2))
        except Hang as e:
            m.bad('hang', "the run does not end after a constraint raised: {}", e)
            return
        m.check(result is p, 'result', "the run's Deferred fired with {!r}", result)
        if not state: return
        m.count('constraint_raised_run')
        if state['flying']: m.count('constraint_with_others_in_flight')
        for op in list(lb.ops): lb.fire(op)
        lb.settle(1500)
        m.check(len(run.kgs) <= state['gen'] and run.gen == state['gen'], 'generation-callback', "{} generations were announced although a constraint raised in generation {}",
                len(run.kgs), state['gen'])
        m.check(not any(e.cur is not None and e.cur.gen > state['gen'] for e in ev.evals), 'next-generation', "evaluations of later generations after a constraint raised")
        m.check(len(p) == params['Np'], 'size', "{} members", len(p))
        for k, i in enumerate(p):
            m.count('members_compared')
            m.check(any(run.sameAs(i, *x) for x in outcomes[k]), 'other-member', "position {} holds SSE {}, not an outcome of its own challenges", k, i.SSE)
        m.count('trouble_logged')
        m.check('trouble with a constraint' in log.getvalue(), 'not-logged', "the log does not tell that a constraint raised: {}", log.getvalue()[-200:])
    m.check(not sim.logErrors.errors, 'unhandled-error', "a constraint that raised left an error nobody handled: {}", sim.logErrors.errors[:1])
    # What is left can be used for a new run, after another setup if need be
    count = [0]
    def func(values, **kw):
        if values is not None: count[0] += 1
        return 1e6 + count[0]
    p.func = func
    p.setConstraints()
    lb.phase = 'later'
    if params['phase'] == 'setup':
        r = lb.drive(p.setup())
        m.check(r is True and len(p) == params['Np'], 'resume-setup', "another setup gave {!r} and {} members", r, len(p))
        count[0] = 0
    try: r = lb.drive(DifferentialEvolution(p, logHandle=None, maxiter=1, bitterEnd=True)(), stall=2000)
    except Hang as e: m.bad('resume', "a new run after a constraint raised does not end: {}", e)
    else: m.check(r is p and count[0] == len(p), 'resume', "a new run after a constraint raised gave {!r} with {} evaluations", r, count[0])
    m.count('resumed_after_constraint')
    m.sig(params, lb.sigEvents)
    m.nontrivial = True


def run_case(params, m):
    if params.get('raising'): return run_raising(params, m)
    ref = []
    run = decases.build(m, params, set(),
                        constraint=decases.half_plane(ref, params['constrained']) if params['constrained'] else None)
    ref.append(run)
    lb, ev, p = run.lab, run.ev, run.p
    plain = ev.objective
    n = [0]
    bad = []            # fatal evaluations
    delivered = []      # those that have finished
    after = []
    state = {}

    def objective(e):
        if e.phase != params['phase']: return plain(e)
        k = n[0]
        n[0] += 1
        if k == params['at'] or (bad and len(bad) <= params['twice']):
            bad.append(e)
            if len(bad) > 1: m.count('fatal_twice')
            x = fatal(params['form'])
            if params['form'] == 'raise' and lb.policy != 'sync':
                deliver(e)
                raise x
            return x
        return plain(e)
    ev.objective = objective

    def deliver(e):
        e.done = True
        delivered.append(e)
        m.count('fatal_results')
        m.count('fatal_in_' + params['phase'])
        kind = {'raise': 'raise', 'fail': 'fail', 'abort': 'fail', 'stop': 'fail'}.get(params['form'], 'negative')
        m.count('fatal_' + kind)
        if len(delivered) == 1:
            state['gen'] = run.gen
            others = [x for x in ev.inFlight if x is not e]
            if others: m.count('fatal_with_others_in_flight')
            state['others'] = len(others)

    oldFinish, oldStart = ev.onFinish, ev.onStart
    def finished(e):
        if e in bad: deliver(e)
        else: oldFinish(e)
    ev.onFinish = finished
    def started(e):
        if delivered:
            after.append(e)
            if params['phase'] == 'run':
                m.check(run.gen == state['gen'], 'next-generation', "an evaluation of generation {} was started after a fatal result in generation {}",
                        run.gen, state['gen'])
        oldStart(e)
    ev.onStart = started

    def harmless(v, SSE):
        return any(np.array_equal(e.values, v) and e.SSE == norm(SSE) for e in ev.evals
                   if e not in bad and not isinstance(e.raw, Exception))

    def callback(values, counter, SSE):
        lb.event('report')
        m.count('reports_watched')
        v = np.array(values, dtype=float)
        for e in bad:
            # The very same values may have been evaluated before, without trouble
            m.check(not np.array_equal(v, e.values) or harmless(v, SSE), 'fatal-reported', "the individual with the fatal evaluation was reported with SSE {}", SSE)
        m.check(not SSE < 0, 'negative-reported', "an SSE of {} was reported", SSE)
        if params['slow'] and lb.policy != 'sync' and lb.rng.random() < 0.5: return lb.defer('report', None)
    p.addCallback(callback)

    def members(when):
        if params['phase'] == 'run':
            m.check(len(p) == params['Np'], 'size', "{}: {} members", when, len(p))
        for k, i in enumerate(p):
            m.count('members_compared')
            v = np.asarray(i.values, dtype=float)
            for e in bad:
                m.check(not np.array_equal(v, e.values) or harmless(v, i.SSE), 'fatal-member', "{}: position {} holds the individual with the fatal evaluation", when, k)
            if params['phase'] == 'run':
                # As it was, or as its own finished challenge made it
                ok = any(run.sameAs(i, *x) for x in outcomes[k])
                m.check(ok, 'other-member', "{}: position {} holds SSE {}, not an outcome of its own challenges", when, k, i.SSE)
            else:
                m.check(harmless(v, i.SSE), 'other-member', "{}: member {} has SSE {} which its values did not evaluate to", when, k, i.SSE)

    setup = lb.drive(p.setup(), maxEvents=20000)
    if params['phase'] == 'setup':
        before = len(ev.evals)
        lb.settle()
        if not delivered: return
        m.check(setup is not True, 'setup-result', "setup fired True although an evaluation was fatal")
        limit = p.N_maxParallel + params['Np']
        m.check(len(after) == 0, 'setup-goes-on', "{} evaluations were started after the fatal one", len(after))
        members("after setup")
        before = len(ev.evals)
        lb.phase = 'later'
        de = DifferentialEvolution(p, logHandle=None, maxiter=2)
        r = lb.drive(de())
        m.check(r is p and len(ev.evals) == before, 'run-after-fatal-setup', "a run after the fatal setup gave {!r} and {} evaluations",
                r, len(ev.evals) - before)
    else:
        if not m.check(setup is True, 'setup-result', "setup without a fatal result fired {!r}", setup): return
        run.takeSnapshot()
        outcomes = [[x] for x in run.M]
        def settledOne(e, old=ev.onFinish):
            old(e)
            if e.phase == 'run' and e.cur is not None: outcomes[e.cur.kt].append(run.M[e.cur.kt])
        ev.onFinish = settledOne
        # Members of all but the last generation are of the past
        def generation(r, kg):
            for k in range(len(r.M)): outcomes[k] = [r.M[k]]
        run.cfg['onGeneration'] = generation
        try: result = lb.drive(run.start(), maxEvents=6000 + 30*params['Np']*(params['maxiter'] + 2))
        except Hang as e:
            m.bad('hang', "the run does not end after a fatal evaluation ({}): {}", params['form'], e)
            return
        m.check(result is p, 'result', "the run's Deferred fired with {!r}", result)
        if not delivered: return
        members("when the run's Deferred fired")
        for op in list(lb.ops): lb.fire(op)
        lb.settle(1500)
        members("after the last evaluation finished")
        m.check(len(run.kgs) <= state['gen'], 'generation-callback', "{} generations were announced although generation {} had a fatal evaluation",
                len(run.kgs), state['gen'])
        if params['seed'] % 4 == 0:
            # What is left can be used for a new run
            params2 = [0]
            p.func = lambda values, **kw: (params2.__setitem__(0, params2[0] + (values is not None)), 1e6 + params2[0])[1]
            p.setConstraints()
            de = DifferentialEvolution(p, logHandle=None, maxiter=1, bitterEnd=True)
            lb.phase = 'later'
            r = lb.drive(de(), stall=2000)
            m.check(r is p and params2[0] == len(p), 'resume', "a new run after the fatal one gave {!r} with {} evaluations", r, params2[0])
            m.count('resumed_after_fatal')
    if sim.logErrors.errors:
        m.bad('unhandled-error', "a fatal evaluation ({}) left an error nobody handled: {}", params['form'], sim.logErrors.errors[0][-300:])
    m.sig(params, lb.sigEvents)
    m.nontrivial = True
    m.notes = dict(form=params['form'], at=params['at'], others_in_flight=state['others'], started_after=len(after))
