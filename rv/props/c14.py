"""C14: aborting at any moment ends the run and leaves the population intact."""
import io, random, os, tempfile, shutil
import numpy as np
from rv import decases, lab, sim
from rv.lab import POLICIES, norm, Boom, INF
from rv.sim import Population, msg, reactor, abort, Hang, DifferentialEvolution

LEVEL = 'fault_enumeration'
ROUNDS = 5
RULE = ("Cases are distinct by configuration, way of aborting and moment; non-trivial when the abort took place before "
        "the run had ended. Small configurations have every moment enumerated.")
NEED = ['aborts', 'aborts_with_evaluations_in_flight', 'aborts_shutdown', 'aborts_population', 'aborts_enter', 'aborts_callback', 'aborts_handler',
        'aborts_program', 'aborts_reactor', 'aborts_in_setup', 'late_results_ignored', 'saved_and_resumed', 'none_calls',
        'aborts_with_waiting_challenges', 'aborts_with_report_in_progress',
        'logs_of_plain_aborts', 'prompt_aborts', 'setups_after_abort']

WAYS = ['shutdown', 'population', 'enter', 'callback', 'program', 'reactor', 'handler']
#: Those that do not wait for the evaluations under way
PROMPT = ('shutdown', 'enter', 'program', 'reactor')
#: Those where something of the user's fails while reporting
REPORTING = ('callback', 'handler')


def cases(tier, seed):
    rng = random.Random(seed*19 + 2)
    out = []
    # Every moment of a small run
    small = dict(Nd=2, Np=4, bounds='wide', CR=0.8, F=0.5, randomBase=False, adaptive=True, maxiter=2, bitterEnd=True,
                 objective='noise', at=0, inside=True, constrained=0, none=3.0, again=False, phase='run', slow=True)
    policies = ['fifo', 'hold'] if tier == 'quick' else POLICIES
    n = 0
    for policy in policies:
        for way in WAYS:
            for at in range(0, 36 if way not in REPORTING else 6):
                for inside in (True, False):
                    if way in REPORTING and not inside: continue
                    out.append(dict(small, seed=seed*100003 + n, policy=policy, way=way, at=at, inside=inside,
                                    none=rng.choice([None, 3.0, -1, 0.0])))
                    n += 1
        # Every moment of a small setup
        for way in ('population', 'enter', 'program'):
            for at in range(0, 14):
                for inside in (True, False):
                    out.append(dict(small, seed=seed*100003 + n, policy=policy, way=way, at=at, inside=inside, phase='setup',
                                    none=rng.choice([None, 3.0, -1, 0.0])))
                    n += 1
    m = 420 if tier == 'quick' else 5000
    for k, c in enumerate(decases.configs(
            seed + 1000, m, policies=POLICIES + ['sync'], objectives=['noise', 'better', 'weird', 'sphere'],
            _Np=[4, 6, 10, 20], _maxiter=[1, 3, 5], _constrained=[0, 0, 0.5], _none=[None, 0.0, 3.0, INF, -1],
            _inside=[True, False], _again=[False, True], _slow=[True, False], _xSSE=[False, True])):
        c['way'] = WAYS[k % len(WAYS)]
        c['phase'] = 'setup' if k % 9 == 8 and c['way'] not in REPORTING else 'run'
        c['at'] = rng.randint(0, 3*c['Np']*c['maxiter'] + 4) if c['phase'] == 'run' else rng.randint(0, 2*c['Np'])
        if c['way'] in REPORTING: c['at'] = rng.choice([0, 0, 1, 1, 2, 3, 5])
        if rng.random() < 0.1: c['at'] = 0
        out.append(c)
    return out


class Log(io.StringIO):
    def close(self): pass


class Case(object):
    def __init__(self, params, m):
        self.params, self.m = params, m
        ref = []
        self.snap = None
        abort.callOnAbort(self.requested)
        self.run = decases.build(m, params, set(), pop=dict(complaintCallback=self.handler),
                                 constraint=decases.half_plane(ref, params['constrained']) if params['constrained'] else None)
        ref.append(self.run)
        self.run.frozen = lambda: self.snap is not None
        self.lb = self.run.lab
        self.pending = False
        self.asked = False
        self.n = 0
        self.reports = 0
        self.running = 0
        self.run.ev.noneResult = params['none']
        self.lb.onEvent = self.event
        old = self.run.ev.onStart
        def started(e):
            if self.snap is not None and e not in self.inFlight:
                m.bad('evaluation-started', "a parameter vector was put under evaluation after the abort ({})", params['way'])
            old(e)
        self.run.ev.onStart = started
        self.run.p.addCallback(self.callback)

    def callback(self, values, counter, SSE):
        self.lb.event('report')
        if self.params['phase'] == self.lb.phase and self.params['way'] in REPORTING:
            if self.reports == self.params['at'] and self.snap is None:
                if self.params['way'] == 'handler': return "complaint"
                self.take()
                raise Boom("report callback fails on purpose")
            self.reports += 1
        if self.params['slow'] and self.lb.policy != 'sync' and self.lb.rng.random() < 0.5:
            self.running += 1
            def over(op): self.running -= 1
            return self.lb.defer('report', None, onFire=over)

    def handler(self, i, complaint):
        self.take()
        raise Boom("complaint handler fails on purpose")

    def event(self, lb, kind):
        if lb.phase != self.params['phase'] or self.params['way'] in REPORTING or self.asked or self.pending: return
        if self.n == self.params['at']:
            if self.params['inside']: self.abort()
            else: self.pending = True
        self.n += 1

    def requested(self):
        if self.params['way'] in ('enter', 'program') and self.snap is None: self.take()

    def take(self):
        """Remembers everything as it is when the abort begins."""
        m, run = self.m, self.run
        self.snap = [(i, np.array(i.values, dtype=float), i.SSE) for i in run.p]
        self.inFlight = list(run.ev.inFlight)
        m.count('aborts')
        m.count('aborts_' + self.params['way'])
        if self.params['phase'] == 'setup': m.count('aborts_in_setup')
        if self.inFlight: m.count('aborts_with_evaluations_in_flight')
        if self.running: m.count('aborts_with_report_in_progress')
        if any(c.gen == run.gen and c.indices and not c.eval and not c.returned for c in run.challenges): m.count('aborts_with_waiting_challenges')
        self.noneBefore = run.ev.noneCalls

    def abort(self):
        self.pending = False
        self.asked = True
        if self.params['way'] not in ('enter', 'program'): self.take()
        for _ in range(2 if self.params.get('again') else 1):
            way = self.params['way']
            if way == 'shutdown': (self.run.de.shutdown if self.run.de else self.run.p.abort)()
            elif way == 'population': self.run.p.abort()
            elif way == 'enter': sim.enter()
            elif way == 'program': abort.abortNow()
            elif way == 'reactor':
                if self.run.de: reactor.fireSystemEvent('shutdown')
                else: self.run.p.abort()

    def drive(self, d, maxEvents=20000):
        """Like Lab.drive, aborting between two steps when asked to."""
        box = []
        d.addBoth(box.append)
        idle = 0
        while not box:
            if self.pending:
                # All challenges of the generation may be waiting for their evaluations
                waiting = self.params['phase'] == 'run' and bool(self.run.ev.inFlight)
                self.abort()
                if waiting and self.params['way'] in PROMPT:
                    sim.drain(300)
                    self.m.count('prompt_aborts')
                    self.m.check(box, 'not-prompt', "abort by {} waits for the evaluations under way", self.params['way'])
            if box: break
            before = self.lb.events
            if not self.lb.step(): raise Hang("Deferred has not fired, no outstanding operation, no reactor work; abort by " + self.params['way'])
            idle = idle + 1 if self.lb.events == before else 0
            if idle > 800 and not self.lb.ops:
                raise Hang("Deferred has not fired, nothing outstanding, only polling; abort by " + self.params['way'])
            if self.lb.events > maxEvents: raise Hang("still running after {} events".format(self.lb.events))
        return box[0]

    def intact(self, when):
        m, p = self.m, self.run.p
        now = list(p)
        if self.params['phase'] == 'setup': now = now[:len(self.snap)]
        elif not m.check(len(now) == self.params['Np'] == len(self.snap), 'size', "{}: {} members", when, len(now)): return
        for k, (i, v, s) in enumerate(self.snap):
            if not m.check(now[k] is i, 'replaced', "{}: the member at position {} was replaced after the abort ({})", when, k, self.params['way']): return
            same = np.array_equal(np.asarray(i.values, dtype=float), v) and (norm(i.SSE) == norm(s))
            if not m.check(same, 'modified', "{}: the member at position {} was modified after the abort ({})", when, k, self.params['way']): return
        known = {}
        for e in self.run.ev.evals: known.setdefault(tuple(e.values), []).append(norm(e.raw))
        for k, i in enumerate(p):
            got = known.get(tuple(float(x) for x in i.values), [])
            m.check(norm(i.SSE) in got, 'not-evaluated', "{}: member {} has SSE {} but evaluated to {}", when, k, i.SSE, got)

    def setupAgain(self):
        """An aborted population is not set up."""
        m, run = self.m, self.run
        if run.p.running is not False: return
        before, members = len(run.ev.evals), list(run.p)
        result = self.drive(run.p.setup())
        sim.drain(300)
        m.count('setups_after_abort')
        m.check(not result and len(run.ev.evals) == before and not run.ev.inFlight, 'setup-after-abort',
                "setup of the aborted population gave {!r} with {} evaluations", result, len(run.ev.evals) - before)
        now = list(run.p)
        m.check(len(now) == len(members) and all(a is b for a, b in zip(now, members)), 'setup-after-abort', "setup of the aborted population changed its members")

    def resume(self):
        """The population goes on in a new run."""
        m, run = self.m, self.run
        tmp = tempfile.mkdtemp(prefix='rv-c14-')
        try:
            path = os.path.join(tmp, 'p.dat')
            run.p.setConstraints()
            run.p.save(path)
            abort.restart()
            n = [0]
            def func(values, **kw):
                n[0] += 1
                return 1.0 + n[0]
            p = Population.load(path, func=func)
        finally: shutil.rmtree(tmp)
        m.check([(list(i.values), norm(i.SSE)) for i in p] == [(list(i.values), norm(i.SSE)) for i in run.p], 'load',
                "population loaded after the abort has other members")
        if len(p) != self.params['Np']: return
        d = DifferentialEvolution(p, logHandle=None, maxiter=2, bitterEnd=True)()
        lb = lab.Lab(run.rng, 'fifo')
        result = lb.drive(d, stall=2000)
        passes = sum(1 for i in p)
        m.check(result is p and n[0] == 2*len(p), 'resume', "resumed run gave {!r} with {} evaluations", result, n[0])
        m.count('saved_and_resumed')


def run_case(params, m):
    c = Case(params, m)
    run = c.run
    setup = c.drive(run.p.setup())
    if params['phase'] == 'setup':
        c.lb.settle()
        if c.snap is None: return
        m.check(setup is not True or not c.inFlight, 'setup-result', "aborted setup fired True")
        c.intact("after the aborted setup")
        before = len(run.ev.evals)
        if run.p.running is False:
            run.de = DifferentialEvolution(run.p, logHandle=None, maxiter=2)
            r = c.drive(run.de())
            m.check(r is run.p and len(run.ev.evals) == before, 'run-after-aborted-setup', "a run of the aborted population gave {!r}", r)
            c.setupAgain()
        m.sig(params, c.lb.sigEvents)
        m.nontrivial = True
        return
    run.takeSnapshot()
    log = Log()
    d = run.start(logHandle=log)
    result = c.drive(d, 6000 + 30*params['Np']*(params['maxiter'] + 2))
    ended = c.snap is not None
    m.check(result is run.p, 'result', "the aborted run's Deferred fired with {!r}", result)
    if not ended:
        m.count('ended_before_abort')
        return
    c.intact("when the run's Deferred fired")
    m.count('late_results_ignored', len(run.ev.inFlight))
    for op in list(c.lb.ops): c.lb.fire(op)
    c.lb.settle(1500)
    c.intact("after the last evaluation under way finished")
    m.count('none_calls', run.ev.noneCalls - c.noneBefore)
    m.check(run.ev.noneCalls - c.noneBefore <= 2*params['Np'], 'keeps-running', "evaluation function was called with None {} times after the abort ({})",
            run.ev.noneCalls - c.noneBefore, params['way'])
    if sim.logErrors.errors:
        m.bad('unhandled-error', "abort by {} left an error nobody handled: {}", params['way'], sim.logErrors.errors[0][-300:])
    if params['way'] not in REPORTING:
        m.count('logs_of_plain_aborts')
        m.check('Traceback' not in log.getvalue() and 'Error' not in log.getvalue(), 'logged-error', "abort by {} was logged as an error: {}",
                params['way'], log.getvalue()[-300:])
    msg(None)
    left = [f for f, args, kw in reactor._triggers.values() if getattr(f, '__self__', None) is run.de]
    m.check(not left, 'trigger-left', "the reactor still calls the optimizer after abort by {}", params['way'])
    if params['seed'] % 5 == 1: c.setupAgain()
    if params['seed'] % 5 == 0: c.resume()
    m.sig(params, c.lb.sigEvents)
    m.nontrivial = True
    m.notes = dict(way=params['way'], at=params['at'], in_flight=len(c.inFlight), none_calls=run.ev.noneCalls)
