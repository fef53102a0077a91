"""C17: a complaint disqualifies the individual and the previous best stands."""
import random, pdb, io, contextlib
import numpy as np
from twisted.internet import defer
from rv import decases, sim
from rv.lab import POLICIES, norm, INF, Lab, small_population, Boom

LEVEL = 'exploration'
ROUNDS = 4
RULE = ("Cases are distinct by parameters and by the sequence of reports, complaints and announcements; non-trivial when "
        "a complaint was handled and something was reported afterwards.")
NEED = ['complaints', 'complaints_delayed', 'handler_delayed', 'complaints_about_members', 'reports_after_complaint', 'announcements_judged',
        'complaints_while_newer_waits', 'complaints_in_a_row', 'runs', 'disqualified_replaced', 'falsy_complaints', 'silent_after_complaint',
        'must_announce', 'debugger_entered']

COMPLAINTS = ['bad', 123, 0, False, '', 0.0, True, (1, 2)]


def cases(tier, seed):
    rng = random.Random(seed*31 + 3)
    out = []
    n = 600 if tier == 'quick' else 7000
    for k in range(n):
        out.append(dict(mode='direct', seed=seed*100003 + k, N=rng.choice([1, 1, 2, 3]), steps=rng.choice([10, 30, 60]),
                        Np=rng.choice([4, 6, 10]), slow=rng.choice([0, 0.5, 1.0]), complain=rng.choice([0.1, 0.3, 0.7]),
                        slowHandler=rng.choice([0, 0.5, 1.0]), style=rng.choice(['falling', 'noise', 'near'])))
    # No complaint handler, so the debugger is entered
    for k in range(n // 10):
        out.append(dict(mode='direct', seed=seed*100003 + 70000 + k, N=rng.choice([1, 2]), steps=rng.choice([10, 30]),
                        Np=rng.choice([4, 6, 10]), slow=rng.choice([0, 0.5]), complain=rng.choice([0.1, 0.3, 0.7]),
                        slowHandler=0, style=rng.choice(['falling', 'noise', 'near']), debugger=True))
    for c in decases.configs(
            seed + 700, n // 2, policies=POLICIES + ['sync'], objectives=['noise', 'better', 'weird', 'sphere', 'ties'],
            _Np=[4, 6, 10, 20], _maxiter=[1, 3, 5, 8], _N=[1, 2], _slow=[0, 0.3, 0.8], _complain=[0.1, 0.3, 0.6],
            _slowHandler=[0, 0.5, 1.0], _setupPolicy=POLICIES + ['sync'], _xSSE=[False, True]):
        c['mode'] = 'run'
        out.append(c)
    return out


class Item(object):
    def __init__(self, values, SSE):
        self.values, self.SSE = np.array(values, dtype=float), norm(SSE)
        self.firstSSE = self.SSE
        self.disqualified = False
        self.announced = False
        self.better = None        # than everything remaining, when reported

    def same(self, v, s): return np.array_equal(self.values, v) and self.firstSSE == norm(s)


class Judge(object):
    """Callbacks and complaint handler of the user."""
    def __init__(self, m, params, lb, rng):
        self.m, self.params, self.lb, self.rng = m, params, lb, rng
        self.items = []
        self.expected = []        # complaints the handler has not been told of yet
        self.p = None
        self.inRow = 0
        self.mayForce = lambda item: False
        self.onDisqualified = lambda i: None
        self.owed = None          # item that has to be announced unless a later one is
        self.seen = False
        self.current = None
        self.events = []

    def find(self, values, SSE=None):
        v = np.asarray(values, dtype=float)
        found = [x for x in reversed(self.items) if np.array_equal(x.values, v) and (SSE is None or x.firstSSE == norm(SSE))]
        # The same vector may have been evaluated more than once
        for x in found:
            if x.better and not x.announced and not x.disqualified: return x
        return found[0] if found else None

    def remaining(self, members):
        """SSE of the best announced or member individual that is not disqualified."""
        best = min([x.SSE for x in self.items if x.announced and not x.disqualified] + [INF])
        return min([best] + [norm(s) for s in members])

    def reported(self, item, members):
        """An individual is about to be reported."""
        m = self.m
        ref = self.remaining(members)
        item.better = item.SSE < ref
        every = min([x.SSE for x in self.items if not x.disqualified] + [norm(s) for s in members] + [INF])
        if item not in self.items: self.items.append(item)
        if self.seen:
            m.count('reports_after_complaint')
            if not item.better: m.count('silent_after_complaint')
        if item.SSE < 0.97*every and self.items:
            self.owed = item
            m.count('must_announce')

    def callback(self, values, counter, SSE, k):
        m, rng, lb = self.m, self.rng, self.lb
        v = np.array(values, dtype=float)
        lb.event('report', k)
        if k > 0 and self.current is not None and self.current.disqualified:
            # The next callback in turn may or may not still be called
            item = self.current
        else:
            item = self.find(v, SSE)
            if item is None:
                old = self.find(v)
                if old is not None and old.disqualified and all(norm(i.SSE) == INF for i in self.p):
                    # There is nobody else left
                    m.count('all_disqualified')
                    self.current = old
                    return
                if old is not None and old.disqualified:
                    m.bad('announced-again', "an individual that had been complained about (SSE {} then) was announced again with SSE {}", old.firstSSE, SSE)
                elif self.lb.phase == 'run' or self.params['mode'] == 'direct':
                    m.bad('unknown', "announced SSE {} {} which nobody reported", SSE, list(v))
                return
            if k == 0:
                m.count('announcements_judged')
                m.check(not item.disqualified, 'announced-again', "an individual complained about was announced again")
                if not item.better and not self.mayForce(item):
                    m.bad('not-best', "SSE {} was announced as new best although an individual with SSE {} that was announced or is a member "
                          "remains (complaints so far: {})", SSE, self.remaining([norm(i.SSE) for i in self.p]), self.seen)
                self.events.append(('announced', item.SSE))
                item.announced = True
                self.current = item
                if self.owed is not None and item.SSE <= self.owed.SSE or item is self.owed: self.owed = None
        complaint = rng.choice(COMPLAINTS) if rng.random() < self.params['complain'] else None
        if complaint is not None:
            m.count('complaints')
            if not complaint: m.count('falsy_complaints')
            def expect(op=None):
                self.expected.append((item, complaint))
                self.inRow += 1
                if self.inRow > 1: m.count('complaints_in_a_row')
            if lb.policy != 'sync' and rng.random() < self.params['slow']:
                m.count('complaints_delayed')
                return lb.defer('report', complaint, onFire=expect)
            expect()
            return complaint
        def fine(op=None): self.inRow = 0
        if lb.policy != 'sync' and rng.random() < self.params['slow']: return lb.defer('report', None, onFire=fine)
        fine()

    def handler(self, i, complaint):
        m, lb, rng = self.m, self.lb, self.rng
        lb.event('complaint')
        found = [x for x in self.expected if np.array_equal(x[0].values, np.asarray(i.values, dtype=float))]
        if not m.check(found, 'handler', "complaint handler called about an individual nobody complained about (or twice)"): return
        item, expected = found[0]
        self.expected.remove(found[0])
        m.check(type(expected) == type(complaint) and expected == complaint, 'handler-complaint', "complaint handler got {!r} instead of {!r}", complaint, expected)
        m.check(item.disqualified or norm(i.SSE) == item.firstSSE, 'handler-individual', "complaint handler got an individual with SSE {}, not {}", i.SSE, item.firstSSE)
        def over(op=None):
            if not item.disqualified:
                item.disqualified = True
                item.SSE = INF
                self.seen = True
                self.events.append(('complaint', item.firstSSE))
                if self.owed is item: self.owed = None
                if any(x is i for x in self.p): m.count('complaints_about_members')
                later = self.items[self.items.index(item)+1:]
                if any(x.better and not x.announced and x.SSE < item.firstSSE for x in later): m.count('complaints_while_newer_waits')
            item.real = i
            self.onDisqualified(i)
        if lb.policy != 'sync' and rng.random() < self.params['slowHandler']:
            m.count('handler_delayed')
            return lb.defer('handler', rng.choice([None, 7]), onFire=over)
        over()
        return rng.choice([None, 7])

    def consistent(self, when):
        """To be called when no handler is under way."""
        m, p = self.m, self.p
        if any(op.kind == 'handler' for op in self.lb.ops): return
        for x in self.items:
            if not x.disqualified: continue
            m.check(norm(x.real.SSE) == INF, 'still-finite', "{}: an individual complained about has SSE {}", when, x.real.SSE)
        SSEs = [norm(i.SSE) for i in p]
        if not SSEs: return
        b = p.best()
        m.check(norm(b.SSE) == min(SSEs), 'best', "{}: best() has SSE {}, the lowest is {}", when, b.SSE, min(SSEs))
        order = [norm(p[int(k)].SSE) for k in p.KS]
        m.check(order == sorted(SSEs), 'ranking', "{}: ranking is not by SSE: {}", when, order[:6])

    def finish(self):
        m = self.m
        m.check(not self.expected, 'handler-missing', "the complaint handler was never told of {} complaints", len(self.expected))
        if self.owed is not None:
            m.bad('not-announced', "SSE {} was never announced although it was by far the best remaining one", self.owed.SSE)


def direct(params, m, ready=None):
    rng = random.Random(params['seed'])
    lb = Lab(rng, 'sync')
    j = Judge(m, params, lb, rng)
    if ready: ready(j)
    n = [0]
    def func(values):
        n[0] += 1
        s = round(rng.uniform(50, 100), 4)
        item = Item(values, s)
        item.setup = True
        j.items.append(item)
        return s
    handler = None if params.get('debugger') else j.handler
    p = small_population(params['Np'])(func, ['a', 'b'], [(-10, 10)]*2, complaintCallback=handler)
    j.p = p
    lb.drive(p.setup())
    lb.policy = 'random'
    # Nobody announced those of setup as there were no callbacks; now there are
    for k in range(params['N']): p.addCallback(j.callback, k)
    forced = [False]
    j.mayForce = lambda item: forced[0]
    for x in j.items: x.better = True
    last = 60.0
    for _ in range(params['steps']):
        style = params['style']
        members = [norm(i.SSE) for i in p]
        b = min(members)
        if b == INF or b < 1e-6: b = 50.0
        if style == 'falling': s = b*rng.choice([0.5, 0.9, 0.97, 0.99, 1.01, 1.2])
        elif style == 'noise': s = rng.uniform(0.1, 110)
        else: s = b*rng.uniform(0.9, 1.3)
        i = p.spawn([round(rng.uniform(-10, 10), 6), round(rng.uniform(-10, 10), 6)])
        i.SSE = s
        k = rng.randrange(len(p))
        old = p[k]
        item = Item(i.values, s)
        item.real = i
        j.reported(item, members)
        wasDis = [x for x in j.items if x.disqualified and getattr(x, 'real', None) is old]
        if s < norm(old.SSE):
            p[k] = i
            if wasDis: m.count('disqualified_replaced')
        p.report(i, old)
        j.consistent("after a report")
        if rng.random() < 0.05:
            forced[0] = True
            p.report()
            lb.drive(p.waitForReports())
            forced[0] = False
        while rng.random() < 0.5 and lb.step(): pass
        j.consistent("between reports")
    lb.drive(p.waitForReports())
    j.consistent("in the end")
    j.finish()
    m.sig(params, j.events, lb.sigEvents)
    m.nontrivial = j.seen and m.counts.get('reports_after_complaint', 0) > 0
    m.notes = dict(events=j.events[:12])


def inRun(params, m):
    rng = random.Random(params['seed'] + 9)
    holder = []
    run = decases.build(m, params, {'select'}, pop=dict(complaintCallback=lambda i, c: holder[0].handler(i, c)))
    lb, ev, p = run.lab, run.ev, run.p
    j = Judge(m, params, lb, rng)
    holder.append(j)
    j.p = p
    active = [False]
    for k in range(params['N']):
        p.addCallback(lambda values, counter, SSE, k: j.callback(values, counter, SSE, k) if active[0] else None, k)
    def mayForce(item):
        # The best member is announced before the first and after the last challenge
        return not ev.inFlight and norm(p.best().SSE) == item.firstSSE
    j.mayForce = mayForce
    def gone(i):
        for k in range(len(run.M)):
            if p[k] is i:
                run.M[k] = (run.M[k][0], INF)
                run.before[k] = (run.before[k][0], INF)
    j.onDisqualified = gone
    old = ev.onFinish
    def finished(e):
        if e.phase == 'run' and e.cur is not None:
            kt = e.cur.kt
            members = [s for v, s in run.M]
            wasDis = any(x.disqualified and getattr(x, 'real', None) is p[kt] for x in j.items)
            j.reported(Item(e.values, e.SSE), members)
            old(e)
            if wasDis and e.SSE < INF: m.count('disqualified_replaced')
        else: old(e)
    ev.onFinish = finished
    run.setup()
    active[0] = True
    for i in p:
        item = Item(i.values, i.SSE)
        item.announced = True
        item.better = False
        j.items.append(item)
    lb.onEvent = lambda lb, kind: None
    lb.drive(run.start(), maxEvents=6000 + 40*params['Np']*(params['maxiter'] + 2))
    run.compareWhole("at the end of the run")
    j.consistent("at the end of the run")
    j.owed = None if j.owed is not None and j.owed.disqualified else j.owed
    j.finish()
    m.count('runs')
    m.sig(params, j.events, lb.sigEvents)
    m.nontrivial = j.seen
    m.notes = dict(events=j.events[:12])


def withDebugger(params, m):
    """
    Someone who just continues sits at the debugger.
    """
    def entered(*args, **kw):
        m.count('debugger_entered')
        if not m.check(judge[0].expected, 'debugger', "the debugger was entered although nobody complained"): return
        item, complaint = judge[0].expected[0]
        i = getattr(item, 'real', None)
        if i is None: i = [x for x in judge[0].p if np.array_equal(x.values, item.values)][0]
        judge[0].handler(i, complaint)
    judge = []
    orig = pdb.set_trace
    pdb.set_trace = entered
    try:
        with contextlib.redirect_stdout(io.StringIO()): direct(params, m, judge.append)
    finally: pdb.set_trace = orig


def run_case(params, m):
    if params.get('debugger'): withDebugger(params, m)
    elif params['mode'] == 'direct': direct(params, m)
    else: inRun(params, m)
