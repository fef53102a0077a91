"""C16: report callbacks announce each significant improvement once, in order."""
import random
import numpy as np
from twisted.internet import defer
from rv import decases, sim
from rv.lab import POLICIES, norm, INF, Lab, small_population
from rv.rmodel import RModel, Watch, Item

LEVEL = 'exploration'
ROUNDS = 6
RULE = ("Cases are distinct by parameters and by the sequence of reports, callback ends and announcements; non-trivial when "
        "at least three announcements were judged.")
NEED = ['announcements', 'callback_calls', 'slow_callbacks', 'superseded', 'insignificant', 'forced_same', 'forced_equivalent',
        'runs', 'run_announcements', 'final_best_checked', 'repeated_setup', 'other_minDiff']


def cases(tier, seed):
    rng = random.Random(seed*29 + 3)
    out = []
    n = 500 if tier == 'quick' else 6000
    for k in range(n):
        out.append(dict(mode='direct', seed=seed*100003 + k, N=rng.choice([1, 1, 2, 3]), steps=rng.choice([10, 30, 60]),
                        slow=rng.choice([0, 0.3, 0.7, 1.0]), minDiff=rng.choice([None, None, None, 0.2, 0.001]),
                        style=rng.choice(['falling', 'noise', 'ties', 'edge', 'odd'])))
    for c in decases.configs(
            seed + 500, n // 2, policies=POLICIES + ['sync'], objectives=['noise', 'better', 'weird', 'sphere', 'ties', 'plateau', 'creep'],
            _Np=[4, 6, 10, 20], _maxiter=[1, 3, 5, 8], _constrained=[0, 0, 0.3], _N=[1, 2, 3], _slow=[0, 0.3, 0.8],
            _setupPolicy=POLICIES + ['sync'], _again=[False, False, True], _xSSE=[False, True], _goalSSE=[None, None, 10.0, 45.0, 49.9]):
        c['mode'] = 'run'
        out.append(c)
    return out


def sse(rng, style, last):
    if style == 'falling': return last*rng.choice([0.5, 0.97, 0.975, 0.985, 0.99, 1.0, 1.02, 0.9])
    if style == 'noise': return rng.uniform(0.1, 100)
    if style == 'ties': return rng.choice([0.0, 1.0, 2.0, 50.0, 1])
    if style == 'edge': return last*(1 - 0.02*rng.choice([0.99, 1.01, 0.999999, 1.000001, 0.5, 2]))
    return rng.choice([None, INF, float('nan'), 0.0, 1e-300, 1e300, np.float64(3.0), np.float32(2.0), 7, rng.uniform(0, 10)])


def direct(params, m):
    rng = random.Random(params['seed'])
    lb = Lab(rng, 'random')
    p = small_population(6)(lambda values: 1.0, ['a', 'b'], [(-10, 10)]*2)
    lb.drive(p.setup(blank=True))
    minDiff = 0.02
    if params['minDiff']:
        p.reporter.minDiff = minDiff = params['minDiff']
        m.count('other_minDiff')
    model = RModel(m, minDiff)
    def behave(w, k, item):
        lb.event('report', k)
        r = rng.random()
        if r < params['slow']: return lb.defer('report', None)
        if r < params['slow'] + 0.1: return defer.succeed(None)
    watch = Watch(m, model, params['N'], behave)
    watch.register(p)
    last = 100.0
    made = []
    items = {}
    def item(i):
        if id(i) not in items: items[id(i)] = (Item(i.values, i.SSE), i)
        return items[id(i)][0]
    for i in p: item(i)
    for _ in range(params['steps']):
        r = rng.random()
        if r < 0.45 or not made:
            i = p.spawn([round(rng.uniform(-10, 10), 3), float(rng.randint(-3, 3))])
            i.SSE = sse(rng, params['style'], last)
            if norm(i.SSE) < last: last = norm(i.SSE)
            if last < 1e-200: last = 100.0
            made.append(i)
        else: i = rng.choice(made[-4:])
        if model.borderline(item(i), model.last): continue
        r = rng.random()
        lb.event('submit')
        if r < 0.35:
            wouldBe = model.best is None or item(i).SSE < model.best.SSE
            if not model.report(item(i)) and wouldBe: m.count('insignificant')
            p.report(i)
        elif r < 0.65:
            k = rng.randrange(len(p))
            other = p[k]
            if norm(i.SSE) < norm(other.SSE): p[k] = i
            wouldBe = model.best is None or item(i).SSE < model.best.SSE
            if not model.report(item(i), versus=True) and wouldBe: m.count('insignificant')
            p.report(i, other)
        elif r < 0.8:
            b = item(p.best())
            if model.borderline(b, model.last): continue
            before = model.last
            if model.report(b, force=True):
                if before is not None and model.insignificant(b, before): m.count('forced_equivalent')
            else: m.count('forced_same')
            p.report()
        elif r < 0.86:
            if i.SSE != i.SSE: continue     # NaN is never the same as anything
            before = model.last
            if model.report(item(i), force=True):
                if before is not None and model.insignificant(item(i), before): m.count('forced_equivalent')
            else: m.count('forced_same')
            p.report(i, force=True)
        else:
            for _ in range(rng.randint(1, 3)): lb.step()
        while rng.random() < 0.3 and lb.step(): pass
    d = p.waitForReports()
    early = []
    def waited(x):
        early.append((watch.busy, model.pending))
        return x
    d.addCallback(waited)
    lb.drive(d)
    m.check(early and not early[0][0] and (early[0][1] is None or early[0][1].same(watch.current)), 'wait',
            "waiting for reports ended with a callback under way or an announcement to be made")
    pend = model.pending
    if pend is not None and not pend.same(watch.current):
        m.bad('missed', "SSE {} was never announced", pend.SSE)
    m.check(not model.announced or watch.next == params['N'], 'incomplete', "only {} of {} callbacks were called in the end", watch.next, params['N'])
    m.count('superseded', model.superseded)
    m.sig(params, lb.sigEvents, model.announced)
    m.nontrivial = len(model.announced) >= 3
    m.notes = dict(announced=[s for v, s in model.announced][:8], superseded=model.superseded)


def inRun(params, m):
    ref = []
    run = decases.build(m, params, set(),
                        constraint=decases.half_plane(ref, params['constrained']) if params['constrained'] else None)
    ref.append(run)
    lb, ev, p = run.lab, run.ev, run.p
    rng = random.Random(params['seed'] + 3)
    model = RModel(m)
    def behave(w, k, item):
        lb.event('report', k)
        if lb.policy != 'sync' and rng.random() < params['slow']: return lb.defer('report', None)
    def forced():
        if lb.phase == 'setup': return None
        b = p.best()
        return Item(b.values, b.SSE)
    watch = Watch(m, model, params['N'], behave, forced)
    watch.register(p)
    old = ev.onFinish
    def finished(e):
        old(e)
        model.report(Item(e.values, e.SSE))
    ev.onFinish = finished
    run.setup()
    if params['again']:
        # A new population has nothing to do with the first one
        m.count('repeated_setup')
        d = p.waitForReports()
        lb.drive(d)
        model.clear()
        run.setup()
    announcedBefore = len(model.announced)
    lb.drive(run.start(), maxEvents=6000 + 40*params['Np']*(params['maxiter'] + 2))
    b = p.best()
    if m.check(model.announced, 'none', "nothing was announced in the whole run"):
        v, s = model.announced[-1]
        m.check(s == norm(b.SSE) and np.array_equal(v, np.asarray(b.values, dtype=float)), 'final',
                "the last announcement was SSE {} but the best member has {}", s, b.SSE)
        m.count('final_best_checked')
    m.check(not watch.busy and watch.next == params['N'], 'incomplete', "the run ended amid an announcement")
    if model.pending is not None and not model.pending.same(watch.current):
        m.bad('missed', "SSE {} was never announced", model.pending.SSE)
    m.count('superseded', model.superseded)
    m.count('runs')
    m.count('run_announcements', len(model.announced))
    m.sig(params, lb.sigEvents, model.announced)
    m.nontrivial = len(model.announced) >= 3
    m.notes = dict(announced=[s for v, s in model.announced][:8], superseded=model.superseded)


def run_case(params, m):
    (direct if params['mode'] == 'direct' else inRun)(params, m)
