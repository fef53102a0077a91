"""C39: populations and optimizers in one process do not influence each other."""
import random, os, tempfile, shutil
import numpy as np
from twisted.internet import defer
from rv import decases, lab, sim
from rv.lab import POLICIES, norm, INF
from rv.sim import Population, DifferentialEvolution, Hang, abort, reactor, drain

LEVEL = 'exploration'
ROUNDS = 2
RULE = ("Groups of runs are distinct by their configurations and the order of all their events; non-trivial when evaluations of different "
        "runs were under way at the same time.")
NEED = ['groups', 'runs', 'concurrent', 'setup_during_run', 'clones', 'members_compared', 'recipes_checked', 'reports', 'constraint_calls', 'records_compared',
        'stopped_alone', 'unaffected_by_stop', 'stopped_together', 'second_runs', 'blacklisted', 'unaffected_settings', 'raised_alone', 'in_setup', 'constraints_set', 'optimizer_settings', 'announcements_awaited', 'slow_reports']
STOPS = [None, None, 'shutdown', 'population', 'enter', 'fatal', 'callback', 'complain', 'complain']

#: As they are before any population has been made
DEFAULTS = {name: getattr(Population, name) for name in ('targetFraction', 'popsize', 'debug')}
DE_DEFAULTS = dict(DifferentialEvolution.attributes)


def cases(tier, seed):
    n = 1000 if tier == 'quick' else 3000
    out = []
    rng = random.Random(seed*79 + 39)
    cfgs = decases.configs(seed + 39, 3*n, policies=['fifo', 'mixed', 'sync', 'random'], objectives=['noise', 'better', 'ties', 'sphere', 'weird'],
                           _Np=[4, 5, 6, 8, 12], _maxiter=[1, 2, 4], _constrained=[0, 0, 0.3], _xSSE=[False, False, True], _bounds=['wide', 'unit', 'int', 'mixed', 'odd'],
                           _F=[0.5, 1.0, [0.4, 0.9]], _randomBase=[False, False, 0.5, True], _adaptive=[True, True, False])
    for k in range(n):
        out.append(dict(seed=seed*100391 + k, cfgs=cfgs[3*k:3*k + rng.choice([2, 2, 3])], policy=rng.choice(['fifo', 'lifo', 'random', 'hold', 'starve', 'timed']),
                        stop=STOPS[k % len(STOPS)], at=rng.randint(0, 120), clone=rng.random() < 0.3, again=rng.random() < 0.3, stagger=rng.random() < 0.6))
    return out


class View(object):
    """The common lab as one of the runs sees it."""
    def __init__(self, base):
        self.base, self.phase, self.policy = base, 'setup', 'fifo'
    def __getattr__(self, name): return getattr(self.base, name)


class Member(object):
    """One of the runs and what belongs to it alone."""
    def __init__(self, group, k, cfg):
        self.group, self.k, self.cfg, m = group, k, dict(cfg), group.m
        cfg = self.cfg
        self.stopped = None
        self.state = 'new'
        self.raise_now = False
        self.fatal_now = self.complain_now = False
        cfg['bitterEnd'] = True
        # Some optimizer settings are left to their defaults
        cfg['omit'] = [name for name in ('CR', 'F', 'randomBase', 'adaptive', 'xSSE') if group.rng.random() < 0.3]
        for name in cfg['omit']: cfg[name] = DE_DEFAULTS[name]
        if group.rng.random() < 0.2: cfg['goalSSE'] = -1.0
        if group.rng.random() < 0.2: cfg['dwellByGrave'] = 9
        cfg['names'] = ["p{}{}".format(k, "xyzuvw"[j]) for j in range(cfg['Nd'])]
        ref = []
        # Settings of its own for some, the defaults for others
        self.options = dict(complaintCallback=self.complained)
        if group.rng.random() < 0.4: self.options['targetFraction'] = group.rng.choice([0.01, 0.1, 0.3])
        if group.rng.random() < 0.4: self.options['popsize'] = group.rng.choice([3, 7, 12])
        if group.rng.random() < 0.2: self.options['debug'] = True
        inner = decases.half_plane(ref, cfg['constrained']) if cfg['constrained'] else None
        def constraint(params):
            m.count('constraint_calls')
            m.check(sorted(params) == sorted(cfg['names']), 'constraint', "constraint of run {} was called with parameters {}", k, sorted(params))
            return inner(params)
        self.run = decases.build(m, cfg, {'select', 'account', 'recipe'}, constraint=constraint if inner and cfg['Np'] % 2 else None,
                                 pop=self.options)
        ref.append(self.run)
        run = self.run
        if inner and not run.cfg.get('constraint'):
            # Given later
            m.count('constraints_set')
            run.cfg['constraint'] = constraint
            run.p.setConstraints(run.constraint)
        run.lab = run.ev.lab = View(group.lb)
        run.frozen = lambda: self.stopped is not None
        objective = run.ev.objective
        def obj(e):
            if self.fatal_now and e.phase == 'run':
                self.fatal_now = False
                run.checks.clear()      # See C15 for what becomes of this run
                group.stop(self)
                return -1
            s = objective(e)
            return s*scale if isinstance(s, float) else s
        # One run's SSEs may be far below another's
        scale = group.rng.choice([1.0, 1.0, 1E-3, 1E3])
        run.ev.objective = obj
        started = run.ev.onStart
        def onStart(e):
            started(e)
            m.check(len(e.values) == cfg['Nd'] and np.all(e.values >= run.mins) and np.all(e.values <= run.maxs), 'values',
                    "evaluation function of run {} was called with {}", k, list(e.values))
            if self.stopped and group.params['stop'] != 'fatal' and e not in self.flying: m.bad('evaluation-started', "run {} put a vector under evaluation after it had been stopped", k)
            if group.flying() > len(run.ev.inFlight): m.count('concurrent'); group.concurrent = True
            if e.phase != 'run' and any(x.state == 'run' for x in group.members): m.count('setup_during_run')
        run.ev.onStart = onStart
        ended = run.ev.onFinish
        def onFinish(e):
            self.watch(e)
            ended(e)
        run.ev.onFinish = onFinish
        run.cfg['onGeneration'] = self.generation
        self.slow = group.rng.random() < 0.4
        self.announced, self.awaited, self.blacklisted = [], [], []
        run.p.addCallback(self.callback, k)
        p = run.p
        got = {name: getattr(p, name) for name in DEFAULTS}
        want = {name: self.options.get(name, DEFAULTS[name]) for name in DEFAULTS}
        m.check(got == want, 'defaults', "population {} was made with {} but has {}", k, want, got)
        if self.options.get('debug'): p.debug = False

    def complained(self, i, result):
        m = self.group.m
        m.count('blacklisted')
        m.check(result == self.k and i.p is self.run.p, 'complaint', "complaint handler of run {} was called for {!r}", self.k, result)

    def callback(self, values, counter, SSE, tag):
        m, run = self.group.m, self.run
        m.count('reports')
        self.announced.append(norm(SSE))
        self.awaited = [s for s in self.awaited if s < norm(SSE)]
        m.check(tag == self.k, 'callback-args', "callback of run {} was called with {}", self.k, tag)
        own = [norm(e.raw) for e in run.ev.evals if e.done and np.array_equal(e.values, np.asarray(values, dtype=float))] if len(values) == self.cfg['Nd'] else []
        if not self.inherited: m.check(norm(SSE) in own or (own and self.blacklisted and norm(SSE) == INF), 'report', "callback of run {} was told SSE {}, which its own evaluations gave as {}", self.k, SSE, own)
        if self.slow and self.run.lab.policy != 'sync' and self.group.rng.random() < 0.6:
            m.count('slow_reports')
            return self.group.lb.defer('report', None)
        if self.complain_now and self.group.rng.random() < 0.4:
            self.run.checks.clear()      # See C17 for what becomes of this run
            self.blacklisted.append(norm(SSE))
            return self.k
        if self.raise_now:
            self.raise_now = False
            self.group.stop(self)
            m.count('raised_alone')
            raise lab.Boom("callback of run {}".format(self.k))

    def watch(self, e):
        """A much better one has to be announced."""
        run = self.run
        if e.phase == 'run' and not self.stopped and not self.slow and self.announced:
            others = [norm(i.SSE) for i in run.p] + [x for x in self.announced + [norm(x.raw) for x in run.ev.evals if x.done and x is not e] if x not in self.blacklisted]
            if e.SSE < 0.9*min(others): self.awaited.append(e.SSE)

    def generation(self, run, kg):
        m = self.group.m
        m.count('announcements_awaited')
        if not self.stopped: m.check(not self.awaited, 'not-announced', "run {}: a new best of SSE {} was not announced, the last ones were {}", self.k, self.awaited[:1], self.announced[-3:])

    inherited = False
    def adopt(self, other, path):
        """Continues with a copy of another run's population."""
        m = self.group.m
        m.count('clones')
        self.run.lab.phase = 'run'
        other.run.p.save(path)
        self.run.p = Population.load(path, func=self.run.ev, complaintCallback=self.complained)
        self.inherited = True
        self.run.p.addCallback(self.callback, self.k)
        self.run.names, self.run.mins, self.run.maxs = other.run.names, other.run.mins, other.run.maxs

    def go(self):
        """Setup and run; the Deferred fires when all is over."""
        if self.group.over: return defer.succeed(self.run.p)
        self.state = 'setup'
        def ready(result):
            if not self.stopped and not self.group.m.check(result is True, 'setup', "setup of run {} gave {!r}", self.k, result): return
            if self.stopped: return self.run.p
            return self.start()
        return defer.maybeDeferred(self.run.p.setup).addCallback(ready)

    def start(self):
        run = self.run
        if self.group.over: return defer.succeed(run.p)
        run.takeSnapshot()
        self.state = 'run'
        self.before = self.settings()
        policy = run.cfg['policy']
        self.announced, self.awaited = [], []
        d = run.start()
        got = {name: getattr(run.de, name) for name in DE_DEFAULTS}
        want = {name: self.cfg.get(name, DE_DEFAULTS[name]) for name in DE_DEFAULTS}
        self.group.m.count('optimizer_settings')
        for name in want:
            a, b = got[name], want[name]
            if isinstance(b, list): b = tuple(b)
            self.group.m.check(a == b, 'optimizer-settings', "optimizer {} was made with {}={} but has {}", self.k, name, b, a)
        run.lab.policy = policy
        def over(result):
            m = self.group.m
            self.state = 'over'
            m.count('runs')
            m.check(result is run.p, 'result', "run {} gave {!r}", self.k, result)
            if not self.stopped:
                m.check(run.kgs == list(range(self.cfg['maxiter'])), 'generations', "run {} of {} generations had generations {}", self.k, self.cfg['maxiter'], run.kgs)
                if 'select' in run.checks: run.compareWhole("at the end of run {}".format(self.k))
                if self.group.stopped: m.count('unaffected_by_stop')
            return result
        return d.addCallback(over)

    def settings(self):
        p = self.run.p
        return (list(p.pm.names), [float(x) for x in p.pm.mins], [float(x) for x in p.pm.maxs], p.Np, p.Nd, len(p.reporter.callbacks), p.reporter.minDiff)

    def flyingNow(self): return list(self.run.ev.inFlight)

    def judge(self):
        m, run = self.group.m, self.run
        if self.state == 'new': return
        done = sum(e.done and not isinstance(e.raw, Exception) for e in run.ev.evals)
        if not self.stopped: m.check(run.p.counter == done, 'counter', "run {} made {} evaluations, {} were counted", self.k, done, run.p.counter)
        if self.state == 'over':
            m.count('unaffected_settings')
            m.check(self.settings() == self.before, 'settings', "settings of run {} became {}", self.k, self.settings())
            m.check(len(run.p) == self.cfg['Np'], 'size', "run {} has {} members", self.k, len(run.p))
        if self.inherited: return
        h = run.p.history
        own = {tuple(float(np.float32(x)) for x in e.values) for e in run.ev.evals}
        m.check(list(h.names) == list(run.names), 'history-names', "history of run {} is of {}", self.k, list(h.names))
        for k in list(h.K):
            m.count('records_compared')
            row = [float(np.float32(x)) for x in h.X[k, 1:]]
            if not m.check(tuple(row) in own, 'history', "history of run {} has a record {} it never evaluated", self.k, row): break


class Group(object):
    def __init__(self, params, m):
        self.params, self.m = params, m
        self.rng = random.Random(params['seed'])
        self.lb = lab.Lab(self.rng, params['policy'])
        self.lb.onEvent = self.event
        self.n = 0
        self.stopped = []
        self.concurrent = False
        self.asked = self.over = False
        self.members = []
        abort.callOnAbort(self.entered)
        self.members = [Member(self, k, c) for k, c in enumerate(params['cfgs'])]

    def flying(self): return sum(len(x.run.ev.inFlight) for x in self.members)

    def entered(self):
        self.over = True
        for x in self.members: self.stop(x)

    def stop(self, x):
        if x.stopped: return
        x.flying = x.flyingNow()
        x.stopped = True
        self.stopped.append(x)

    def event(self, lb, kind):
        self.n += 1
        if self.asked or self.n <= self.params['at'] or not self.params['stop']: return
        how = self.params['stop']
        if how == 'complain' and len(self.members) > 1 and self.rng.random() < 0.5: return
        who = [x for x in self.members if x.state in (['run'] if how in ('shutdown', 'callback', 'fatal', 'complain') else ['run', 'setup'])]
        if not who: return
        self.asked = True
        x = self.rng.choice(who)
        if how == 'enter':
            self.m.count('stopped_together')
            sim.enter()
            return
        if how == 'fatal': x.fatal_now = True
        elif how == 'callback': x.raise_now = True
        elif how == 'complain': x.complain_now = True
        else:
            self.stop(x)
            self.m.count('stopped_alone')
            if x.state == 'setup': self.m.count('in_setup')
            (x.run.de.shutdown if how == 'shutdown' else x.run.p.abort)()


def run_case(params, m):
    g = Group(params, m)
    m.count('groups')
    tmp = tempfile.mkdtemp(prefix='rv-c39-')
    try:
        rest = list(g.members)
        dl = []
        if params['clone'] and not g.members[0].cfg['constrained']:
            # The second one is a copy of the first
            a, b = g.members[:2]
            for name in ('Nd', 'Np', 'constrained'): b.cfg[name] = b.run.cfg[name] = a.cfg[name]
            g.lb.drive(a.run.p.setup())
            if not a.stopped:
                b.adopt(a, os.path.join(tmp, 'p.dat'))
                b.run.p.counter = 0
                dl = [a.start(), b.start()]
                rest = g.members[2:]
            else: rest = []
        limit = 30000
        while rest:
            if not params['stagger'] or not dl or g.rng.random() < 0.02: dl.append(rest.pop(0).go())
            else:
                if all(d.called for d in dl): dl.append(rest.pop(0).go())
                elif not g.lb.step(): break
            limit -= 1
            if limit < 0: break
        try: g.lb.drive(defer.DeferredList(dl, consumeErrors=False), maxEvents=60000, stall=3000)
        except Hang as e:
            m.bad('hang', "runs {} do not end after {}: {}", [x.k for x in g.members if x.state != 'over'], params['stop'], e)
            return
        for op in list(g.lb.ops): g.lb.fire(op)
        g.lb.settle(1500)
        drain(2000)
        for x in g.members: x.judge()
        if params['again'] and not g.stopped:
            # Once more, with another optimizer each
            for x in g.members: x.run.kgs = []; x.run.gen = -1
            late = []
            for x in g.members:
                m.count('second_runs')
                late.append(x.start())
            try: g.lb.drive(defer.DeferredList(late), maxEvents=60000, stall=3000)
            except Hang as e: m.bad('hang', "second runs do not end: {}", e)
            g.lb.settle(1500); drain(2000)
            for x in g.members: x.judge()
    finally: shutil.rmtree(tmp)
    m.sig(params['seed'], g.lb.sigEvents)
    m.nontrivial = g.concurrent
