"""
Controlled evaluations and callbacks, scheduling policies, and the model of a
differential-evolution run that the monitors compare the real one with.
"""
import random, contextvars

import numpy as np
from twisted.internet import defer
from twisted.python import failure

from rv.sim import (
    reactor, CUR, Hang, Population, Individual, DifferentialEvolution, abort)

INF = float('inf')

POLICIES = ['fifo', 'lifo', 'random', 'hold', 'holdlifo', 'starve', 'timed', 'mixed']


class Boom(Exception):
    """Raised by evaluators and callbacks on purpose."""


def norm(sse):
    """SSE as the documentation ranks it: None, NaN -> infinity."""
    if sse is None: return INF
    x = float(sse)
    return INF if x != x else x


class Op(object):
    """One outstanding operation whose Deferred the harness will fire."""
    def __init__(self, kind, d, value, info=None, onFire=None):
        self.kind, self.d, self.value, self.info, self.onFire = kind, d, value, info, onFire


class Lab(object):
    """Owns the outstanding operations and decides what happens next."""
    def __init__(self, rng, policy='random', quietCalls=14):
        self.rng = rng
        self.policy = policy
        self.ops = []
        self.events = 0
        self.phase = 'setup'
        self.sigEvents = []
        self.victim = None
        self.onEvent = None       # called with (lab, kind) after each event
        self.quiet = 0
        self.quietCalls = quietCalls
        self.maxInFlight = 0
        self.onQuiet = None

    def event(self, kind, tag=None):
        self.events += 1
        self.quiet = 0
        if len(self.sigEvents) < 400: self.sigEvents.append((kind, tag))
        if self.onEvent: self.onEvent(self, kind)

    def defer(self, kind, value, info=None, onFire=None):
        """Returns a Deferred that will fire with value (an Exception: fail)."""
        d = defer.Deferred()
        op = Op(kind, d, value, info, onFire)
        self.ops.append(op)
        self.maxInFlight = max(self.maxInFlight, len(self.ops))
        op.timed = self.policy == 'timed'
        if op.timed:
            delay = self.rng.choice([
                self.rng.random(), 0.01, self.rng.expovariate(1.0), 5*self.rng.random()**4])
            reactor.callLater(delay, self.fire, op)
        return d

    def fire(self, op):
        if op not in self.ops: return
        self.ops.remove(op)
        self.event('done-' + op.kind, op.info)
        if op.onFire: op.onFire(op)
        value = op.value() if callable(op.value) else op.value
        if isinstance(value, Exception): op.d.errback(failure.Failure(value))
        else: op.d.callback(value)

    def pick(self):
        p, rng = self.policy, self.rng
        if p in ('fifo',): return self.ops[0]
        if p in ('lifo', 'holdlifo'): return self.ops[-1]
        if p == 'starve':
            if self.victim not in self.ops:
                self.victim = rng.choice(self.ops)
            others = [o for o in self.ops if o is not self.victim]
            return rng.choice(others) if others else self.victim
        return rng.choice(self.ops)

    def isQuiet(self):
        return not reactor.calls or self.quiet >= self.quietCalls

    def reactorStep(self):
        self.quiet += 1
        return reactor.step()

    def step(self):
        """Does one thing. Returns False if there is nothing to do."""
        rng = self.rng
        if self.policy == 'timed':
            for op in self.ops:
                # Started before the policy was changed
                if not op.timed:
                    self.fire(op)
                    return True
            return self.reactorStep()
        if self.policy in ('hold', 'holdlifo', 'starve'):
            if not self.isQuiet(): return self.reactorStep()
            if self.onQuiet: self.onQuiet()
            if self.ops:
                self.fire(self.pick())
                return True
            return self.reactorStep()
        if self.ops and (not reactor.calls or rng.random() < 0.6):
            self.fire(self.pick())
            return True
        return self.reactorStep()

    def drive(self, d, maxEvents=100000, until=None, stall=600):
        """
        Runs until Deferred d fires (or until() is true); returns its result.
        Raises Hang when nothing is left that could make it fire.
        """
        box = []
        d.addBoth(box.append)
        n = 0
        last = self.events
        idle = 0
        while not box:
            if until and until(): return None
            if not self.step():
                raise Hang("Deferred has not fired, no outstanding operation, no reactor work")
            if self.events == last: idle += 1
            else: idle, last = 0, self.events
            if idle > stall and not self.ops:
                raise Hang("Deferred has not fired, no outstanding operation, "
                           "only polling for {} reactor calls".format(idle))
            if idle > 50*stall:
                raise Hang("no event in {} reactor calls".format(idle))
            if self.events > maxEvents:
                raise Hang("still running after {} events".format(self.events))
        return box[0]

    def settle(self, maxCalls=3000):
        """Fires everything outstanding and runs the reactor until quiet."""
        n = 0
        while n < maxCalls and (self.ops or reactor.calls):
            if self.ops and self.policy != 'timed': self.fire(self.ops[0])
            elif not reactor.step(): break
            n += 1


class Eval(object):
    """One call of the evaluation function."""
    def __init__(self, id, values, kw, cur, phase, seq):
        self.id, self.values, self.kw, self.cur, self.phase = id, values, kw, cur, phase
        self.seq = seq
        self.raw = None
        self.done = False
        self.orig = None

    @property
    def SSE(self): return norm(self.raw)


class Evaluator(object):
    """
    The user's evaluation function. objective(e) gives what evaluation e will
    return (an Exception instance: raise or fail with it).
    """
    def __init__(self, lab, objective, sync=None):
        self.lab, self.objective = lab, objective
        self.sync = sync
        self.evals = []
        self.noneCalls = 0
        self.noneResult = None
        self.onStart = None
        self.onFinish = None
        self.onNone = None

    def isSync(self):
        if self.sync is not None: return self.sync
        if self.lab.policy == 'sync': return True
        if self.lab.policy == 'mixed': return self.lab.rng.random() < 0.5
        return False

    def __call__(self, values, **kw):
        lab = self.lab
        if values is None:
            self.noneCalls += 1
            lab.event('none-eval')
            if self.onNone: self.onNone()
            return self.noneResult() if callable(self.noneResult) else self.noneResult
        e = Eval(len(self.evals), np.array(values, dtype=float), dict(kw), CUR.get(), lab.phase, lab.events)
        e.orig = values
        self.evals.append(e)
        lab.event('eval', e.cur.kt if e.cur else None)
        if self.onStart: self.onStart(e)
        e.raw = self.objective(e)
        def finish(op=None):
            e.done = True
            if self.onFinish: self.onFinish(e)
        if self.isSync():
            finish()
            if isinstance(e.raw, Exception): raise e.raw
            return e.raw
        return lab.defer('eval', e.raw, e.cur.kt if e.cur else e.id, finish)

    @property
    def inFlight(self): return [e for e in self.evals if not e.done]


class Challenge(object):
    """Identity of one challenge, visible to code running on its behalf."""
    def __init__(self, gen, kt, kb):
        self.gen, self.kt, self.kb = gen, int(kt), int(kb)
        self.SSEs = None          # of all positions when it was issued
        self.bestAtIssue = None
        self.runnerUp = None
        self.indices = None
        self.eval = None
        self.rejected = False
        self.returned = False
        self.Frange = None


def bounds_for(rng, kind, Nd):
    if kind == 'wide': return [(-100.0, 100.0)]*Nd
    if kind == 'unit': return [(0.0, 1.0)]*Nd
    if kind == 'tight': return [(-1.0, 1.0)]*Nd
    if kind == 'int': return [(-5, 5)]*Nd
    if kind == 'mixed':
        out = []
        for k in range(Nd):
            lo = rng.uniform(-1000, 1000)*10**rng.randint(-3, 2)
            out.append((lo, lo + rng.uniform(0.1, 10)*10**rng.randint(-3, 3)))
        return out
    if kind == 'odd':
        return [rng.choice([(-1e-6, 1e-6), (1e8, 1e8+1), (-3, 7), (0, 1), (-2e5, -1e5), (0.5, 0.5000001)])
                for _ in range(Nd)]
    raise ValueError(kind)


def ref_limit(x, mins, maxs):
    """Reference for bringing a donor into bounds: mirror, else the bound."""
    x = np.where(x < mins, 2*mins - x, x)
    x = np.where(x > maxs, 2*maxs - x, x)
    return np.minimum(np.maximum(x, mins), maxs)


def small_population(Np):
    """A Population subclass with exactly Np members whatever the dimension."""
    name = 'Pop{}'.format(Np)
    if name not in globals():
        globals()[name] = type(name, (Population,), dict(Np_min=Np, Np_max=Np, __module__=__name__))
    return globals()[name]


def match(c, t, V, K, kt, bases, F, mins, maxs):
    """
    Finds how trial vector c can be made from target t and the members V[k],
    k in K. Returns a list of (kb, k0, k1, donorMask, targetMask).
    """
    return match_(c, t, V, K, kt, bases, F, mins, maxs) or (
        # Members may have coordinates in common, leaving F to be
        # found elsewhere or undetermined
        match_(c, t, V, K, kt, bases, F, mins, maxs, True) if F[0] != F[1] else [])


def match_(c, t, V, K, kt, bases, F, mins, maxs, thorough=False):
    K = [k for k in K if k != kt]
    if len(K) < 3: return []
    A = np.array([V[k] for k in K])
    scale = np.maximum(np.abs(A).max(axis=0), maxs - mins)
    tol = 1e-9*scale + 1e-300
    tm = np.abs(c - t) <= tol
    n, Nd = A.shape
    D = A[:, None, :] - A[None, :, :]
    offdiag = ~np.eye(n, dtype=bool)
    out = []
    lo, hi = F
    for b in bases:
        if b not in K: continue
        kb = K.index(b)
        allowed = offdiag.copy()
        allowed[kb, :] = False
        allowed[:, kb] = False
        if lo == hi:
            trials = [np.full((n, n), lo)]
            tolx = tol
        else:
            need = np.flatnonzero(~tm)
            if not len(need): need = np.arange(Nd)
            inner = [j for j in need if c[j] != mins[j] and c[j] != maxs[j]]
            tolx = 1e-7*scale
            if not inner:
                # Every donor coordinate sits on a bound: F undetermined
                trials = [np.full((n, n), f) for f in np.linspace(lo, hi, 41)]
            else:
                trials = []
                if thorough: trials.extend(np.full((n, n), f) for f in np.linspace(lo, hi, 41))
                for j in (inner if thorough else inner[:2]):
                    for x in (c[j], 2*mins[j]-c[j], 2*maxs[j]-c[j], c[j] - 2*(maxs[j]-mins[j])):
                        with np.errstate(all='ignore'):
                            trials.append((x - A[kb, j]) / D[:, :, j])
        for f in trials:
            with np.errstate(all='ignore'):
                eps = 1e-7*(abs(hi)+1)
                fok = np.isfinite(f) & (f >= lo-eps) & (f <= hi+eps)
                ff = np.where(fok, f, 0.0)
                donor = ref_limit(A[kb] + ff[:, :, None]*D, mins, maxs)
                ok = np.abs(donor - c) <= tolx
                good = allowed & fok & np.all(ok | tm, axis=2) & np.any(ok, axis=2)
            for i0, i1 in zip(*np.nonzero(good)):
                out.append((b, K[i0], K[i1], ok[i0, i1] & ~tm, tm & ~ok[i0, i1], float(ff[i0, i1])))
                if len(out) > 200: return out
    return out


class DERun(object):
    """
    One run of the real optimizer with the model alongside.

    cfg: Nd, Np, bounds, CR, F, randomBase, adaptive, maxiter, policy,
    setupPolicy, objective (callable), constraint (callable or None), de (extra
    keywords), checks: set of groups to judge.
    """
    def __init__(self, m, rng, cfg, objective, checks):
        self.m, self.rng, self.cfg, self.checks = m, rng, cfg, checks
        self.lab = Lab(rng, cfg.get('setupPolicy', 'sync'))
        self.ev = Evaluator(self.lab, objective)
        self.ev.onStart = self.evalStarted
        self.ev.onFinish = self.evalFinished
        Nd = cfg['Nd']
        self.names = cfg.get('names') or ["x{:d}".format(k) for k in range(Nd)]
        self.bounds = cfg.get('boundsList') or bounds_for(rng, cfg.get('bounds', 'wide'), Nd)
        self.mins = np.array([float(b[0]) for b in self.bounds])
        self.maxs = np.array([float(b[1]) for b in self.bounds])
        kw = dict(cfg.get('pop', {}))
        if cfg.get('constraint'):
            kw['constraints'] = [self.constraint]
        self.p = small_population(cfg['Np'])(self.ev, self.names, self.bounds, **kw)
        self.de = None
        self.M = None             # settled (values, SSE) by position
        self.before = None        # the same at the start of the generation
        self.gen = -1
        self.kgs = []
        self.settled = []
        self.evaluated = {}
        self.challenges = []
        self.versions = None      # position -> every value it ever had
        self.deterministicWinner = True
        self.undetermined = 0

    # -- user-supplied functions ------------------------------------------
    def constraint(self, params):
        ok = self.cfg['constraint'](params)
        cur = CUR.get()
        if cur is not None and not ok:
            cur.rejected = True
            self.m.count('rejected_trials')
            if cur.kt is not None: self.settled.append(cur.kt)
        return ok

    def setup(self, **kw):
        d = self.p.setup(**kw)
        self.setupResult = self.lab.drive(d, maxEvents=20000)
        self.takeSnapshot()
        return self.setupResult

    def takeSnapshot(self):
        self.M = [(np.array(i.values, dtype=float), norm(i.SSE)) for i in self.p]
        self.versions = [[v] for v, s in self.M]

    def wrap(self):
        """Lets code running on behalf of a challenge know which one it is."""
        orig = self.de.challenge
        origLock = self.p.lock
        def challenge(kt, kb):
            ch = Challenge(self.gen, kt, kb)
            SSEs = [s for v, s in self.M]
            order = sorted(range(len(SSEs)), key=lambda k: SSEs[k])
            ch.SSEs = SSEs
            ch.bestAtIssue = [k for k in range(len(SSEs)) if SSEs[k] == SSEs[order[0]]]
            rest = [k for k in order if k != ch.kt]
            ch.runnerUp = [k for k in rest if SSEs[k] == SSEs[rest[0]]]
            self.challenges.append(ch)
            self.lab.event('challenge', ch.kt)
            ctx = contextvars.copy_context()
            ctx.run(CUR.set, ch)
            d = ctx.run(orig, kt, kb)
            def back(x):
                ch.returned = True
                return x
            if isinstance(d, defer.Deferred): d.addBoth(back)
            return d
        def lock(*indices):
            cur = CUR.get()
            if cur is not None and cur.indices is None:
                cur.indices = [int(k) for k in indices]
                self.m.count('lock_requests')
            return origLock(*indices)
        self.de.challenge = challenge
        self.p.lock = lock

    def start(self, **kw):
        cfg = self.cfg
        for name in ('CR', 'F', 'randomBase', 'adaptive', 'maxiter', 'xSSE', 'goalSSE', 'bitterEnd', 'dwellByGrave'):
            if name in cfg and name not in cfg.get('omit', ()): kw[name] = cfg[name]
        if 'F' in kw and isinstance(kw['F'], list): kw['F'] = tuple(kw['F'])
        kw.setdefault('logHandle', None)
        self.de = DifferentialEvolution(self.p, **kw)
        self.wrap()
        self.lab.policy = cfg.get('policy', 'random')
        self.lab.phase = 'run'
        self.newGeneration()
        self.d = self.de(self.generationDone)
        return self.d

    def run(self, maxEvents=None):
        if maxEvents is None:
            maxEvents = 2000 + 12*self.cfg['Np']*(self.cfg.get('maxiter', 5) + 2)
        self.result = self.lab.drive(self.start(), maxEvents=maxEvents)
        if 'select' in self.checks: self.compareWhole("at the end of the run")
        return self.result

    # -- monitor -----------------------------------------------------------
    def newGeneration(self):
        self.gen += 1
        self.before = list(self.M)
        self.settled = []
        self.evaluated = {}
        self.nSettledEvals = 0

    def generationDone(self, kg):
        m = self.m
        self.lab.event('generation', kg)
        self.kgs.append(kg)
        m.count('generations')
        if 'account' in self.checks:
            m.check(kg == len(self.kgs)-1, 'callback-number',
                    "per-generation callback got {} as its call number {}", kg, len(self.kgs)-1)
            self.checkGenerationComplete()
        if 'select' in self.checks: self.compareWhole("at the end of generation {}".format(kg))
        if self.cfg.get('onGeneration'): self.cfg['onGeneration'](self, kg)
        self.newGeneration()

    def checkGenerationComplete(self):
        m = self.m
        unfinished = self.ev.inFlight
        m.check(not unfinished, 'generation-overlap',
                "generation ended with {} evaluations unfinished", len(unfinished))
        Np = self.p.Np
        missing = [k for k in range(Np) if k not in self.settled]
        m.check(not missing, 'position-skipped',
                "positions {} were not challenged in generation {}", missing[:5], self.gen)
        m.check(len(self.settled) == len(set(self.settled)), 'position-twice',
                "some position was challenged twice in generation {}", self.gen)

    def sameAs(self, i, v, s):
        return np.array_equal(np.asarray(i.values, dtype=float), v) and norm(i.SSE) == s

    def compareWhole(self, when):
        m = self.m
        m.check(len(self.p) == len(self.M), 'population-size', "population has {} members {}", len(self.p), when)
        for k, i in enumerate(self.p):
            v, s = self.M[k]
            m.count('members_compared')
            if not self.sameAs(i, v, s):
                m.bad('wrong-member', "{}: position {} holds SSE {} {} but the outcome of its challenges is SSE {} {}",
                      when, k, i.SSE, list(i.values), s, list(v))
                return

    def evalStarted(self, e):
        if e.phase != 'run': return
        m = self.m
        ch = e.cur
        m.count('challenger_evaluations')
        if ch is None:
            m.count('unattributed_evaluations')
            return
        ch.eval = e
        e.target = self.M[ch.kt]
        kt = ch.kt
        try: ch.Frange = (float(self.de.fm.lowest), float(self.de.fm.highest))
        except AttributeError: ch.Frange = None
        if 'account' in self.checks:
            m.check(kt not in self.evaluated, 'position-twice',
                    "position {} evaluated twice in generation {}", kt, self.gen)
            m.check(ch.gen == self.gen, 'generation-overlap',
                    "an evaluation of generation {} started in generation {}", ch.gen, self.gen)
        if kt in self.evaluated: return
        self.evaluated[kt] = e
        if 'select' in self.checks:
            for k, i in enumerate(self.p):
                ok = self.sameAs(i, *self.M[k]) or self.sameAs(i, *self.before[k])
                m.count('members_compared')
                if not ok:
                    m.bad('wrong-member', "during generation {}: position {} holds SSE {} which is neither its member before nor after its challenge", self.gen, k, i.SSE)
                    break
        if 'recipe' in self.checks or 'serial' in self.checks:
            self.checkRecipe(e, ch)

    def allowedMembers(self, kt):
        """Members the challenge at kt may draw on, by position."""
        V = {}
        for k in range(len(self.M)):
            if k < kt:
                if k in self.settled: V[k] = self.M[k][0]
            else:
                V[k] = self.before[k][0]
        return V

    def checkRecipe(self, e, ch):
        m, cfg = self.m, self.cfg
        kt = ch.kt
        V = self.allowedMembers(kt)
        t = self.before[kt][0]
        F = cfg['F']
        lo, hi = (F if isinstance(F, (tuple, list)) else (F, F))
        if cfg.get('adaptive', True) or lo == 0:
            if ch.Frange is None: lo = 0.0
            else: lo, hi = ch.Frange
        best = not cfg.get('randomBase')
        if best: bases = [k for k in ch.bestAtIssue if k != kt] or ch.runnerUp
        else: bases = list(V)
        found = match(e.values, t, V, list(V), kt, bases, (lo, hi), self.mins, self.maxs)
        m.count('recipes_checked')
        if found:
            self.recordRecipe(e, ch, found, bases)
            return
        if best:
            any_ = match(e.values, t, V, list(V), kt, list(V), (lo, hi), self.mins, self.maxs)
            if any_:
                if 'recipe' in self.checks:
                    m.bad('wrong-base', "target {}: challenger built on base {} instead of the best member {}",
                          kt, any_[0][0], bases)
                return
        # Explain: does it use a member from the wrong moment?
        V2, tag = {}, {}
        n = 0
        for k in range(len(self.M)):
            for v in self.versions[k][-4:]:
                V2[n] = v; tag[n] = k; n += 1
        stale = None
        if len(V2) <= 160 and 'serial' in self.checks:
            for tv in self.versions[kt][-3:]:
                stale = match(e.values, tv, V2, list(V2), None,
                              [x for x in V2 if tag[x] in bases] if best else list(V2), (lo, hi), self.mins, self.maxs)
                if stale: break
        if stale:
            m.bad('stale-member', "generation {} target {}: challenger was built from members {} at another moment than the one-at-a-time order prescribes",
                  self.gen, kt, sorted({tag[x] for x in stale[0][:3]}))
        else:
            m.bad('recipe', "generation {} target {}: challenger {} cannot be made from target {} and any three other settled members with F in [{}, {}]",
                  self.gen, kt, list(e.values), list(t), lo, hi)

    def recordRecipe(self, e, ch, found, bases):
        m, cfg = self.m, self.cfg
        keys = {(b, k0, k1) for b, k0, k1, dm, tm, f in found}
        e.picks = keys
        if len(keys) != 1:
            m.count('ambiguous_recipes')
            return
        b, k0, k1, dm, tm, f = found[0]
        m.count('unique_recipes')
        if self.cfg.get('stats'):
            Nd = cfg['Nd']
            if isinstance(cfg['F'], (int, float)) and np.all(dm | tm):
                key = "{}/{}".format(cfg['CR'], Nd)
                hist = [0]*(Nd+1)
                hist[int(dm.sum())] = 1
                m.stat('donor_count', key, hist)
                m.stat('donor_position', key, list(dm.astype(int)) + [1])
            others = [k for k in range(len(self.M)) if k not in (ch.kt, b)]
            vec = [0.0]*(2*len(self.M))
            vec[k0] += 1; vec[k1] += 1
            for k in others: vec[len(self.M)+k] += 2.0/len(others)
            m.stat('difference_members', len(self.M), vec)
            ranked = sorted(others, key=lambda k: ch.SSEs[k])
            vec = [0]*len(others)
            vec[ranked.index(k0)] += 1; vec[ranked.index(k1)] += 1
            m.stat('difference_ranks', "{}/{}".format(cfg.get('randomBase'), len(others)), vec)
            m.stat('difference_order', 0, [1.0 if k0 < k1 else 0.0, 1.0])
            if not isinstance(cfg['F'], (int, float)):
                lo, hi = cfg['F'] if not cfg.get('adaptive', True) else (0, 0)
                if hi > lo and lo > 0:
                    u = (f - lo)/(hi - lo)
                    bins = [0]*10
                    bins[min(9, max(0, int(u*10)))] = 1
                    m.stat('F_draws', 0, bins)
            if cfg.get('randomBase'):
                ranks = sorted((k for k in range(len(self.M)) if k != ch.kt), key=lambda k: ch.SSEs[k])
                r = ranks.index(b)
                vec = [0]*len(ranks)
                vec[r] = 1
                m.stat('base_rank', "{}/{}".format(cfg['randomBase'], len(ranks)), vec)

    def evalFinished(self, e):
        if e.phase != 'run' or e.cur is None: return
        kt = e.cur.kt
        if isinstance(e.raw, Exception): return
        if e.SSE < 0: return
        v, s = self.M[kt]
        self.m.count('tournaments')
        if self.frozen(): return
        if e.SSE < s:
            self.M[kt] = (e.values, e.SSE)
            self.versions[kt].append(e.values)
            self.m.count('wins')
        elif e.SSE == s: self.m.count('ties')
        if kt not in self.settled or True: self.settled.append(kt)

    def frozen(self):
        return False
