"""Model of what is reported, as documented, and the callbacks that watch it."""
import numpy as np
from rv.lab import norm, INF
from rv.sim import reactor


class Item(object):
    """An individual as the model sees it; SSE becomes infinite by a complaint."""
    def __init__(self, values, SSE, real=None):
        self.values, self.SSE, self.real = np.array(values, dtype=float), norm(SSE), real
        self.disqualified = False

    def same(self, other):
        return other is not None and self.SSE == other.SSE and np.array_equal(self.values, other.values)


class RModel(object):
    """
    Which reports lead to an announcement. The pending announcement is replaced
    by a later one as long as the callbacks are busy.
    """
    def __init__(self, m, minDiff=0.02):
        self.m, self.minDiff = m, minDiff
        self.clear()
        self.running = None        # (item, next callback number) being announced
        self.announced = []
        self.superseded = 0

    def clear(self):
        self.best = self.last = None
        self.pending = None
        self.previous = []

    def insignificant(self, better, worse):
        if worse is None or worse.SSE == 0: return False
        with np.errstate(all='ignore'):
            return abs(np.float64(better.SSE)/np.float64(worse.SSE) - 1.0) < self.minDiff

    def borderline(self, better, worse):
        """Too close to the limit for rounding errors not to matter."""
        if worse is None or not worse.SSE or worse.SSE == INF or better.SSE == INF: return False
        return abs(abs(better.SSE/worse.SSE - 1.0) - self.minDiff) < 1e-9

    def report(self, item, versus=False, force=False):
        """An individual was reported. Returns True if it'll be announced."""
        if not (self.best is None or item.SSE < self.best.SSE or (force and not versus)): return False
        isBest = self.best is None or item.SSE < self.best.SSE
        if isBest:
            if self.best is not None: self.previous.append(self.best)
            self.best = item
        if item.same(self.last): return False
        if not force:
            if not isBest: return False
            if self.insignificant(item, self.last): return False
        self.last = item
        if self.pending is not None: self.superseded += 1
        if self.pending is not None and not self.running and self.pendingAge != reactor.seconds():
            self.m.bad('missed', "SSE {} was never announced although no callback was under way", self.pending.SSE)
        self.pending = item
        self.pendingAge = reactor.seconds()
        return True

    def disqualify(self, item, members=()):
        """A callback complained about item."""
        item.SSE = INF
        item.disqualified = True
        while self.previous and self.best.SSE == INF: self.best = self.previous.pop()
        for x in members:
            if x.SSE < self.best.SSE: self.best = x


class Watch(object):
    """
    The user's report callbacks. Judges each call against the model; how a call
    ends is up to behave(k, item): None, or a Deferred, or ('complain', x).
    """
    def __init__(self, m, model, N, behave, forced=None):
        self.m, self.model, self.N, self.behave = m, model, N, behave
        self.forced = forced      # gives the best member, if announcing it is fine at any time
        self.busy = False
        self.current = None
        self.next = 0
        self.complained = False

    def register(self, p):
        for k in range(self.N):
            p.addCallback(self.call, k, tag="cb{}".format(k))

    def call(self, values, counter, SSE, *args, **kw):
        m, model = self.m, self.model
        m.count('callback_calls')
        m.check(len(args) == 1 and kw == dict(tag="cb{}".format(args[0] if args else None)), 'arguments',
                "a report callback registered with one extra argument and a keyword got {} {}", args, kw)
        k = args[0] if args else 0
        v = np.array(values, dtype=float)
        m.check(not self.busy, 'overlap', "report callback {} was called while another one was still under way", k)
        if k == 0:
            m.check(self.next in (0, self.N) or self.complained, 'incomplete',
                    "a new announcement began although only {} of {} callbacks had been called", self.next, self.N)
            item = model.pending
            if item is not None and self.matches(item, v, SSE):
                model.pending = None
            else:
                item = None
                if self.forced:
                    x = self.forced()
                    if x is not None and self.matches(x, v, SSE): item = x
                if item is None:
                    m.bad('unexpected', "announced SSE {} {}, expected {}", SSE, list(v),
                          "none" if model.pending is None else "SSE {} {}".format(model.pending.SSE, list(model.pending.values)))
                    item = Item(v, SSE)
                else:
                    m.count('forced_seen')
                    if self.lastItem() is not None and not self.lastItem().disqualified:
                        m.check(not item.same(self.lastItem()), 'repeated', "the very same individual with SSE {} was announced twice", SSE)
                    model.last = item
                    if model.best is None or item.SSE < model.best.SSE: model.best = item
                model.pending = None
            m.count('announcements')
            model.announced.append((list(v), norm(SSE)))
            self.current = item
            self.complained = False
            model.running = True
        else:
            m.check(k == self.next, 'order', "report callback {} was called, expected {}", k, self.next)
            ok = self.current is not None and self.matches(self.current, v, SSE)
            m.check(ok, 'other-individual', "report callback {} got SSE {}, callback 0 got another individual's ({})", k, SSE,
                    self.current.SSE if self.current else None)
        self.next = k + 1
        result = self.behave(self, k, self.current)
        if hasattr(result, 'addBoth'):
            self.busy = True
            m.count('slow_callbacks')
            def over(x):
                self.busy = False
                self.finished()
                return x
            result.addBoth(over)
        else: self.finished()
        return result

    def lastItem(self): return self.current

    def finished(self):
        if self.next == self.N: self.model.running = None

    def matches(self, item, v, SSE):
        return np.array_equal(item.values, v) and norm(SSE) == item.SSE
