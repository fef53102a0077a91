"""
Virtual-time Twisted reactor and the controlled environment ade runs in.

Import this module before anything that imports twisted.internet.reactor. The
reactor's clock only moves when the harness says so, one delayed call at a
time, so every schedule is a deterministic function of the case's seed.
"""
import sys, os, random, contextvars, warnings

import numpy as np
from twisted.internet import defer, task
from twisted.internet.interfaces import IReactorCore, IReactorTime, IReactorFDSet
from twisted.internet.main import installReactor
from twisted.python import log as tlog
from zope.interface import implementer


@implementer(IReactorCore, IReactorTime, IReactorFDSet)
class SimReactor(task.Clock):
    def __init__(self):
        task.Clock.__init__(self)
        self.running = True
        self._triggers = {}
        self._fired = set()
        self._tid = 0
        self.stopped = 0

    # -- IReactorCore
    def addSystemEventTrigger(self, phase, event, func, *args, **kw):
        self._tid += 1
        tid = ('sim', phase, event, self._tid)
        self._triggers[tid] = (func, args, kw)
        return tid

    def removeSystemEventTrigger(self, tid):
        # Like the real one, which merely warns about one already fired
        if tid in self._fired: return
        del self._triggers[tid]

    def fireSystemEvent(self, event):
        for phase in ('before', 'during', 'after'):
            for tid in [t for t in self._triggers if t[1] == phase and t[2] == event]:
                func, args, kw = self._triggers.pop(tid, (None, None, None))
                self._fired.add(tid)
                if func: func(*args, **kw)

    def callWhenRunning(self, func, *args, **kw):
        func(*args, **kw)

    def callFromThread(self, func, *args, **kw):
        self.callLater(0, func, *args, **kw)

    def stop(self): self.stopped += 1
    def crash(self): self.stopped += 1
    def run(self, *a, **kw): raise RuntimeError("not in the simulation")
    def iterate(self, delay=0): raise RuntimeError("not in the simulation")
    def resolve(self, *a, **kw): raise RuntimeError("no network")

    # -- IReactorFDSet
    def addReader(self, x): pass
    def addWriter(self, x): pass
    def removeReader(self, x): pass
    def removeWriter(self, x): pass
    def removeAll(self): return []
    def getReaders(self): return []
    def getWriters(self): return []

    # -- simulation
    def step(self):
        """Runs the earliest delayed call, moving the clock to it. False if none."""
        if not self.calls: return False
        self._sortCalls()
        call = self.calls.pop(0)
        if call.getTime() > self.rightNow:
            self.rightNow = call.getTime()
        call.called = 1
        call.func(*call.args, **call.kw)
        return True

    def reset(self):
        self.calls = []
        self.rightNow = 0.0
        self._triggers = {}
        self.stopped = 0


reactor = SimReactor()
installReactor(reactor)

from twisted.internet import stdio as _stdio

class FakeTransport(object):
    def __init__(self): self.lost = 0
    def loseConnection(self): self.lost += 1
    def write(self, data): pass

class FakeStandardIO(object):
    """
    Stands in for the console. Keeps the protocol so that the harness can
    deliver an Enter key press.
    """
    latest = None
    def __init__(self, proto, *args, **kw):
        self.proto = proto
        self.transport = FakeTransport()
        FakeStandardIO.latest = self
        proto.makeConnection(self.transport)

_stdio.StandardIO = FakeStandardIO

if '/repo' not in sys.path: sys.path.insert(0, '/repo')

import ade
assert os.path.realpath(ade.__file__).startswith('/repo/'), ade.__file__
from ade import abort, de, history, individual, population, report, specs, util
from ade import constraints as constraints_mod
from ade.population import Population
from ade.individual import Individual
from ade.de import DifferentialEvolution
from ade.util import msg

#: Which challenge the running code belongs to, set by the challenge wrapper
CUR = contextvars.ContextVar('challenge', default=None)


class LogErrors(object):
    """Collects errors Twisted logs ("Unhandled error in Deferred")."""
    def __init__(self): self.errors = []
    def __call__(self, event):
        if event.get('isError'):
            f = event.get('failure')
            self.errors.append(f.getTraceback(detail='brief') if f else str(event.get('message')))

logErrors = LogErrors()
tlog.startLoggingWithObserver(logErrors, setStdout=False)
warnings.filterwarnings('ignore', category=RuntimeWarning)


def fresh(seed):
    """Puts the process-wide state into a known condition before a case."""
    import gc
    gc.collect()
    logErrors.errors = []
    reactor.reset()
    task._theCooperator = task.Cooperator(
        terminationPredicateFactory=lambda: (lambda: True),
        scheduler=lambda f: reactor.callLater(1e-8, f))
    random.seed(seed)
    np.random.seed(seed % (2**32))
    msg.fh = None
    msg.newlineNeeded = False
    abort.KeyboardHolder.KB = None
    CUR.set(None)
    np.seterr(all='ignore')


def enter():
    """Presses the Enter key."""
    FakeStandardIO.latest.proto.dataReceived(b"\n")


def result_of(d):
    """(fired, result-or-Failure) of a Deferred, consuming failures."""
    box = []
    d.addBoth(box.append)
    return (True, box[0]) if box else (False, None)


def drain(maxCalls=2000):
    """Runs reactor calls until there are none (or maxCalls were run)."""
    n = 0
    while n < maxCalls and reactor.step(): n += 1
    return n


class Hang(Exception):
    """The execution cannot go on although it has not finished."""


class CaseTimeout(BaseException):
    """CPU budget of one case exhausted."""
