"""Compares what a population's history says with the population itself."""
import collections
import numpy as np


def row32(SSE, values):
    """The single-precision record of an individual, None if not finite."""
    with np.errstate(all='ignore'):
        r = np.array([float(SSE)] + [float(x) for x in values]).astype('f4')
    if not np.all(np.isfinite(r)): return None
    return tuple(r.tolist())


class HistoryMonitor(object):
    """
    Knows who was ever a member and who lost; compare() judges the history at
    a moment when no operation is pending.
    """
    def __init__(self, m, p):
        self.m, self.p = m, p
        self.ever = collections.Counter()
        self.losers = collections.Counter()

    def member(self, SSE, values):
        r = row32(SSE, values)
        if r is not None: self.ever[r] += 1

    def loser(self, SSE, values):
        r = row32(SSE, values)
        if r is not None: self.losers[r] += 1

    def compare(self, when, exactLosers=False):
        m, p = self.m, self.p
        h = p.history
        m.count('membership_comparisons')
        K = [int(k) for k in h.K]
        rows = {k: tuple(float(x) for x in h.X[k]) for k in K}
        inPop = collections.Counter(rows[k] for k in K if k in h.Kp)
        never = collections.Counter(rows[k] for k in K if k in h.Kn)
        former = collections.Counter(rows[k] for k in K if k not in h.Kp and k not in h.Kn)
        want = collections.Counter()
        for i in p:
            r = row32(i.SSE, i.values)
            if r is not None: want[r] += 1
        m.count('member_records', sum(inPop.values()))
        m.count('former_records', sum(former.values()))
        m.count('never_records', sum(never.values()))
        m.check(inPop == want, 'membership', "{}: records in the population: {} members missing, {} extra",
                when, list((want - inPop).elements())[:3], list((inPop - want).elements())[:3])
        m.check(not (former - (self.ever - want)), 'former', "{}: reported as formerly in the population but were not: {}",
                when, list((former - (self.ever - want)).elements())[:3])
        m.check(not (never - self.losers), 'never', "{}: reported as never in the population but did not lose: {}",
                when, list((never - self.losers).elements())[:3])
        if exactLosers:
            m.check(never == self.losers, 'losers-recorded', "{}: losing challengers missing from the history: {}",
                    when, list((self.losers - never).elements())[:3])
