"""What a case reports: violations, counts of what was observed, signature."""
import json, hashlib
import numpy as np


def plain(x):
    """JSON-able version of x."""
    if isinstance(x, dict): return {str(k): plain(v) for k, v in x.items()}
    if isinstance(x, (list, tuple, set, frozenset)): return [plain(v) for v in x]
    if isinstance(x, np.ndarray): return [plain(v) for v in x.tolist()]
    if isinstance(x, (np.integer,)): return int(x)
    if isinstance(x, (np.floating,)): return float(x)
    if isinstance(x, (np.bool_,)): return bool(x)
    if isinstance(x, (str, int, float, bool)) or x is None: return x
    return repr(x)


class Mon(object):
    def __init__(self):
        self.violations = []      # [key, text]
        self.counts = {}
        self.stats = {}           # aggregated by summation: name -> {key: [..]}
        self.sigparts = []
        self.nontrivial = False
        self.notes = None

    def bad(self, key, text, *args):
        """Records a violation; key names the mechanism."""
        if len(self.violations) < 20:
            self.violations.append([key, (text.format(*args) if args else text)[:600]])

    def check(self, cond, key, text, *args):
        self.count('checks')
        if not cond: self.bad(key, text, *args)
        return cond

    def count(self, name, n=1):
        self.counts[name] = self.counts.get(name, 0) + n

    def stat(self, name, key, values):
        """Adds a vector of numbers to the aggregate statistic name/key."""
        d = self.stats.setdefault(name, {})
        key = str(key)
        values = [float(v) for v in values]
        if key in d: d[key] = [a + b for a, b in zip(d[key], values)]
        else: d[key] = values

    def sig(self, *parts):
        self.sigparts.append(repr(plain(parts)))

    def result(self):
        h = hashlib.sha1("|".join(self.sigparts).encode()).hexdigest()[:16]
        return dict(violations=self.violations, counts=self.counts, stats=self.stats,
                    sig=h, nontrivial=bool(self.nontrivial), notes=plain(self.notes))
