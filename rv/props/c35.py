"""C35: progress characters say what became of each report."""
import random, io
import numpy as np
from rv.lab import Lab, small_population, norm, INF
from rv.sim import msg, Population, drain

LEVEL = 'exploration'
ROUNDS = 8
RULE = "Sequences of reports are distinct by SSEs and kinds; non-trivial when they made at least five different characters."
NEED = ['reports', 'first', 'new_best', 'fatal', 'both_invalid', 'invalid', 'replaced_invalid', 'failed', 'equivalent', 'digits', 'nines', 'challenge_best', 'silent',
        'forced', 'full_lines', 'lines_ended', 'failed_constraints', 'runs', 'run_characters', 'zero_best', 'no_log', 'callback_lines']
LIMIT = 120


def cases(tier, seed):
    rng = random.Random(seed*71 + 35)
    out = []
    for k in range(400 if tier == 'quick' else 4000):
        out.append(dict(seed=seed*100333 + k, mode='run' if k % 8 == 0 else 'reports', n=rng.choice([10, 60, 300]), minDiff=rng.choice([None, None, 0.2])))
    return out


class Log(io.StringIO):
    def close(self): pass


def number(rng):
    r = rng.random()
    if r < 0.05: return 0.0
    if r < 0.11: return None
    if r < 0.16: return INF
    if r < 0.21: return float('nan')
    if r < 0.25: return rng.choice([-1, -0.5])
    if r < 0.30: return rng.choice([1e-300, 1e300, 7, np.float64(4.0), np.float32(2.5)])
    return 10**rng.uniform(-1, 2)


def fatal(s): return s is not None and s < 0


def ratio_chars(num, den, minDiff, bogus):
    """Characters that may stand for num (old SSE) vs den (new SSE)."""
    if fatal(num) or fatal(den): return '?', 'fatal'
    a, b = norm(num), norm(den)
    if a == INF: return ('%', 'both_invalid') if b == INF else (bogus, 'invalid' if bogus == '#' else 'replaced_invalid')
    if b == INF: return '#', 'invalid'
    if a < b: return 'X', 'failed'
    if a == b: return '0', 'equivalent'
    if b == 0: return '9', 'nines'
    q = abs(float(b)/float(a) - 1.0)
    if abs(q - minDiff) < 1e-9: return None, None
    if q < minDiff: return '0', 'equivalent'
    x = float(a)/float(b)
    if x >= 8.6: return '9', 'nines'
    c = {str(min(9, int(np.floor(x+0.5-1e-9)))), str(min(9, int(np.floor(x+0.5+1e-9))))}
    return "".join(sorted(c)), 'digits'


def reports(params, m):
    rng = random.Random(params['seed'])
    p = small_population(6)(lambda values: 1.0, ['a', 'b'], [(-10, 10)]*2)
    log = Log()
    msg(None)
    lb = Lab(random.Random(1), 'sync')
    lb.drive(p.setup(blank=True))
    rep = p.reporter
    rep.clear()
    if params['minDiff']: rep.minDiff = params['minDiff']
    minDiff = rep.minDiff
    use_log = rng.random() < 0.95
    # Callbacks may log lines of their own, which end a line of characters
    talk = rng.random() < 0.3
    said = []
    def callback(values, counter, SSE):
        if talk and rng.random() < 0.7:
            m.count('callback_lines')
            said.append(1)
            ends.add(len("".join(x for x in log.getvalue().split('\n') if 'SAID' not in x)))
            msg("SAID {:d}".format(len(said)))
    p.addCallback(callback)
    msg(log if use_log else None)
    best = None                 # SSE of the best reported so far
    want = []                   # one string of acceptable characters each
    ends = set()                # lengths of want after which the line was ended on purpose
    def ind(s):
        i = p.spawn([rng.uniform(-10, 10), rng.uniform(-10, 10)]); i.SSE = s
        return i
    def better(a, b): return norm(a) < norm(b)
    iBest = None
    kinds = set()
    for n in range(params['n']):
        r = rng.random()
        silent = rng.random() < 0.1
        kw = dict(noProgress=True) if silent else {}
        before = len(want)
        if silent: m.count('silent')
        via = rng.choice(['reporter', 'population'])
        call = rep if via == 'reporter' else p.report
        m.count('reports')
        if r < 0.4:
            s = number(rng); i = ind(s)
            force = not fatal(s) and rng.random() < 0.1
            if force: kw['force'] = True
            call(i, **kw)
            if fatal(s): c, k = '%', 'fatal'
            elif best is None: c, k = '*', 'first'
            elif better(s, best[0]) or force:
                c, k = '!', 'new_best'
                if force: m.count('forced')
            else: c, k = ratio_chars(s, best[0], minDiff, '#')
            if not fatal(s) and (best is None or better(s, best[0])): best = (s,)
            if not silent: want.append(c); m.count(k) if k else None
        elif r < 0.8:
            a, b = number(rng), number(rng)
            if fatal(b) and best is None: continue
            if rng.random() < 0.3 and a is not None and not fatal(a) and norm(a) != INF: b = type(a)(float(a)*rng.choice([1, 0.99, 0.9, 0.5, 0.34, 0.101]))
            iNew, iOld = ind(b), ind(a)
            call(iNew, iOld, **kw)
            c, k = ratio_chars(a, b, minDiff, '!')
            if not silent:
                want.append(c); m.count(k) if k else None
            if best is None or (not fatal(b) and better(b, best[0])):
                best = (b,)
                if norm(b) == 0: m.count('zero_best')
                if not silent: want.append('+'); m.count('challenge_best')
        elif r < 0.9:
            p.showFailedConstraint()
            m.count('failed_constraints')
            want.append(p.failedConstraintChar)
        elif r < 0.93:
            rep.progressChar()
            m.count('lines_ended')
            ends.add(len(want))
        else:
            sym = rng.choice("abc~")
            for _ in range(rng.choice([1, 5, 30])): rep.progressChar(sym); want.append(sym)
        drain()
        kinds.update(x[0] for x in want[before:] if x)
    if not use_log:
        m.count('no_log')
        m.check(not log.getvalue(), 'no-log', "characters without a log")
        return
    text = log.getvalue()
    rows = text.split('\n')
    m.check([x for x in rows if 'SAID' in x] == ["SAID {:d}".format(k+1) for k in range(len(said))], 'callback-lines', "lines logged by callbacks: {}",
            [x for x in rows if 'SAID' in x][:5])
    text = "\n".join(x for x in rows if 'SAID' not in x)
    got = text.replace('\n', '')
    if not m.check(len(got) == len(want), 'number', "{} characters for {} reports: {!r}", len(got), len(want), text[-300:]): return
    for k, (g, w) in enumerate(zip(got, want)):
        if w is None: continue
        if not m.check(g in w, 'character', "character {} is {!r} instead of {!r} in {!r}", k, g, w, got[max(0, k-20):k+3]): return
    pos = 0
    lines = [l for l in text.split('\n') if l]
    for k, line in enumerate(lines):
        pos += len(line)
        if not m.check(len(line) <= LIMIT, 'line-length', "a line of {} characters", len(line)): return
        last = k == len(lines) - 1
        if len(line) == LIMIT: m.count('full_lines')
        if not last: m.check(len(line) == LIMIT or pos in ends, 'line-break', "a line ends after {} of {} characters", len(line), LIMIT)
    if len(kinds) >= 5: m.nontrivial = True
    m.sig(params['seed'])


def run(params, m):
    """Characters of a real run: one for each challenge, and one more for each new best."""
    from rv.sim import DifferentialEvolution
    rng = random.Random(params['seed'])
    np.random.seed(params['seed'] % 2**31)
    calls = []
    def func(values):
        if values is None: return
        s = float(np.sum(np.square(values))) + 0.01
        if rng.random() < 0.1: s = None
        calls.append(s)
        return s
    constraint = rng.random() < 0.4
    refused = []
    def check(params):
        ok = params['a'] + params['b'] < 5
        if not ok: refused.append(1)
        return ok
    Np = 8
    p = small_population(Np)(func, ['a', 'b'], [(-5, 5)]*2, constraints=[check] if constraint else [])
    log = Log(); msg(log)
    lb = Lab(random.Random(1), 'sync')
    lb.drive(p.setup())
    mark, n0, r0 = len(log.getvalue()), len(calls), len(refused)
    def chars(text): return "".join(l for l in text.split('\n') if l and set(l) <= set("*!#%X?+0123456789" + p.failedConstraintChar))
    setup = chars(log.getvalue())
    m.check(len(setup) == n0 + r0, 'run-setup', "{} characters for {} evaluations and {} refusals in setup: {!r}", len(setup), n0, r0, setup[:200])
    best = min(norm(s) for s in calls)
    log.seek(0); log.truncate()
    gens = rng.choice([1, 3])
    de = DifferentialEvolution(p, maxiter=gens, bitterEnd=True, logHandle=log)
    lb.drive(de())
    news = 0
    for s in calls[n0:]:
        if norm(s) < best: best = norm(s); news += 1
    got = chars(log.getvalue())
    m.count('runs'); m.count('run_characters', len(got))
    want = len(calls) - n0 + len(refused) - r0 + news
    m.check(len(got) == want, 'run-number', "{} characters for {} challenges evaluated, {} refused and {} new bests: {!r}", len(got), len(calls)-n0, len(refused)-r0, news, log.getvalue()[-400:])
    m.check(got.count('+') == news, 'run-best', "{} of the characters are '+' with {} new bests", got.count('+'), news)
    m.check(got.count(p.failedConstraintChar) == len(refused) - r0, 'run-refused', "{} of the characters are {!r} with {} refusals", got.count(p.failedConstraintChar),
            p.failedConstraintChar, len(refused) - r0)
    m.nontrivial = True
    m.sig(params['seed'], 'run')


def run_case(params, m):
    try: (run if params['mode'] == 'run' else reports)(params, m)
    finally: msg(None)
