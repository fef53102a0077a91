"""C34: printed individuals and populations tell the truth."""
import random, re, time
import numpy as np
from rv.sim import Population, drain, defer
from rv.lab import small_population, INF

LEVEL = 'exploration'
ROUNDS = 8
RULE = "Texts are distinct by the values printed; non-trivial when there were several parameters, not in alphabetical order, and some value near a bound."
NEED = ['individuals', 'values', 'low_marks', 'high_marks', 'no_marks', 'wrapped', 'preludes', 'SSEs', 'invalid_SSEs', 'populations', 'empty_populations',
        'top_columns', 'top_values', 'few_members', 'changed_bounds', 'eval_times', 'reevaluated', 'unevaluated', 'name_lists', 'dicts']
MARK = re.compile(r'^(.*?)(\*{0,2})$')


def cases(tier, seed):
    rng = random.Random(seed*67 + 34)
    return [dict(seed=seed*100313 + k, Nd=rng.choice([1, 2, 3, 5, 8, 14]), Np=rng.choice([4, 5, 7, 12, 30]), timed=k % 25 == 0)
            for k in range(400 if tier == 'quick' else 4000)]


def close(text, x, digits):
    """Whether text stands for x, to that many significant digits."""
    try: y = float(text)
    except ValueError: return False
    x = float(x)
    if x != x: return y != y
    if x in (INF, -INF) or x == 0: return y == x
    return abs(y - x) <= 0.5001*10.0**(np.floor(np.log10(abs(x))) - digits + 1) + 1e-320


def mark_ok(mark, x, lo, hi):
    if hi == lo: return True
    u = (float(x) - lo)/(hi - lo)
    if min(abs(u - 0.05), abs(u - 0.95)) < 1e-9: return True
    return mark == ("*" if u < 0.05 else "**" if u > 0.95 else "")


def run_case(params, m):
    rng = random.Random(params['seed'])
    Nd = params['Nd']
    pool = ["{}{}".format(rng.choice(["a", "B", "gamma_x", "Zeta-prime", "m.n", "_u"]), k) for k in range(Nd)]
    rng.shuffle(pool)
    names = pool
    bounds = []
    for k in range(Nd):
        lo = rng.choice([0, -5, 1e-9, -1e6, 2.5, -300])
        bounds.append((lo, lo + rng.choice([1, 10, 1e-6, 3e5, 0.7])))

    def value(k, where=None):
        lo, hi = bounds[k]
        u = rng.choice([0.0, 1.0, 0.01, 0.03, 0.97, 0.5, 0.3, 0.06, 0.94, rng.random(), rng.random()])
        return lo + u*(hi - lo)

    times = []
    def func(values):
        if values is None: return
        if params['timed']: time.sleep(rng.choice([0, 0.002, 0.006]))
        return 1.0 + float(np.sum(np.square(values/scale)))
    scale = np.array([max(abs(lo), abs(hi)) for lo, hi in bounds])
    p = small_population(params['Np'])(func, names, bounds)
    m.count('empty_populations')
    m.check('empty' in repr(p).lower(), 'empty', "an empty population prints as {!r}", repr(p)[:100])

    def check_pretty(text, values, what):
        """text has all the values, and nothing else."""
        for line in text.split('\n'): m.check(len(line) <= 122, 'too-long', "{}: a line of {} characters", what, len(line))
        if '\n' in text: m.count('wrapped')
        got = text.split()
        want = sorted(names)
        if not m.check(len(got) == Nd and all('=' in g for g in got), 'items', "{}: {} items for {} parameters: {!r}", what, len(got), Nd, text[:200]): return
        got = [g.split('=', 1) for g in got]
        if not m.check([g[0] for g in got] == want, 'names', "{}: {} instead of {}", what, [g[0] for g in got], want): return
        marked = 0
        for name, s in got:
            k = names.index(name)
            s, mark = MARK.match(s).groups()
            m.count('values')
            m.count({'*': 'low_marks', '**': 'high_marks', '': 'no_marks'}[mark])
            marked += bool(mark)
            m.check(close(s, values[k], 6), 'value', "{}: {} is {!r} and prints as {!r}", what, name, float(values[k]), s)
            m.check(mark_ok(mark, values[k], *bounds[k]), 'mark', "{}: {}={!r} within {} is marked {!r}", what, name, float(values[k]), bounds[k], mark)
        if marked and Nd > 1 and names != want: m.nontrivial = True

    def check_individual(i, what):
        m.count('individuals')
        text = repr(i)
        if not m.check(text.startswith('<') and text.endswith('>'), 'individual', "{} prints as {!r}", what, text[:200]): return
        text = text[1:-1]
        mt = re.match(r'^SSE=(\S+)\s+', text)
        if not m.check(mt is not None, 'individual', "{} prints without SSE: {!r}", what, text[:200]): return
        s = float(i.SSE)
        m.count('SSEs')
        if not np.isfinite(s): m.count('invalid_SSEs')
        y = float(mt.group(1))
        m.check((y != y and s != s) or y == s or abs(y - s) <= 0.500001e-4 + 1e-12*abs(s), 'SSE', "{} with SSE {!r} prints {!r}", what, s, mt.group(1))
        check_pretty(text[mt.end():], i.values, what)
        d = i.params
        m.count('dicts')
        m.check(d == {n: v for n, v in zip(names, list(i.values))} and len(d) == Nd, 'params', "{}: parameters {} for values {}", what, d, list(i.values))

    # --- Individuals and values by themselves
    for n in range(6):
        i = p.spawn(np.array([value(k) for k in range(Nd)]))
        i.SSE = rng.choice([0, 0.0, 1.23456, 99999.5, 1e-7, None, INF, float('nan'), np.float64(3.5), 10**rng.uniform(-3, 6)])
        check_individual(i, "an individual")
        text = p.pm.prettyValues(i.values)
        check_pretty(text, i.values, "values")
        m.count('preludes')
        word = rng.choice(["Now:", "Best", "x"])
        text = p.pm.prettyValues(i.values, word + " {:d}/{}", 7, "q")
        if m.check(text.split()[:2] == [word, "7/q"], 'prelude', "prelude {!r}, 7, 'q' prints as {!r}", word + " {:d}/{}", text[:60]):
            check_pretty(text[len(word)+5:], i.values, "values with a prelude")
    m.count('name_lists')
    m.check(list(p.pm.sortedNamerator(namesOnly=True)) == sorted(names), 'namerator', "names come as {}", list(p.pm.sortedNamerator(namesOnly=True)))
    m.check(list(p.pm.sortedNamerator()) == [(names.index(n), n) for n in sorted(names)], 'namerator', "indices and names come as {}", list(p.pm.sortedNamerator()))
    v = [value(k) for k in range(Nd)]
    m.check(list(p.pm.sortedNamerator(v)) == [(names.index(n), n, v[names.index(n)]) for n in sorted(names)], 'namerator',
            "indices, names and values come as {}", list(p.pm.sortedNamerator(v)))

    # --- A population
    np.random.seed(params['seed'] % 2**31)
    blank = rng.random() < 0.3 and not params['timed']
    d = p.setup(blank=blank); drain()
    if blank:
        m.count('unevaluated')
        m.check(list(p.evalTimes()) == [], 'eval-times', "evaluation times {} without evaluations", p.evalTimes())
        for i in p: i.SSE = 10**rng.uniform(-2, 5)
        del p.KS
    for n in range(rng.choice([0, 2, 5])):
        i = p.spawn(np.array([value(k) for k in range(Nd)])); i.SSE = 10**rng.uniform(-3, 5)
        p[rng.randrange(len(p))] = i
        drain()
    if params['timed']:
        # Evaluation times are those that were measured
        k = rng.randrange(len(p))
        for n in range(4):
            i = p.spawn(np.array([value(j) for j in range(Nd)]))
            wait = rng.choice([0.001, 0.004])
            inner = []
            def slow(values, wait=wait):
                t1 = time.time(); time.sleep(wait); inner.append(time.time() - t1); return 2.0
            p.func = slow
            t0 = time.time(); i.evaluate(); drain(); outer = time.time() - t0
            m.count('eval_times')
            m.check(i.dt is not None and inner[0] - 1e-3 <= i.dt <= outer + 1e-3, 'eval-time', "an evaluation of {} s took {} s", i.dt, inner[0])
            if n % 2:
                m.count('reevaluated')
                i2 = i.dt; t0 = time.time(); i.evaluate(); drain(); outer = time.time() - t0
                m.check(inner[1] - 1e-3 <= i.dt <= outer + 1e-3, 'eval-time', "a second evaluation of {} s took {} s", i.dt, inner[1])
            p[k] = i; drain()
        p.func = func
        got = sorted(p.evalTimes())
        m.check(got == sorted(i.dt for i in p if i.dt is not None), 'eval-times', "evaluation times {}", got[:5])
    if rng.random() < 0.3:
        m.count('changed_bounds')
        bounds = [(lo - (hi - lo), hi + 3*(hi - lo)) for lo, hi in bounds]
        p.pm.setup(bounds)
    m.count('populations')
    text = repr(p)
    lines = text.split('\n')
    SSEs = sorted(float(i.SSE) for i in p)
    numbers = re.findall(r'-?\d[\d.]*(?:e[+-]?\d+)?|inf|nan', lines[0])
    m.check(str(len(p)) in numbers, 'count', "{} members print as {!r}", len(p), lines[0])
    for x, what in ((SSEs[0], 'lowest'), (SSEs[-1], 'highest')):
        m.check(any(close(s, x, 5) for s in numbers), 'range', "{} SSE {} is not in {!r}", what, x, lines[0])
    if p.evalTimes():
        mean = float(np.mean(p.evalTimes()))
        m.check(any(close(s, mean, 3) for s in numbers), 'mean-time', "mean evaluation time {} is not in {!r}", mean, lines[0])
    rows = {}
    order = []
    for line in lines:
        if '|' not in line: continue
        head, rest = line.split('|', 1)
        rows[head.strip()] = rest.split(); order.append(head.strip())
    if not m.check('SSE' in rows, 'table', "no row of SSEs in {!r}", text[:300]): return
    n = len(rows['SSE'])
    m.count('top_columns', n)
    if n == len(p): m.count('few_members')
    m.check(1 <= n <= len(p) and (n >= 5 or n == len(p)), 'columns', "{} columns for {} members", n, len(p))
    ranked = sorted(p, key=lambda i: float(i.SSE))
    for s, i in zip(rows['SSE'], ranked): m.check(close(s, i.SSE, 5), 'top-SSE', "SSEs {} instead of {}", rows['SSE'], [float(i.SSE) for i in ranked[:n]])
    if not m.check(order == ['SSE'] + sorted(names), 'table', "rows {} instead of {}", order, ['SSE'] + sorted(names)): return
    distinct = len(set(SSEs)) == len(SSEs)
    for name in names:
        k = names.index(name)
        if not m.check(len(rows[name]) == n, 'table', "{} values of {} for {} SSEs", len(rows[name]), name, n): break
        if not distinct: continue
        for s, i in zip(rows[name], ranked):
            s, mark = MARK.match(s).groups()
            m.count('top_values')
            m.check(close(s, i.values[k], 5), 'top-value', "{} of the member with SSE {} is {!r} and prints as {!r}", name, float(i.SSE), float(i.values[k]), s)
            m.check(mark_ok(mark, i.values[k], *bounds[k]), 'top-mark', "{}={!r} within {} is marked {!r}", name, float(i.values[k]), bounds[k], mark)
    m.check(repr(p.best()) in text, 'best', "the best member is not in {!r}", text[-300:])
    check_individual(p.best(), "the best member")
    m.sig(Nd, params['seed'])
