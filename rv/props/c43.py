"""C43: the log viewer shows what the log says."""
import random, os, sys, tempfile, shutil, io, contextlib, pdb, fnmatch, re
import numpy as np
from rv import decases, sim
from rv.lab import norm
from rv.sim import msg, drain

LEVEL = 'exploration'
ROUNDS = 2
RULE = ("Cases are distinct by the log file and the parameters asked for; non-trivial when an entry was left out or a star shown.")
NEED = ['tables', 'rows_compared', 'entries_left_out', 'stars_shown', 'globs', 'ranges', 'starred_names', 'final_tables', 'negative_values', 'long_tables',
        'entries_over_lines', 'real_logs', 'default_log']


def cases(tier, seed):
    rng = random.Random(seed*47 + 6)
    q = tier == 'quick'
    out = []
    for k in range(500 if q else 6000):
        out.append(dict(kind='synthetic', seed=seed*100003 + k, entries=rng.choice([1, 3, 10, 30, 120]), N=rng.choice([1, 3, 6, 12]),
                        step=rng.choice([0.001, 0.01, 0.1, 0.5]), move=rng.choice([0.002, 0.02, 0.5]), stars=rng.choice([0, 0.05, 0.5]),
                        table=rng.choice([0, 0, 1, 5]), ask=rng.choice(['names', 'glob', 'all', 'range', 'none']), shuffle=rng.choice([0, 0.2]),
                        default=rng.random() < 0.1))
    for k, c in enumerate(decases.configs(
            seed + 4300, 40 if q else 400, policies=['sync', 'fifo', 'random'], objectives=['noise', 'better', 'sphere'],
            _Np=[6, 20], _Nd=[1, 2, 5], _maxiter=[2, 6])):
        c['kind'] = 'real'
        out.append(c)
    return out


class Entry(object):
    def __init__(self, SSE, values, stars, names):
        self.SSE, self.values, self.stars, self.names = SSE, values, stars, names


def text(rng, x):
    """A number as it may appear in a log."""
    s = rng.choice(["{:.5g}", "{:.6g}", "{:g}", "{:.4f}", "{:.3e}", "{:+.5g}"]).format(x)
    return s


def names_for(rng, N):
    pool = ["x{:d}".format(k) for k in range(1, 8)] + ["ra", "rb", "rc", "rd", "alpha", "Beta", "V_oc", "k2_max", "T", "e1", "E2"]
    return sorted(rng.sample(pool, N))


def expected(entries, names, m):
    """Rows of the table, best last."""
    def differs(a, b):
        return abs(a) > 0.01 if b == 0 else abs(a - b)/abs(b) > 0.01
    order = sorted(range(len(entries)), key=lambda k: entries[k].SSE)
    kept = [order[0]]
    best = entries[order[0]].SSE
    for k in order[1:]:
        e, p = entries[k], entries[kept[-1]]
        if e.SSE > 2*best: break
        if differs(e.SSE, p.SSE) or any(differs(float(e.values[n]), float(p.values[n])) for n in names): kept.append(k)
    if len(kept) > 40: m.count('long_tables')
    return [entries[k] for k in reversed(kept[:40])]


def viewer(argv, home):
    """What the script prints."""
    from ade.scripts import lgg
    out = io.StringIO()
    crashed = []
    old = sys.argv, pdb.post_mortem, os.environ.get('HOME')
    sys.argv = ['lgg'] + argv
    pdb.post_mortem = lambda *args, **kw: crashed.append(sys.exc_info())
    os.environ['HOME'] = home
    try:
        with contextlib.redirect_stdout(out), contextlib.redirect_stderr(io.StringIO()) as err: lgg.main()
    finally:
        sys.argv, pdb.post_mortem = old[:2]
        if old[2] is not None: os.environ['HOME'] = old[2]
    return out.getvalue(), err.getvalue() if crashed else None


def table(printed, m):
    """Names and rows [SSE, [value, stars]...] of the printed table."""
    lines = [x for x in printed.split('\n') if x.strip()]
    if not m.check(len(lines) >= 2 and set(lines[1].strip()) == {'-'}, 'layout', "no table was printed: {!r}", printed[:200]): return
    head = lines[0].split()
    rows = []
    for line in lines[2:]:
        cells = line.split()
        row = [float(cells[0])]
        for c in cells[1:]:
            row.append([float(c.rstrip('*')), c.count('*')])
        rows.append(row)
    return head, rows


def synthetic(params, m, scratch):
    rng = random.Random(params['seed'])
    names = names_for(rng, params['N'])
    entries, lines = [], []
    SSE = 10**rng.uniform(-2, 4)
    values = {n: rng.choice([-1, 1])*10**rng.uniform(-6, 5) for n in names}
    if any(v < 0 for v in values.values()): m.count('negative_values')
    used = set()

    def entry(SSE, values, stars):
        s = rng.choice(["{:.5g}", "{:g}", "{:.7f}"]).format(SSE)
        if float(s) in used or float(s) == 0: return None
        used.add(float(s))
        v = {n: text(rng, values[n]) for n in names}
        st = {n: '*'*rng.choice([1, 2]) if rng.random() < params['stars'] else '' for n in names} if stars else {n: '' for n in names}
        return Entry(float(s), v, st, s)

    drafts = []
    for k in range(params['entries']):
        drafts.append((SSE, dict(values)))
        SSE *= 1 - params['step']*rng.random()
        for n in names:
            if rng.random() < 0.5: values[n] *= 1 + params['move']*rng.uniform(-1, 1)
    if params['shuffle']:
        # The last entry need not be the best
        for _ in range(int(params['shuffle']*len(drafts))):
            a, b = rng.randrange(len(drafts)), rng.randrange(len(drafts))
            drafts[a], drafts[b] = drafts[b], drafts[a]
    for SSE, v in drafts:
        e = entry(SSE, v, True)
        if e is None: continue
        entries.append(e)
        for _ in range(rng.randint(0, 2)): lines.append(rng.choice(["", "0XX*.:51", "Iteration   12: F=0.5 <---- improvement", "Some text", "-"*40]))
        lines.append("")
        parts = ["{}={}{}".format(n, e.values[n], e.stars[n]) for n in names]
        intro = rng.choice(["SSE={} with", "<SSE={}", "SSE={},", "** SSE={} :"]).format(e.names)
        angle = intro.startswith('<')
        if angle: parts[-1] += '>'
        if rng.random() < 0.5 and len(parts) > 1:
            # Filled text goes over several lines
            m.count('entries_over_lines')
            k = rng.randint(1, len(parts)-1)
            lines.append(intro + " " + " ".join(parts[:k]))
            lines.append(" ".join(parts[k:]))
        else: lines.append(intro + " " + " ".join(parts))
        lines.append("")
    if not entries: return
    if params['table']:
        found = []
        for _ in range(params['table']):
            SSE *= 1 + 0.02*rng.random()
            e = entry(SSE, values, False)
            if e is not None: found.append(e)
            for n in names: values[n] *= 1 + 0.02*rng.uniform(-1, 1)
        if found:
            m.count('final_tables')
            lines += ["", "Final population:", "Population: 40 individuals. Top {:d}:".format(len(found)), "",
                      "  SSE | " + "   ".join(e.names for e in found), "-"*60]
            for n in names: lines.append("{:>6} | ".format(n) + "   ".join(e.values[n] for e in found))
            lines += ["-"*60, "Elapsed time: 3 seconds"]
            entries += found
    path = os.path.join(scratch, 'pfinder.log' if params['default'] else 'some.log')
    with open(path, 'w') as fh: fh.write("\n".join(lines) + "\n")
    ask = params['ask']
    if ask == 'names':
        shown = sorted(rng.sample(names, rng.randint(1, len(names))))
        args = list(shown)
        rng.shuffle(args)
    elif ask == 'glob':
        args = rng.sample(['x*', 'r?', '*a*', '[A-Z]*', 'x[13]', '*_*'], 2)
        shown = sorted({n for a in args for n in fnmatch.filter(names, a)})
        if not shown: args, shown = ['*'], sorted(names)
        m.count('globs')
    elif ask == 'range':
        args = [rng.choice(['x1-3', 'x2-7', 'ra-c', 'x1-1', 'rb-d'])]
        lo, hi = args[0][1], args[0][3]
        shown = [n for n in names if len(n) == 2 and n[0] == args[0][0] and lo <= n[1] <= hi]
        if not shown: args, shown = ['*'], sorted(names)
        else: m.count('ranges')
    elif ask == 'all': args, shown = ['*'], sorted(names)
    else:
        args = []
        lowest = sorted(entries, key=lambda e: e.SSE)[:4]
        shown = sorted({n for e in lowest for n in names if e.stars[n]})
        if shown: m.count('starred_names')
    if params['default']: m.count('default_log')
    printed, crash = viewer(([] if params['default'] else [path]) + args, scratch)
    if not m.check(crash is None, 'crash', "the log viewer ended with {}", (crash or '')[-400:]): return
    got = table(printed, m)
    if got is None: return
    head, rows = got
    m.count('tables')
    m.check(head == ['SSE'] + shown, 'names', "parameters {} shown for {}, expected {}", head[1:], args, shown)
    if m.violations: return
    want = expected(entries, shown, m)
    m.count('entries_left_out', len(entries) - len(want))
    compare(rows, want, shown, m)
    m.sig(params, lines)
    m.nontrivial = len(want) < len(entries) or any(e.stars[n] for e in want for n in shown)


def compare(rows, want, shown, m):
    def same(a, b): return abs(a - b) <= 6e-5*max(abs(a), abs(b)) + 1e-300
    if not m.check(len(rows) == len(want), 'rows', "{} rows printed, {} expected: SSEs {} instead of {}", len(rows), len(want),
                   [r[0] for r in rows][-6:], [e.SSE for e in want][-6:]): return
    for r, e in zip(rows, want):
        m.count('rows_compared')
        if not m.check(same(r[0], e.SSE), 'SSE', "row with SSE {} where {} was expected", r[0], e.SSE): return
        for k, n in enumerate(shown):
            if e.stars[n]: m.count('stars_shown')
            m.check(same(r[k+1][0], float(e.values[n])), 'value', "{} is {} with SSE {}, the log says {}", n, r[k+1][0], e.SSE, e.values[n])
            m.check(r[k+1][1] == len(e.stars[n]), 'stars', "{} has {} stars with SSE {}, {} in the log", n, r[k+1][1], e.SSE, len(e.stars[n]))


class Log(io.StringIO):
    def close(self): pass


def real(params, m, scratch):
    """The log of a run, with the reports of a typical callback."""
    run = decases.build(m, params, set())
    p, lb = run.p, run.lab
    said = []
    def report(values, counter, SSE):
        if not np.isfinite(float(SSE)): return
        said.append((float("{:.5f}".format(SSE)), [float(x) for x in values]))
        msg(0, p.pm.prettyValues(values, "SSE={:.5f} with", SSE), 0)
    p.addCallback(report)
    run.setup()
    log, before = Log(), len(said)
    lb.drive(run.start(logHandle=log), maxEvents=20000)
    lb.settle()
    content = log.getvalue()
    # Only what was said once there was a log is in it
    said[:] = said[before:]
    if not said: return
    path = os.path.join(scratch, 'run.log')
    with open(path, 'w') as fh: fh.write(content)
    printed, crash = viewer([path, '*'], scratch)
    if not m.check(crash is None, 'crash', "the log viewer ended with {}", (crash or '')[-400:]): return
    got = table(printed, m)
    if got is None: return
    head, rows = got
    m.count('real_logs')
    m.check(head == ['SSE'] + sorted(p.pm.names), 'names', "parameters {} shown, expected {}", head[1:], sorted(p.pm.names))
    best = min(x[0] for x in said)
    # Individuals printed by the run itself have another precision
    m.check(rows and rows[-1][0] <= best*(1 + 1e-4) + 1e-4, 'real-best', "best SSE shown is {}, {} was reported", rows[-1:] and rows[-1][0], best)
    SSEs = [r[0] for r in rows]
    m.check(SSEs == sorted(SSEs, reverse=True), 'order', "rows not in order of SSE: {}", SSEs)
    # Each row is one of those reported
    pos = {n: k for k, n in enumerate(p.pm.names)}
    known = said + [(float(e.SSE), [float(x) for x in e.values]) for e in run.ev.evals if np.isfinite(e.SSE)]
    for r in rows:
        m.count('rows_compared')
        ok = any(abs(s - r[0]) <= 1e-3*abs(s) + 1e-4 and all(abs(v[pos[n]] - r[k+1][0]) <= 2e-4*abs(v[pos[n]]) + 1e-12 for k, n in enumerate(head[1:])) for s, v in known)
        m.check(ok, 'real-row', "row {} is nothing that was ever evaluated", r)
        for k, n in enumerate(head[1:]):
            lo, hi = p.pm.mins[pos[n]], p.pm.maxs[pos[n]]
            u = (r[k+1][0] - lo)/(hi - lo)
            # The table has five digits
            if hi - lo > 0.01*max(abs(lo), abs(hi)) and 0.06 < u < 0.94: m.check(r[k+1][1] == 0, 'real-stars', "{} = {} has stars, bounds are {} to {}", n, r[k+1][0], lo, hi)
    m.sig(params, content)
    m.nontrivial = len(rows) > 1


def run_case(params, m):
    scratch = tempfile.mkdtemp(prefix='rv-')
    try: dict(synthetic=synthetic, real=real)[params['kind']](params, m, scratch)
    finally: shutil.rmtree(scratch)
