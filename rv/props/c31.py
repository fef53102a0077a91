"""C31: plots show exactly the records asked for, each figure in a file of its own.

Everything is plotted to files in a scratch directory. What a figure shows is read from the figure at the moment it is written to a
file, and the size from the file written.
"""
import os, sys, io, gc, random, tempfile, shutil, struct, contextlib, importlib, warnings
os.environ['MPLBACKEND'] = 'Agg'
warnings.simplefilter('ignore')
import numpy as np
from rv.sim import history, Population, drain, defer
import matplotlib.figure
from yampex import Plotter

LEVEL = 'exploration'
RULE = "Plots are distinct by the records, their classes and the arguments; non-trivial when a plot had to leave out some record or some parameter."
NEED = ['figures', 'subplots', 'points', 'value_plots', 'in_pop_plots', 'left_out_points', 'log_scales', 'several_figures', 'xy_plots', 'fraction_plots',
        'correlation_plots', 'fewer_pairs_than_asked', 'named_correlations', 'own_subplots', 'numbered_files', 'restarted_numbering', 'sizes', 'default_sizes',
        'lines', 'shown_at_once', 'script_runs', 'script_refusals', 'verbose_lines', 'single_parameters', 'name_ranges', 'not_named_first']
ASSUMPTIONS = ["Plots go to files; the on-screen window is not driven.",
               "What a figure shows is what matplotlib says about its axes and lines when the figure is written."]
CASE_CPU = 120

SAVED = []
_savefig = matplotlib.figure.Figure.savefig


def savefig(self, fname, *args, **kw):
    path = getattr(fname, 'name', fname)
    axes = []
    for ax in self.axes:
        axes.append(dict(
            title=ax.get_title(), x=ax.get_xlabel(), y=ax.get_ylabel(), scale=ax.get_yscale(), xscale=ax.get_xscale(),
            lines=[dict(xy=list(zip([float(v) for v in np.atleast_1d(l.get_xdata())], [float(v) for v in np.atleast_1d(l.get_ydata())])),
                        size=(0.0 if l.get_marker() in ('None', 'none', '', None) else l.get_markersize()*(0.5 if l.get_marker() == '.' else 1.0)),
                        joined=l.get_linestyle() not in ('None', 'none', '', ' '), visible=l.get_visible()) for l in ax.lines],
            texts=[t.get_text() for t in ax.texts]))
    SAVED.append(dict(path=path, axes=axes))
    return _savefig(self, fname, *args, **kw)


matplotlib.figure.Figure.savefig = savefig

# A figure must not depend on when the garbage is collected: collect it at the worst moment
_init = Plotter.__init__


def init(self, *args, **kw):
    gc.collect()
    _init(self, *args, **kw)


Plotter.__init__ = init


def cases(tier, seed):
    rng = random.Random(seed*53 + 31)
    out = []
    for k in range(72 if tier == 'quick' else 700):
        out.append(dict(seed=seed*100271 + k, Nd=rng.choice([1, 2, 2, 3, 4, 5, 6, 8, 10, 12, 20]) if k % 3 else rng.choice([2, 3, 4]), N=rng.choice([2, 3, 5, 9, 20, 40, 60]),
                        dims=rng.choice([None, None, '300', '420x200', '250x330']), ops=rng.choice([2, 3, 4]),
                        script=k % 4 == 3))
    return out


def png_size(path):
    with open(path, 'rb') as fh: head = fh.read(24)
    if head[:8] != b'\x89PNG\r\n\x1a\n': return None
    return struct.unpack('>II', head[16:24])


class Plots(object):
    """A set of records, the plots asked for, and what they must show."""
    def __init__(self, params, m, rng):
        self.params, self.m, self.rng = params, m, rng
        self.N_files = 0

    def records(self, Nd, N):
        rng = self.rng
        names = ["{}{}".format(rng.choice("abcxyzPQ"), k) for k in range(Nd)]
        rng.shuffle(names)
        values = np.array([[rng.uniform(0.1, 10) for _ in range(Nd)] for _ in range(N)])
        if Nd > 1:
            for k in range(1, Nd):
                if rng.random() < 0.5: values[:, k] = rng.uniform(0.2, 0.9)*values[:, rng.randrange(k)] + rng.uniform(0.05, 0.5)*values[:, k]
        sse = np.array([10**rng.uniform(0, 4) for _ in range(N)])
        spare = 2 + rng.randrange(4)            # rows never filled
        X = np.full((N+spare, Nd+1), 777.0)
        rows = rng.sample(range(N+spare), N)
        for r, s, v in zip(rows, sse, values): X[r] = [s] + list(v)
        K = sorted(rows, key=lambda r: X[r, 0])
        cls = {r: rng.choice(['in', 'in', 'former', 'never']) for r in rows}
        cls[K[0]] = 'in'
        a = history.Analysis(list(names), X, list(K), Kp={r for r in rows if cls[r] == 'in'}, Kn={r for r in rows if cls[r] == 'never'})
        return a, names, [(float(X[r, 0]), [float(x) for x in X[r, 1:]], cls[r]) for r in K]

    def same(self, points, want):
        return sorted(points) == sorted(want)

    def check_files(self, where, base, ext, figs, dims):
        m = self.m
        for f in figs:
            self.N_files += 1
            want = os.path.join(where, base + ("" if self.N_files == 1 else "-{}".format(self.N_files)) + ext)
            if self.N_files > 1: m.count('numbered_files')
            m.check(os.path.abspath(str(f['path'])) == want, 'file-name', "figure {} went to {} instead of {}", self.N_files, f['path'], want)
            if not m.check(os.path.exists(want), 'file-missing', "figure {} is not in {}", self.N_files, want): continue
            size = png_size(want)
            if not m.check(size is not None, 'not-png', "{} is not a PNG file", want): continue
            if dims and 'x' in dims:
                m.count('sizes')
                m.check(size == tuple(int(x) for x in dims.split('x')), 'size', "{} has {} pixels instead of {}", want, size, dims)
            elif dims:
                m.count('sizes')
                m.check(size[0] == int(dims), 'size', "{} is {} pixels wide instead of {}", want, size[0], dims)
            else:
                m.count('default_sizes')
                m.check(size[0] == 1200, 'size', "{} is {} pixels wide instead of 1200", want, size[0])

    def check_values(self, figs, names, recs, want_names, inPop, maxRatio, semilog):
        """Value vs SSE plots: one subplot per parameter."""
        m = self.m
        axes = [ax for f in figs for ax in f['axes']]
        used = [ax for ax in axes if ax['title'] or any(l['xy'] for l in ax['lines'])]
        m.count('value_plots')
        if inPop: m.count('in_pop_plots')
        if len(figs) > 1: m.count('several_figures')
        if len(want_names) == 1: m.count('single_parameters')
        if not m.check([ax['title'] for ax in used] == list(want_names), 'subplots', "subplots for {} instead of {}",
                       [ax['title'] for ax in used], list(want_names)): return
        limit = maxRatio*recs[0][0]
        classes = ['in'] if inPop else ['in', 'former', 'never']
        for ax in used:
            m.count('subplots')
            k = names.index(ax['title'])
            m.check(ax['scale'] == ('log' if semilog else 'linear'), 'scale', "{} has a {} scale with semilog={}", ax['title'], ax['scale'], semilog)
            if semilog: m.count('log_scales')
            groups = {c: [(r[0], r[1][k]) for r in recs if r[2] == c and (r[0] <= limit)] for c in classes}
            shown = [l['xy'] for l in ax['lines'] if l['xy'] and l['visible'] and l['size'] > 0]
            out = len(recs) - sum(len(g) for g in groups.values())
            m.count('left_out_points', out)
            if out: m.nontrivial = True
            want = [g for g in groups.values() if g]
            m.count('points', sum(len(s) for s in shown))
            if not m.check(sorted(sorted(s) for s in shown) == sorted(sorted(g) for g in want), 'points',
                           "{} (inPop={}, maxRatio={}) shows series of {} points instead of those of {} ({})", ax['title'], inPop, maxRatio,
                           [len(s) for s in shown], {c: len(g) for c, g in groups.items()},
                           "same numbers, other points" if sorted(map(len, shown)) == sorted(map(len, want)) else "other numbers"): return
            if not m.check(not any(l['joined'] and len(l['xy']) > 1 for l in ax['lines']), 'joined', "{} has its points joined", ax['title']): return

    def check_xy(self, ax, names, recs, fraction=False):
        """One subplot of a parameter versus another."""
        m = self.m
        m.count('xy_plots')
        m.count('subplots')
        if fraction: m.count('fraction_plots')
        if not m.check(ax['x'] in names and ax['y'] in names, 'labels', "axes labelled {!r} and {!r}", ax['x'], ax['y']): return
        k1, k2 = names.index(ax['x']), names.index(ax['y'])
        lines = [l for l in ax['lines'] if l['joined'] and l['visible']]
        if m.check(len(lines) == 1, 'line', "{} lines in {} vs {}", len(lines), ax['x'], ax['y']):
            m.count('lines')
            best = []
            for n in (len(recs)//2, len(recs)//2 + 1):
                sel = recs[:n]
                if len(sel) < 2: continue
                s = np.array([r[0] for r in sel]); w = 2*s.min()/(s + s.min())
                A = np.vstack([np.ones(len(sel)), [r[1][k1] for r in sel]]).T*w[:, None]
                b, mm = np.linalg.lstsq(A, np.array([r[1][k2] for r in sel])*w, rcond=None)[0]
                best.append((mm, b))
            ok = not best or any(all(abs(y - (mm*x + b)) <= 1e-6*(1 + abs(mm*x) + abs(b)) for x, y in lines[0]['xy']) for mm, b in best)
            m.check(ok, 'line', "the line in {} vs {} is not the fit to the better half", ax['x'], ax['y'])
        dots = [l for l in ax['lines'] if not l['joined'] and l['visible'] and l['size'] > 0]
        size = {}
        for l in dots:
            m.count('points', len(l['xy']))
            for xy in l['xy']: size[xy] = max(size.get(xy, 0), l['size'])
        mine = [(r[1][k1], r[1][k2]) for r in recs]
        if not m.check(set(size) <= set(mine), 'points', "{} vs {} shows {} points that aren't records", ax['x'], ax['y'], len(set(size) - set(mine))): return
        if not fraction:
            missing = [k for k in range((len(recs)+1)//2) if mine[k] not in size]
            m.check(not missing, 'points', "{} vs {} misses records of the better half: {} of {}", ax['x'], ax['y'], missing, len(recs))
        else: m.check(mine[0] in size, 'points', "{} vs {} misses the best record", ax['x'], ax['y'])
        seq = [size.get(xy, 0) for xy in mine]
        if len(set(seq)) > 1: m.nontrivial = True
        m.check(all(a >= b for a, b in zip(seq, seq[1:])), 'prominence', "{} vs {}: a worse record is shown larger than a better one", ax['x'], ax['y'])

    def check_corr(self, figs, names, recs, name, N, text):
        m = self.m
        m.count('correlation_plots')
        pairs = [(a, b) for k, a in enumerate(names) for b in names[k+1:] if name is None or name in (a, b)]
        if not pairs:
            m.check(not figs, 'no-pairs', "a figure without any pair of parameters")
            return
        n = min(N, len(pairs))
        if n < N: m.count('fewer_pairs_than_asked')
        if name:
            m.count('named_correlations')
            if name != names[0]: m.count('not_named_first')
        if not m.check(len(figs) == 1, 'figures', "{} figures of {} correlations", len(figs), n): return
        axes = [ax for ax in figs[0]['axes'] if ax['x'] or ax['y'] or ax['lines']]
        if not m.check(len(axes) == n, 'pairs', "{} correlations shown instead of {} (N={}, name={}, {} parameters)", len(axes), n, N, name, len(names)): return
        V = np.array([r[1] for r in recs])
        def R(a, b):
            x, y = V[:, names.index(a)], V[:, names.index(b)]
            return float(np.corrcoef(x, y)[0, 1])
        want = sorted([abs(R(a, b)) for a, b in pairs], reverse=True)[:n]
        seen = set()
        for ax, w in zip(axes, want):
            if not m.check(ax['x'] in names and ax['y'] in names and ax['x'] != ax['y'], 'labels', "axes labelled {!r}, {!r}", ax['x'], ax['y']): return
            pair = frozenset([ax['x'], ax['y']])
            m.check(pair not in seen, 'pair-twice', "{} shown twice", sorted(pair)); seen.add(pair)
            if name: m.check(name in pair, 'pair-name', "{} shown for {}", sorted(pair), name)
            r = R(ax['x'], ax['y'])
            m.check(abs(abs(r) - w) < 1e-6, 'pair-order', "{} with a coefficient of {} where one of magnitude {} is due", sorted(pair), r, w)
            m.check(any("{:+.3f}".format(r) in t for t in ax['texts']), 'coefficient', "{} with coefficient {:+.3f} is labelled {}", sorted(pair), r, ax['texts'])
            self.check_xy(ax, names, recs)
            if text is not None:
                m.count('verbose_lines')
                m.check(any(ax['x'] in l and ax['y'] in l and "{:+.3f}".format(r) in l for l in text.split('\n')), 'verbose', "nothing printed about {}", sorted(pair))

    def operate(self, a, names, recs, dims, where, base, ext):
        rng, m = self.rng, self.m
        del SAVED[:]
        out = io.StringIO()
        kind = rng.choice(['values', 'values', 'xy', 'corr', 'corr'])
        Nd = len(names)
        if Nd == 1 and kind == 'xy': kind = 'values'
        show = rng.random() < 0.3
        if show: m.count('shown_at_once')
        with contextlib.redirect_stdout(out):
            if kind == 'values':
                kw = {}
                if rng.random() < 0.4: kw['inPop'] = True
                if rng.random() < 0.6: kw['maxRatio'] = rng.choice([1, 1.5, 10, 100])
                if rng.random() < 0.3: kw['semilog'] = True
                sel = rng.choice([[], [], 'some', 'range'])
                if sel == 'some': sel = rng.sample(names, rng.randint(1, Nd)); want = sel
                elif sel == 'range':
                    lo = rng.randrange(Nd); hi = rng.randint(lo+1, Nd)
                    sel = [lo, hi]; want = sorted(names)[lo:hi]
                    m.count('name_ranges')
                else: want = sorted(names)
                if Nd > len(want): m.nontrivial = True
                own = rng.random() < 0.2
                if own:
                    m.count('own_subplots')
                    n = len(want) + rng.randrange(2)
                    path = os.path.join(where, "own-{}.png".format(rng.randrange(10**6)))
                    pt = Plotter(n, filePath=path, width=4, height=3)
                    with pt as sp: result = a.plot(sel, sp=sp, **kw)
                    pt.showAll()
                else:
                    result = a.plot(sel, noShow=not show, **kw)
                    if not show: gc.collect(); result.showAll()
                self.check_values(SAVED, names, recs, want, kw.get('inPop', False), kw.get('maxRatio', 1000), kw.get('semilog', False))
                if own:
                    m.check(len(SAVED) == 1 and os.path.abspath(str(SAVED[0]['path'])) == path, 'own-subplots', "plotting with one's own plotter wrote {}",
                            [f['path'] for f in SAVED])
                else: self.check_files(where, base, ext, SAVED, dims)
            elif kind == 'xy':
                n1, n2 = rng.sample(names, 2)
                f = rng.random() < 0.4
                args = [n1 if rng.random() < 0.6 else names.index(n1)+1, n2 if rng.random() < 0.6 else names.index(n2)+1]
                result = a.plotXY(*args, **(dict(useFraction=True) if f else {}))
                if m.check(len(SAVED) == 1 and len(SAVED[0]['axes']) == 1, 'figures', "{} figures from a single plot", len(SAVED)):
                    ax = SAVED[0]['axes'][0]
                    m.check((ax['x'], ax['y']) == (n1, n2), 'labels', "{} vs {} labelled {!r}, {!r}", n1, n2, ax['x'], ax['y'])
                    self.check_xy(ax, names, recs, f)
                    x, y, mm, b = result
                    m.check((x, y) == (n1, n2), 'result', "{} vs {} returned names {}, {}", n1, n2, x, y)
                    for l in ax['lines']:
                        if l['joined']: m.check(all(abs(yy - (mm*xx+b)) < 1e-6*(1+abs(b)+abs(mm*xx)) for xx, yy in l['xy']), 'result',
                                                "{} vs {}: returned line isn't the one drawn", n1, n2)
                self.check_files(where, base, ext, SAVED, dims)
            else:
                name = rng.choice([None, rng.choice(names)])
                N = rng.choice([1, 2, 4, 5, 12])
                v = rng.random() < 0.4
                mark = len(out.getvalue())
                result = a.plotCorrelated(name=name, N=N, noShow=not show, verbose=v)
                if not show and result is not None: result.showAll()
                self.check_corr(SAVED, names, recs, name, N, out.getvalue()[mark:] if v else None)
                self.check_files(where, base, ext, SAVED, dims)
        for f in SAVED: m.count('figures')
        m.sig(kind, Nd, len(recs), dims, len(SAVED), self.params['seed'])

    def script(self, where):
        """The viewer script, given a saved population."""
        rng, m, params = self.rng, self.m, self.params
        names = ["{}{}".format(rng.choice("abxy"), k) for k in range(min(params['Nd'], 6))]
        rng.shuffle(names)
        p = Population(lambda v: defer.succeed(None if v is None else float(np.sum(np.square(v))) + 1.0), list(names), [(0.5, 5.0)]*len(names), popsize=1)
        np.random.seed(params['seed'] % 2**31)
        d = p.setup(); drain()
        from rv import saved
        p.func = None
        from ade.individual import Individual
        for k in range(30):
            i = Individual(p, np.array([rng.uniform(0.5, 5) for _ in names])); i.SSE = float(np.sum(np.square(i.values))) + 1.0
            if rng.random() < 0.5: p.push(i)
            else: p.history.add(i, neverInPop=True)
            drain()
        path = os.path.join(where, rng.choice(["p.dat", "with space.dat", "é.dat"]))
        p.func = saved.objective
        p.save(path)
        h = p.history
        X, K = h.X, list(h.K)
        recs = [(float(X[k, 0]), [float(x) for x in X[k, 1:]], 'in' if k in h.Kp else 'never' if k in h.Kn else 'former') for k in K]
        png = os.path.join(where, "sub", "fig.png") if rng.random() < 0.5 else os.path.join(where, "fig.v1.png")
        os.makedirs(os.path.dirname(png), exist_ok=True)
        dims = rng.choice(['', '', '400', '300x260'])
        argv = ['pv']; kw = {}
        if dims: argv += ['-d', dims]
        argv += ['--file-path', png]
        ratio = rng.choice([0, 0, 3.5, 50]); N = rng.choice([0, 0, 2, 7])
        if ratio: argv += ['-r', str(ratio)]
        if N: argv += rng.choice([['-N', str(N)], ['--N-correlates={}'.format(N)]])
        inPop = rng.random() < 0.4; semilog = rng.random() < 0.3; verbose = rng.random() < 0.4
        if inPop: argv.append('-i')
        if semilog: argv.append('--semilog')
        if verbose: argv.append('-v')
        sel = rng.sample(names, rng.randint(1, len(names))) if rng.random() < 0.5 else []
        nofile = rng.random() < 0.1
        if not nofile: argv += [path] + sel
        del SAVED[:]
        out = io.StringIO()
        old = sys.argv
        error = None
        try:
            sys.argv = argv
            import ade.scripts.pv as pv
            importlib.reload(pv)
            with contextlib.redirect_stdout(out), contextlib.redirect_stderr(out):
                try: pv.main()
                except RuntimeError as e: error = e
        finally: sys.argv = old
        if nofile or not (ratio or N) or (len(names) == 1 and not ratio):
            m.count('script_refusals')
            m.check(error is not None, 'script-refusal', "{} does nothing and doesn't complain", argv)
            m.check(not SAVED, 'script-refusal', "{} wrote a figure", argv)
            return
        if not m.check(error is None, 'script', "{} raised {!r}", argv, error): return
        m.count('script_runs')
        figs = list(SAVED)
        want = sel or sorted(names)
        n_values = 0
        if ratio:
            n_values = len([f for f in figs if any(ax['title'] for ax in f['axes'])])
            self.check_values(figs[:n_values], names, recs, want, inPop, ratio, semilog)
        if N:
            rest = figs[n_values:]
            if sel and len(names) > 1:
                if m.check(len(rest) == len(sel), 'script', "{} wrote {} correlation figures for {} names", argv, len(rest), len(sel)):
                    for f, name in zip(rest, sel): self.check_corr([f], names, recs, name, N, out.getvalue() if verbose else None)
            else: self.check_corr(rest, names, recs, None, N, out.getvalue() if verbose else None)
        base, ext = os.path.splitext(os.path.basename(png))
        self.check_files(os.path.dirname(png), base, ext, figs, dims or None)
        for f in figs: m.count('figures')
        m.sig(tuple(argv[1:]), params['seed'])


def run_case(params, m):
    import matplotlib.pyplot as plt
    rng = random.Random(params['seed'])
    scratch = tempfile.mkdtemp(prefix="c31-")
    P = Plots(params, m, rng)
    try:
        if params['script']:
            P.script(scratch)
            return
        a, names, recs = P.records(params['Nd'], params['N'])
        base, ext = rng.choice([('plot', '.png'), ('plot', '.PNG'), ('a.b', '.png'), ('no-ext', '')])
        a.filePath(os.path.join(scratch, base+ext), dims=params['dims'])
        where = scratch
        for k in range(params['ops']):
            if k and rng.random() < 0.2:
                m.count('restarted_numbering')
                where = os.path.join(scratch, "d{}".format(k)); os.mkdir(where)
                a.filePath(os.path.join(where, base+ext), dims=params['dims'])
                P.N_files = 0
            X0 = a.X.copy(); K0 = list(a.K)
            P.operate(a, names, recs, params['dims'], where, base, ext)
            m.check(np.array_equal(a.X, X0) and list(a.K) == K0 and list(a.names) == names, 'disturbed', "plotting changed the records")
    finally:
        plt.close('all')
        shutil.rmtree(scratch, ignore_errors=True)
