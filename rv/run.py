"""
Runs one property's check: python -m rv.run C01 [--replay FILE] [--tier T]

Environment: VERIF_SEED, VERIF_TIER. Exit 0 held, 1 violation, 2 the check
itself could not decide (no observations, worker died, ...).
"""
import sys, os, time, json, importlib, argparse, signal, traceback, queue
import multiprocessing as mp

HERE = os.path.dirname(os.path.abspath(__file__))
ROOT = os.path.dirname(HERE)

#: CPU seconds one case may use; normal cases use well under 2
CASE_CPU = 60
#: Exceptions of a monitor given something that makes no sense
NONSENSE = (TypeError, ValueError, AttributeError, LookupError, ArithmeticError, AssertionError)
#: Cases that may run out of CPU time before no further one is handed out
MAX_ENDLESS = 4
#: Wall seconds after which no further case is handed out
WALL_BUDGET = {'quick': 480, 'thorough': 5400}
#: The same, counted from the first violation
VIOLATED_WALL = {'quick': 60, 'thorough': 600}


def load(prop):
    return importlib.import_module('rv.props.' + prop.lower())


def run_one(mod, params):
    """Runs one case in this process, returns its result dict."""
    from rv import sim
    from rv.mon import Mon
    m = Mon()
    def alarm(signum, frame):
        raise sim.CaseTimeout()
    signal.signal(signal.SIGVTALRM, alarm)
    signal.setitimer(signal.ITIMER_VIRTUAL, params.get('cpu', getattr(mod, 'CASE_CPU', CASE_CPU)), 2.0)
    try:
        sim.fresh(params['seed'])
        mod.run_case(params, m)
    except sim.CaseTimeout:
        tb = traceback.format_exc().strip().split('\n')
        m.bad('nontermination', "case did not terminate within its CPU budget: {}", " / ".join(tb[-6:]))
    except sim.Hang as e:
        m.bad('hang', "execution came to a standstill: {}", e)
    except Exception:
        tb = traceback.format_exc()
        if '/repo/ade/' in tb:
            m.bad('exception', "unexpected exception from the code under test: {}", tb[-500:])
        elif isinstance(sys.exc_info()[1], NONSENSE):
            # The monitor met something that no execution of working code has
            # shown it, such as None in place of a result
            m.bad('nonsense', "what the code under test gave cannot be interpreted: {}", tb[-500:])
        elif not m.violations:
            raise
    finally:
        signal.setitimer(signal.ITIMER_VIRTUAL, 0)
    return m.result()


def worker(prop, cases, inq, outq):
    sys.stdin = open(os.devnull)
    devnull = os.open(os.devnull, os.O_RDWR)
    os.dup2(devnull, 0); os.dup2(devnull, 1)
    mod = load(prop)
    while True:
        k = inq.get()
        if k is None: break
        try:
            outq.put((k, run_one(mod, cases[k]), None))
        except BaseException:
            outq.put((k, None, traceback.format_exc()))


def known_findings(prop):
    path = os.path.join(ROOT, 'known_findings.json')
    if not os.path.exists(path): return []
    return [x for x in json.load(open(path))['known'] if x['property'] == prop]


def matches(known, key, text):
    return [x for x in known if x['key'] == key and all(s in text for s in x.get('contains', []))]


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument('prop')
    ap.add_argument('--replay')
    ap.add_argument('--tier', default=os.environ.get('VERIF_TIER', 'quick'))
    ap.add_argument('--jobs', type=int, default=min(8, os.cpu_count() or 1))
    args = ap.parse_args()
    prop = args.prop
    seed = int(os.environ.get('VERIF_SEED', '1'))
    os.chdir(ROOT)
    for name in ('OMP_NUM_THREADS', 'OPENBLAS_NUM_THREADS'):
        os.environ[name] = '1'
    os.environ['MPLBACKEND'] = 'Agg'
    os.environ['PYTHONDONTWRITEBYTECODE'] = '1'
    sys.dont_write_bytecode = True
    if args.replay:
        rec = json.load(open(args.replay))
        mod = load(prop)
        res = run_one(mod, rec['params'])
        print(json.dumps(res, indent=1))
        sys.exit(1 if res['violations'] else 0)
    t0 = time.time()
    ctx = mp.get_context('fork')
    mod = load(prop)
    # Quick checks may take several rounds of cases, of different seeds
    cases = mod.cases(args.tier, seed)
    if args.tier == 'quick':
        for k in range(1, getattr(mod, 'ROUNDS', 1)): cases = cases + mod.cases(args.tier, seed + 7919*k)
    inq, outq = ctx.Queue(), ctx.Queue()
    for k in range(len(cases)): inq.put(k)
    N = max(1, min(args.jobs, len(cases)))
    for _ in range(N): inq.put(None)
    procs = [ctx.Process(target=worker, args=(prop, cases, inq, outq), daemon=True) for _ in range(N)]
    for p in procs: p.start()
    results, errors = {}, []
    stopped, endless = False, 0
    violated = None         # When the first violation was seen
    known = known_findings(prop)
    while len(results) + len(errors) < len(cases):
        try:
            k, res, err = outq.get(timeout=2)
        except queue.Empty:
            if not any(p.is_alive() for p in procs): break
            if time.time() - t0 > WALL_BUDGET[args.tier] + 240: break
            if stopped and violated and time.time() - violated > VIOLATED_WALL[args.tier] + 30: break
        else:
            if err: errors.append((k, err))
            else:
                results[k] = res
                if any(key == 'nontermination' for key, text in res['violations']): endless += 1
                if violated is None and any(not matches(known, key, text) for key, text in res['violations']): violated = time.time()
        if not stopped and (time.time() - t0 > WALL_BUDGET[args.tier] or endless >= MAX_ENDLESS
                            or (violated and time.time() - violated > VIOLATED_WALL[args.tier])):
            stopped = True
            try:
                while True: inq.get_nowait()
            except queue.Empty: pass
            for _ in range(N): inq.put(None)
    for p in procs:
        p.join(timeout=1 if stopped or errors else 5)
        if p.is_alive(): p.terminate()
    sys.exit(conclude(mod, prop, args.tier, seed, cases, results, errors, t0))


def conclude(mod, prop, tier, seed, cases, results, errors, t0):
    from rv.mon import Mon
    counts, stats, sigs = {}, {}, set()
    nontrivial = 0
    viol = []           # (case index or None, key, text)
    for k in sorted(results):
        r = results[k]
        for name, n in r['counts'].items(): counts[name] = counts.get(name, 0) + n
        for name, d in r['stats'].items():
            tgt = stats.setdefault(name, {})
            for key, v in d.items():
                if key in tgt: tgt[key] = [a + b for a, b in zip(tgt[key], v)]
                else: tgt[key] = list(v)
        if r['nontrivial']:
            nontrivial += 1
            sigs.add(r['sig'])
        for key, text in r['violations']: viol.append((k, key, text))
    finish = getattr(mod, 'finish', None)
    statReport = None
    if finish:
        m = Mon()
        statReport = finish(stats, m)
        for name, n in m.counts.items(): counts[name] = counts.get(name, 0) + n
        for key, text in m.violations: viol.append((None, key, text))
    known = known_findings(prop)
    real, seen = [], {}
    for k, key, text in viol:
        match = matches(known, key, text)
        if match: seen.setdefault(match[0]['what'], 0); seen[match[0]['what']] += 1
        else: real.append((k, key, text))
    for what in seen:
        print("KNOWN-FINDING: property={} {}".format(prop, what))
    os.makedirs(os.path.join(ROOT, 'replays'), exist_ok=True)
    printed = {}
    for k, key, text in real:
        if key in printed: continue
        if len(printed) >= 5: break
        path = os.path.join(ROOT, 'replays', "{}-{}.json".format(prop, "".join(
            c if c.isalnum() else '_' for c in key)[:40]))
        with open(path, 'w') as fh:
            json.dump(dict(property=prop, tier=tier, seed=seed, key=key, text=text,
                           params=cases[k] if k is not None else None,
                           statistics=stats if k is None else None), fh, indent=1)
        printed[key] = path
        print("VIOLATION property={} replay={}".format(prop, path))
        print("  [{}] {}".format(key, text))
    samples = []
    for k in sorted(results):
        if results[k]['nontrivial'] and len(samples) < 3:
            samples.append(dict(case=cases[k], observed=results[k]['counts'], notes=results[k]['notes']))
    need = getattr(mod, 'NEED', [])
    missing = [n for n in need if not counts.get(n)]
    evidence = dict(
        property=prop, tier=tier, seed=seed, level=mod.LEVEL,
        coverage=dict(
            evaluations=len(results), distinct_nontrivial=len(sigs), rule=mod.RULE,
            samples=samples, observed=counts, cases_planned=len(cases),
            cases_errored=len(errors)),
        assumptions=getattr(mod, 'ASSUMPTIONS', []),
        wall_s=round(time.time() - t0, 2), violations=len(real))
    if statReport: evidence['coverage']['statistics'] = statReport
    os.makedirs(os.path.join(ROOT, 'evidence'), exist_ok=True)
    with open(os.path.join(ROOT, 'evidence', prop + '.json'), 'w') as fh:
        json.dump(evidence, fh, indent=1)
    print("{}: {} cases, {} distinct non-trivial, {} violations, {} errors, {:.1f} s".format(
        prop, len(results), len(sigs), len(real), len(errors), time.time() - t0))
    print("  observed: {}".format(json.dumps(counts, sort_keys=True)))
    if real: return 1
    if errors:
        print("ERROR of the check, first of {}: case {}\n{}".format(len(errors), cases[errors[0][0]], errors[0][1]))
        return 2
    if len(results) < len(cases) and not (time.time() - t0 > WALL_BUDGET[tier]):
        print("ERROR of the check: only {} of {} cases ran".format(len(results), len(cases)))
        return 2
    if missing or not sigs:
        print("INCONCLUSIVE: nothing observed for {}".format(missing or 'any case'))
        return 2
    return 0


if __name__ == '__main__':
    main()
