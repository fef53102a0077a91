"""C33: one image viewer per image, started as configured.

Runs in a child process with the real reactor, on images and viewer programs in a scratch directory. The viewer programs are scripts
that note the arguments they get and then stay, end, or complain and end. The child sends signals to nothing but programs it started.
"""
import os, sys, json, random, tempfile, shutil, subprocess
from rv import sim

LEVEL = 'exploration'
RULE = "Histories are distinct by their steps and the viewer programs there are; non-trivial when a viewer was started and another time none had to be."
NEED = ['children', 'writes', 'started', 'not_started_again', 'not_started_while_running', 'other_program', 'no_program', 'complaints', 'kept_quiet',
        'options_checked', 'pid_files', 'stale_pid_files', 'created_files', 'left_files', 'closed', 'terminated', 'restarted_after_close']
ASSUMPTIONS = ["A viewer has been given its chance to start when another watch on the same file has been notified and the reactor has turned a dozen times since."]
CASE_CPU = 120


def cases(tier, seed):
    rng = random.Random(seed*61 + 33)
    return [dict(seed=seed*100297 + k) for k in range(80 if tier == 'quick' else 700)]


SCRIPT = """#!/bin/sh
{{ printf '%s\\037' "$0" "$@"; echo; }} >> '{log}'
{body}
"""
BODY = dict(stay="exec sleep 90", quit="exit 0", fail="echo trouble >&2; exit 1")


def run_case(params, m):
    rng = random.Random(params['seed'])
    scratch = tempfile.mkdtemp(prefix="c33-")
    try:
        dead = subprocess.Popen(['true']); dead.wait()
        log = os.path.join(scratch, 'log')
        def program(k):
            mode = rng.choice(['stay', 'stay', 'stay', 'quit', 'fail', 'absent'])
            path = os.path.join(scratch, "{}{}".format(mode, k))
            if mode != 'absent':
                with open(path, 'w') as fh: fh.write(SCRIPT.format(log=log, body=BODY[mode]))
                os.chmod(path, 0o755)
            opts = [rng.choice(["-T", "--plain", "--title={}", "{}", "-geit", "--x={}.y"]) for _ in range(rng.choice([0, 1, 2, 3]))]
            return [path] + opts
        paths = [os.path.join(scratch, n) for n in rng.sample(['im.png', 'with space.png', 'é.png'], 2)]
        images = {}             # path -> size
        for p in paths:
            if rng.random() < 0.5:
                n = rng.choice([0, 5])
                with open(p, 'wb') as fh: fh.write(b'y'*n)
                images[p] = n
        steps, viewers = [], {}
        for k in range(rng.choice([4, 6, 8, 10])):
            do = rng.choice(['new', 'write', 'write', 'write', 'close', 'term', 'pidfile', 'new'])
            if not viewers: do = rng.choice(['new', 'new', 'pidfile'])
            path = paths[0] if rng.random() < 0.8 else paths[1]
            step = dict(do=do, path=path, paths=paths)
            if do == 'new':
                step.update(id=str(k), programs=[program("{}-{}".format(k, j)) for j in range(rng.choice([0, 1, 2, 2, 3]))],
                            kw=rng.choice([{}, {}, {'noComplain': True}, {'noComplain': False}]))
                viewers[str(k)] = path
            elif do == 'write':
                if path not in viewers.values(): step['path'] = path = rng.choice(sorted(set(viewers.values())))
            elif do == 'term': step['id'] = rng.choice(sorted(viewers))
            elif do == 'pidfile': step['text'] = rng.choice(['', 'junk', str(dead.pid), '{}\n'.format(dead.pid)])
            steps.append(step)
            if do == 'new' and rng.random() < 0.7: steps.append(dict(do='write', path=path, paths=paths))
        src, dst = os.path.join(scratch, 'steps.json'), os.path.join(scratch, 'out.json')
        with open(src, 'w') as fh: json.dump(steps, fh)
        root = os.path.dirname(os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
        r = subprocess.run([sys.executable, '-m', 'rv.viewer_child', src, dst], cwd=root, stdin=subprocess.DEVNULL, capture_output=True, text=True, timeout=400)
        if not os.path.exists(dst):
            if '/repo/ade/' in r.stderr and 'timeout' not in r.stderr: m.bad('failed', "the child process failed: {}", r.stderr[-600:]); return
            raise RuntimeError("child failed: " + r.stderr[-800:])
        with open(dst) as fh: report = json.load(fh)
        m.count('children')
        judge(m, rng, steps, report, images, log)
        m.sig(json.dumps([[s['do'], s.get('programs') and [os.path.basename(p[0])[:4] for p in s['programs']], s['path'] == paths[0]] for s in steps]), params['seed'])
    finally: shutil.rmtree(scratch, ignore_errors=True)


def judge(m, rng, steps, report, images, log):
    objs = {}           # id -> dict(path, programs, quiet, state: 'waiting' or 'done')
    pidfile = {}        # path -> what it must say (None: nothing there)
    alive = set()
    mode = lambda p: os.path.basename(p)[:4]
    spawned = []
    started = notstarted = 0
    for n, (step, r) in enumerate(zip(steps, report)):
        do, path = step['do'], step['path']
        ev = r['events']
        where = "step {} ({} {})".format(n, do, os.path.basename(path))
        if not m.check(r['error'] is None, 'raised', "{} raised {}", where, r['error']): return
        m.check(not any(e[0] == 'foreign-signal' for e in ev), 'foreign-signal', "{}: a process that isn't a viewer of ours was to be signalled: {}", where, ev)
        got = [e for e in ev if e[0] == 'spawn']
        ended = [e[1] for e in ev if e[0] == 'ended']
        if do == 'new':
            if path in images: m.count('left_files')
            else: images[path] = 0; m.count('created_files')
            objs[step['id']] = dict(path=path, programs=step['programs'], quiet=step['kw'].get('noComplain', False), state='waiting')
            if not m.check(not got, 'early', "{}: a viewer was started before the image was written", where): return
        elif do == 'write': images[path] += 10; m.count('writes')
        for p, size in r['sizes'].items():
            m.check(size == images.get(p), 'image-file', "{}: {} has {} bytes instead of {}", where, os.path.basename(p), size, images.get(p))
        if do == 'pidfile': pidfile[path] = step['text']
        if do == 'close': m.count('closed', len(alive))
        if do == 'term':
            o = objs[step['id']]
            if o.get('pid') in alive:
                m.count('terminated')
                m.check(o['pid'] in ended, 'terminate', "{}: viewer {} has not ended", where, o['pid'])
            sig = [e for e in ev if e[0] == 'signal']
            m.check(all(e[1] == o.get('pid') for e in sig), 'terminate', "{}: signalled {} instead of viewer {}", where, sig, o.get('pid'))
            # A viewer that was terminated may be watched for and started again, or not
            if o['state'] == 'done': o['state'] = 'unknown'
        if do == 'write':
            # Which viewer objects start what is up to the order they are told in: each one waiting starts its chain unless the
            # process named in the PID file is alive
            queue = list(got)
            running = lambda: pidfile.get(path) is not None and pidfile[path].strip().isdigit() and int(pidfile[path]) in alive
            was_running = running()
            complaints = quiet = 0
            ready = [o for o in objs.values() if o['path'] == path and o['state'] == 'waiting']
            loud = [o for o in objs.values() if o['path'] == path and o['state'] == 'done']
            unknown = [o for o in objs.values() if o['path'] == path and o['state'] == 'unknown']
            if was_running:
                if not m.check(not got, 'second-viewer', "{}: {} started although viewer {} is running", where, [g[2:] for g in got], pidfile[path]): return
                m.count('not_started_while_running'); notstarted += 1
            elif not ready and not unknown:
                if not m.check(not got, 'restarted', "{}: {} started again", where, [g[2:] for g in got]): return
                if loud: m.count('not_started_again'); notstarted += 1
            elif len(ready) == 1 and not unknown:
                o = ready[0]
                avail = [p for p in o['programs'] if mode(p[0]) != 'abse']
                chain = []
                for p in avail:
                    chain.append(p)
                    if mode(p[0]) != 'fail': break
                base = os.path.basename(path)
                want = [[p[0], [os.path.basename(p[0])] + [a.replace('{}', base) for a in p[1:]] + [path]] for p in chain]
                for g, w in zip(got, want): m.count('options_checked', len(w[1]) - 2)
                if len(want) > 1 or (want and want[0][0] != o['programs'][0][0]): m.count('other_program')
                if not m.check([g[2:] for g in got] == want, 'started', "{}: started {} instead of {}", where, [g[2:] for g in got], want): return
                started += len(got); m.count('started', len(got))
                if o.get('again'): m.count('restarted_after_close')
                text = r['log']
                fails = [p for p in chain if mode(p[0]) == 'fail']
                none = not chain or mode(chain[-1][0]) == 'fail'
                if len(fails) > 1: m.count('both_failed')
                if o['quiet']:
                    if fails or none: m.count('kept_quiet')
                    m.check(not text.strip(), 'not-quiet', "{}: complained {!r}", where, text[:200])
                else:
                    for p in fails:
                        m.count('complaints')
                        m.check(os.path.basename(p[0]) in text and 'trouble' in text, 'complaint', "{}: nothing about {} in {!r}", where, os.path.basename(p[0]), text[:200])
                    if none:
                        m.check('viewer' in text.lower(), 'complaint', "{}: no complaint about there being no viewer, but {!r}", where, text[:200])
                    if not fails and not none: m.check(not text.strip(), 'complaint', "{}: complained {!r} without reason", where, text[:200])
                if not chain: m.count('no_program')
                o['state'] = 'done'
                if chain: o['pid'] = got[-1][1]
            else:
                # Several were waiting: whoever is told first starts its viewer, which keeps the others from doing so if it stays
                stays = 0
                for g in got:
                    mine = [o for o in ready + unknown if any(p[0] == g[2] for p in o['programs'])]
                    if not m.check(len(mine) == 1, 'started', "{}: {} started, a program of none of those waiting", where, g[2]): return
                    mine[0]['state'] = 'done'; mine[0]['pid'] = g[1]
                    stays += 'stay' in os.path.basename(g[2])
                m.check(stays <= 1, 'second-viewer', "{}: {} viewers started for one image", where, stays)
                started += len(got); m.count('started', len(got))
                # Whether the others still wait depends on who was told first
                for o in ready:
                    if o['state'] == 'waiting': o['state'] = 'unknown'
            if got: pidfile[path] = str(got[-1][1])
        for g in got:
            alive.add(g[1]); spawned.append(g)
        for pid in ended: alive.discard(pid)
        if do != 'write' and do != 'new':
            m.check(not got, 'unasked', "{}: started {}", where, [g[2:] for g in got])
        for p, text in r['pids'].items():
            w = pidfile.get(p)
            m.check((text is None) == (w is None) and (text is None or text.strip() == w.strip()), 'pid-file', "{}: the PID file of {} says {!r} instead of {!r}",
                    where, os.path.basename(p), text, w)
            if w is not None: m.count('pid_files')
            if w is not None and not (w.strip().isdigit() and int(w) in alive): m.count('stale_pid_files')
        for k, v in r['running'].items():
            w = pidfile.get(objs[k]['path'])
            m.check(v == (w is not None and w.strip().isdigit() and int(w) in alive), 'running', "{}: processRunning is {} with PID file {!r} and {} alive",
                    where, v, w, sorted(alive))
        if do == 'close':
            for o in objs.values(): o['again'] = True
    # What the programs themselves got
    lines = []
    if os.path.exists(log):
        with open(log) as fh: lines = [l.rstrip('\n').split('\037')[:-1] for l in fh]
    want = sorted([g[2]] + g[3][1:] for g in spawned)
    # A program ended by us before it could write doesn't count
    m.check(all(l in want for l in lines), 'arguments', "programs were called as {}, not {}", lines, want)
    if started and notstarted: m.nontrivial = True
