"""C26: logging keeps every line whole, in order, and never disturbs a run."""
import os, sys, io, random, tempfile, shutil
import numpy as np
from rv.sim import reactor, util, msg, drain, fresh, Population, DifferentialEvolution, abort
from rv.lab import Lab, Evaluator, INF

LEVEL = 'exploration'
ROUNDS = 2
RULE = ("Message sequences are distinct by messages, handles and faults; runs by configuration and kind of log. Non-trivial when "
        "lines and characters were mixed or the output was switched, or when a run's log failed.")
NEED = ['messages', 'lines_compared', 'characters', 'switches', 'formatted', 'prefixes', 'suffixes', 'separators', 'stdout_lines',
        'write_faults', 'flush_faults', 'close_faults', 'dropped_handles', 'runs', 'runs_with_failing_log', 'log_lines_in_runs',
        'returned_handles', 'full_disk_runs', 'lines_after_switching_back', 'line_written_asked', 'multi_line', 'visible_at_once']
DASHES = '-'*120


class Rec(object):
    """A log that records, and fails when told to."""
    def __init__(self, fault=None):
        self.text = ''
        self.seen = ''          # what a reader of the file sees by now
        self.fault = fault       # (kind, n): fails from the n-th on
        self.n = dict(write=0, flush=0, close=0)
        self.closed = False
        self.failed = []

    def _do(self, kind):
        self.n[kind] += 1
        if self.fault and self.fault[0] == kind and self.n[kind] >= self.fault[1]:
            self.failed.append(kind)
            raise OSError("{} fault".format(kind))
        if self.fault and self.fault[0] == 'full' and self.n['write'] >= self.fault[1]:
            # As with a full disk, everything fails from then on
            self.failed.append(kind)
            raise OSError("full")

    def write(self, x):
        if self.closed: raise ValueError("write to closed file")
        self._do('write')
        self.text += x

    def flush(self):
        self._do('flush')
        self.seen = self.text

    def close(self):
        self._do('close')
        self.seen = self.text
        self.closed = True


def cases(tier, seed):
    rng = random.Random(seed*59 + 26)
    out = []
    for k in range(1500 if tier == 'quick' else 20000):
        out.append(dict(mode='ops', seed=seed*100129 + k, ops=rng.choice([5, 15, 40]), switch=rng.choice([0, 0.1, 0.3]),
                        chars=rng.choice([0, 0.2, 0.5]), fault=rng.choice([0, 0, 0.5])))
    for k in range(120 if tier == 'quick' else 1500):
        out.append(dict(mode='run', seed=seed*100151 + k, Nd=rng.choice([1, 2, 3]), policy=rng.choice(['sync', 'fifo', 'random']),
                        gens=rng.choice([1, 3, 6]), debug=rng.random() < 0.3))
    return out


def run_case(params, m):
    (run_ops if params['mode'] == 'ops' else run_run)(params, m)


class Handle(object):
    """What ought to be in one log."""
    def __init__(self, rec, stdout=False):
        self.rec, self.stdout = rec, stdout
        self.want = []        # ['line', text, before, after] or ['chars', text]
        self.dropped = False


def run_ops(params, m):
    rng = random.Random(params['seed'])
    out0 = sys.stdout
    stdout = Handle(Rec(), True)
    sys.stdout = stdout.rec
    try: ops(params, m, rng, stdout)
    finally:
        sys.stdout = out0
        msg.fh = None


def ops(params, m, rng, stdout):
    msg(None)
    msg.lineWritten()
    handles = [stdout]
    cur = None
    written = False
    serial = [0]

    def text(k=None):
        serial[0] += 1
        t = "line {} {}".format(serial[0], rng.choice(['plain', 'with {} braces'.replace('{}', ''), 'trailing  x', 'xxx', '100%', '\ttab']))
        if rng.random() < 0.15:
            m.count('multi_line')
            t += "\nmore of {}".format(serial[0])
        return t

    def newHandle():
        fault = None
        if rng.random() < params['fault']:
            fault = (rng.choice(['write', 'flush', 'close', 'full']), rng.choice([1, 2, 3, 5, 10]))
            if fault[0] == 'close': fault = ('close', 1)
        h = Handle(Rec(fault))
        handles.append(h)
        return h

    def call(*args):
        try: return msg(*args)
        except Exception as e:
            m.bad('raised', "{!r} raised by msg{}", e, args)
            return 'raised'

    def asked(h):
        """The log may have been dropped because writing failed."""
        if h is None: return None
        if h.rec.failed and not h.dropped and not h.stdout:
            h.dropped = True
            m.count('dropped_handles')
            for kind in set(h.rec.failed): m.count(kind + '_faults')
        return None if h.dropped else h

    if rng.random() < 0.9:
        cur = newHandle() if rng.random() < 0.8 else stdout
        call(cur.rec)
    for _ in range(params['ops']):
        m.count('messages')
        r = rng.random()
        before = cur
        size = len(cur.rec.text) if cur else 0
        if r < params['switch']:
            m.count('switches')
            how = rng.choice(['new', 'new', 'stdout', 'none', 'false', 'again', 'withtext'])
            if how in ('new', 'withtext'): h, arg = (lambda x: (x, x.rec))(newHandle())
            elif how == 'stdout': h, arg = stdout, True
            elif how == 'again' and cur: h, arg = cur, cur.rec
            else: h, arg = None, (None if how == 'none' else False)
            prev = cur.rec if cur else None
            old, cur = cur, h
            if old is not None and old is not cur: old.want.append(['break'])
            if how == 'withtext':
                t = text().split('\n')[0]
                call(arg, t)
                h.want.append(['line', t, [], []])
                written = True
            else:
                got = call(arg)
                if got != 'raised':
                    m.count('returned_handles')
                    m.check(got is prev or how == 'again', 'returned', "switching returned {}, the previous handle was {}", got, prev)
            if old is not None and old is not cur and not old.stdout:
                if old.rec.failed: m.count('close_faults')
                m.check(old.rec.closed or old.rec.failed or old.dropped, 'left-open', "the previous log was left open")
            got = call()
            m.check(got is (cur.rec if asked(cur) else None), 'switch', "after switching, the handle is {}", got)
            if not asked(cur): cur = None
            continue
        if r < params['switch'] + params['chars']:
            c = rng.choice('0123456789X%#!?.*')
            m.count('characters')
            if rng.random() < 0.5: call(c)
            else:
                try: msg.writeChar(c)
                except Exception as e: m.bad('raised', "{!r} raised by writeChar", e)
            if cur: cur.want.append(['char', c])
        elif rng.random() < 0.1:
            m.count('line_written_asked')
            got = msg.lineWritten()
            m.check(bool(got) == written, 'line-written', "lineWritten() says {}, should be {}", got, written)
            written = False
        else:
            how = rng.choice(['plain', 'writeLine', 'proto', 'around', 'around', 'around', 'dash'])
            pre, suf = [], []
            if how == 'dash':
                call('-'); t = DASHES
            else:
                t = text()
                args = [t]
                if how == 'proto' or (how == 'around' and rng.random() < 0.6):
                    m.count('formatted')
                    a = rng.choice([[5], ['-'], [0, -1], [0.25, 'x'], ['-', '-']])
                    proto = t + ''.join(rng.choice([" a={}", " {} and", "{:>4}"]) for _ in a)
                    args = [proto] + a
                    t = proto.format(*a)
                if how == 'around':
                    pre = rng.choice([[], [0], [-1], ['-'], [-1, '-'], ['-', -1], [0, '-']])
                    suf = rng.choice([[], [0], [-1], ['-'], ['-', 0], [-1, '-']])
                    if pre: m.count('prefixes')
                    if suf: m.count('suffixes')
                    if '-' in pre + suf: m.count('separators')
                if how == 'writeLine':
                    t = args[0]
                    try: msg.writeLine(t)
                    except Exception as e: m.bad('raised', "{!r} raised by writeLine", e)
                else: call(*(pre + args + suf))
            if cur:
                cur.want.append(['line', t, pre, suf])
                written = True
                if cur.stdout: m.count('stdout_lines')
        if cur and not cur.rec.failed and len(cur.rec.text) > size:
            m.count('visible_at_once')
            m.check(cur.rec.seen == cur.rec.text, 'not-flushed', "still in the buffer: {!r}", cur.rec.text[len(cur.rec.seen):])
        if cur and not asked(cur):
            m.check(call() is None, 'not-dropped', "a log that failed is still in use")
            cur = None
    last = cur
    call(None)
    for h in handles:
        asked(h)
        judge(m, h)
    m.sig(params['seed'], len(handles), serial[0])
    m.nontrivial = any(len({w[0] for w in h.want}) > 1 for h in handles) or len(handles) > 2
    k = [j for j, h in enumerate(handles) if h.want and h.stdout]
    if k and len(stdout.want) > 1 and len(handles) > 1: m.count('lines_after_switching_back')


def judge(m, h):
    want, pos = [], []
    run = None
    for w in h.want:
        if w[0] == 'char':
            if run is None:
                run = ''; want.append(None); pos.append(('chars', None))
            run += w[1]; want[-1] = run
            continue
        run = None
        if w[0] == 'break': continue
        kind, t, pre, suf = w
        if '-' in pre: want.append(DASHES); pos.append(('dash', None))
        for j, x in enumerate(t.split('\n')):
            want.append(x); pos.append(('text', (pre, suf, j, len(t.split('\n')))))
        if '-' in suf: want.append(DASHES); pos.append(('dash', None))
    lines = h.rec.text.split('\n')
    got = [(k, x) for k, x in enumerate(lines) if x.strip()]
    texts = [x for k, x in got]
    m.count('lines_compared', len(texts))
    if h.dropped or h.rec.failed:
        # Everything up to the failure is there, possibly with the last bit torn off
        n = len(texts)
        ok = texts[:-1] == want[:max(0, n-1)] and n <= len(want) and (not texts or want[n-1].startswith(texts[-1]))
        m.check(ok, 'lines-before-fault', "log before its failure: {}, should be the beginning of {}", texts[-3:], want[:n+1][-3:])
        return
    k = next((j for j, (a, b) in enumerate(zip(texts, want)) if a != b), min(len(texts), len(want)))
    if not m.check(texts == want, 'lines', "log line {} is {!r}, should be {!r} (of {} lines, {} expected)", k,
                   texts[k:k+1], want[k:k+1], len(texts), len(want)): return
    blank = lambda k: 0 <= k < len(lines) and not lines[k].strip()
    for (k, x), (kind, info) in zip(got, pos):
        if kind != 'text': continue
        pre, suf, j, n = info
        numbers = [p for p in pre if p != '-']
        if numbers and j == 0:
            at = k if pre[-1] != '-' else k-1
            m.check(blank(at - 1), 'blank-before', "no blank line before {!r} with {}: {!r}", x, pre, lines[max(0, k-3):k+1])
        if '-' not in pre and not numbers and j == 0: pass
        if j == n-1 and [p for p in suf if p != '-']:
            ok = blank(k+1) or ('-' in suf and (blank(k+2) or blank(k+1)))
            m.check(ok, 'blank-after', "no blank line after {!r} with {}: {!r}", x, suf, lines[k:k+4])


def run_run(params, m):
    logs = ['none', 'rec', 'file', 'faulty', 'faulty', 'closed', 'full', 'stdout']
    outcome = []
    out0 = sys.stdout
    scratch = tempfile.mkdtemp(prefix='rv-')
    try:
        for k, kind in enumerate(logs):
            rng = random.Random(params['seed'])
            fresh(params['seed'])
            rng2 = random.Random(params['seed']*10 + k)
            L = Lab(rng, 'sync')
            ev = Evaluator(L, lambda e: float(np.sum((e.values - 0.3)**2)) + 0.01)
            h = None
            if kind == 'rec': h = Rec()
            elif kind == 'faulty': h = Rec((rng2.choice(['write', 'flush', 'full']), rng2.randint(1, 60)))
            elif kind == 'closed': h = open(os.path.join(scratch, 'closed.log'), 'w'); h.close()
            elif kind == 'full':
                h = open('/dev/full', 'w') if os.path.exists('/dev/full') else Rec(('full', 3))
                m.count('full_disk_runs')
            elif kind == 'file': h = open(os.path.join(scratch, 'x.log'), 'w')
            elif kind == 'stdout': h = True; sys.stdout = Rec()
            try:
                p = Population(ev, ['a', 'b', 'c'][:params['Nd']], [(-2.0, 2.0)]*params['Nd'], debug=params['debug'])
                if k % 2 and kind != 'closed': msg(h)
                L.drive(p.setup())
                de = DifferentialEvolution(p, logHandle=h, maxiter=params['gens'], bitterEnd=True)
                L.policy = params['policy']
                L.drive(de())
            except Exception as e:
                m.bad('run-raised', "run with {} log raised {!r}", kind, e)
                continue
            finally:
                text = sys.stdout.text if kind == 'stdout' else None
                sys.stdout = out0
                msg.newlineNeeded = False
            m.count('runs')
            if kind in ('faulty', 'closed', 'full'): m.count('runs_with_failing_log')
            outcome.append((kind, len(ev.evals), [([float(x) for x in i.values], float(i.SSE)) for i in p]))
            if kind == 'file':
                msg(None)
                text = open(os.path.join(scratch, 'x.log')).read()
            elif kind == 'rec': text = h.text
            if text is not None:
                lines = text.split('\n')
                m.count('log_lines_in_runs', len(lines))
                for g in range(params['gens']):
                    n = sum(x.startswith("Generation {}/{}".format(g+1, params['gens'])) for x in lines)
                    m.check(n == 1, 'run-lines', "{} log has {} lines for generation {}", kind, n, g+1)
                mixed = [x for x in lines if 'Generation' in x and not x.startswith('Generation')]
                m.check(not mixed, 'run-mixed', "log line mixed with something else: {!r}", mixed[:1])
            try: msg(None)
            except Exception as e: m.bad('raised', "msg(None) raised {!r}", e); msg.fh = None
    finally:
        sys.stdout = out0
        msg.fh = None
        shutil.rmtree(scratch)
    for kind, n, members in outcome[1:]:
        m.check((n, members) == outcome[0][1:], 'run-differs', "run with {} log gives another population than without a log", kind)
    m.sig(params['seed'], outcome[0][1] if outcome else 0)
    m.nontrivial = True
