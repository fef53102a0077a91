"""C25: an abort request runs every registered callback exactly once."""
import os, sys, random, subprocess, time, threading
from rv.sim import reactor, abort, enter, drain, FakeStandardIO, logErrors, Population, DifferentialEvolution
from rv.lab import Lab, Evaluator, Boom

LEVEL = 'exploration'
ROUNDS = 3
RULE = ("Sequences of registrations, requests, restarts and ignores are distinct by their operations; non-trivial when an abort "
        "request found registered callbacks or a callback was registered after one.")
NEED = ['operations', 'callbacks_registered', 'callbacks_called', 'enter_presses', 'program_requests', 'repeated_requests',
        'late_registrations', 'nested_registrations', 'restarts', 'ignored_requests', 'raising_callbacks', 'uncallable_refused',
        'real_processes', 'optimizers_registered', 'requests_with_none_registered', 'console_held', 'console_let_go', 'ends_shutdown', 'ends_reactor']


def cases(tier, seed):
    rng = random.Random(seed*53 + 25)
    out = [dict(mode='ops', seed=seed*100109 + k, ops=rng.choice([4, 8, 20, 40]), raising=rng.choice([0, 0, 0.2]),
                nested=rng.choice([0, 0.2]), objects=rng.random() < 0.1)
           for k in range(2000 if tier == 'quick' else 30000)]
    for k in range(8 if tier == 'quick' else 40): out.insert(k*20, dict(mode='process', seed=seed*77 + k))
    return out


def run_case(params, m):
    if params['mode'] == 'process': return process(params, m)
    rng = random.Random(params['seed'])
    called = []             # ids in order of calling
    want = []               # ids in the order they have to be called
    registry = []           # ids waiting in the present registry
    s = dict(aborted=False, ignored=False, requested=False, n=0, nt=False)
    soon = []               # registered after the abort: called when the reactor runs

    def make(depth=0):
        id = s['n']; s['n'] += 1
        raising = rng.random() < params['raising']
        inner = rng.random() < params['nested'] and depth < 3
        def func():
            called.append(id)
            m.count('callbacks_called')
            if inner:
                m.count('nested_registrations')
                register(depth + 1, nested=True)
            if rng.random() < 0.05:
                # Requests from inside a callback change nothing
                abort.abortNow(); m.count('repeated_requests')
            if raising:
                m.count('raising_callbacks')
                raise Boom("callback {}".format(id))
        return id, func

    def register(depth=0, nested=False):
        id, func = make(depth)
        m.count('callbacks_registered')
        abort.callOnAbort(func)
        if nested:
            # Made while aborting: once, right then or as soon as the reactor runs
            soon.append(id)
        elif s['aborted']:
            m.count('late_registrations')
            soon.append(id)
            s['nt'] = True
            m.check(id not in called, 'late-immediately', "a callback registered after the abort was called before the reactor ran")
        else: registry.append(id)

    def request():
        """The abort takes effect now."""
        if s['ignored']:
            m.count('ignored_requests')
            return
        if s['aborted']: m.count('repeated_requests')
        if not registry: m.count('requests_with_none_registered')
        else: s['nt'] = True
        want.extend(registry)
        del registry[:]
        s['aborted'] = True

    def compare(when, ran):
        main = [x for x in called if x in want]
        m.check(main == want, 'called', "{}: called {}, should have been {}", when, main[-8:], want[-8:])
        m.check(len(set(called)) == len(called), 'twice', "{}: called more than once: {}", when,
                sorted(x for x in set(called) if called.count(x) > 1))
        stray = [x for x in called if x not in want and x not in soon]
        m.check(not stray, 'stray', "{}: called although no abort was requested: {}", when, stray)
        if ran:
            missing = [x for x in soon if x not in called]
            m.check(not missing, 'late', "{}: registered after the abort but not called: {}", when, missing)

    first = FakeStandardIO.latest
    def console(when):
        """The console is held until the abort, and no longer."""
        c = FakeStandardIO.latest
        if c is first: return
        if s['aborted']:
            m.count('console_let_go')
            m.check(c.transport.lost >= 1, 'console-kept', "{}: the console was not let go after the abort", when)
        else:
            m.count('console_held')
            m.check(not c.transport.lost, 'console-lost', "{}: the console was let go without an abort", when)

    pending = [0]
    def settle():
        """Lets the reactor run; requests from the program take effect."""
        if pending[0]: request()
        pending[0] = 0
        n = 0
        while n < 500:
            try:
                if not reactor.step(): break
            except Boom: pass      # The real reactor logs what a delayed call raises
            n += 1

    L = Lab(rng, 'sync')
    if rng.random() < 0.3:
        abort.shutdown()           # Harmless before anything was registered
    for k in range(params['ops']):
        m.count('operations')
        op = rng.choice(['register']*5 + ['enter', 'now', 'run', 'run', 'restart', 'ignore', 'bad', 'now2'])
        if op == 'ignore' and (s['aborted'] or rng.random() < 0.7): continue
        if op == 'register': register()
        elif op == 'enter':
            if abort.KeyboardHolder.KB is None: continue
            if pending[0]: settle()
            before = len(called)
            request()
            m.count('enter_presses')
            try: enter()
            except Boom as e: m.bad('raised', "a callback's exception came out of the Enter key press and stopped the abort: {!r}", e)
            if not s['ignored']: compare("after Enter", False)
            console("after Enter")
        elif op in ('now', 'now2'):
            m.count('program_requests')
            before = len(called)
            for _ in range(1 if op == 'now' else 3): abort.abortNow()
            m.check(len(called) == before, 'immediate', "abortNow() called callbacks before the reactor ran")
            pending[0] = 1
            if rng.random() < 0.5: settle(); compare("after abortNow", True)
        elif op == 'run':
            settle(); compare("after the reactor ran", True)
            console("after the reactor ran")
        elif op == 'restart':
            settle(); compare("before restart", True)
            abort.restart()
            m.count('restarts')
            del registry[:]
            s.update(aborted=False, ignored=False)
        elif op == 'ignore':
            settle()
            if s['aborted']: continue
            abort.ignoreKeyboard()
            s['ignored'] = True
        elif op == 'bad' and not s['aborted']:
            try: abort.callOnAbort(rng.choice([None, 5, 'x']))
            except TypeError: m.count('uncallable_refused')
            else: m.bad('uncallable', "something not callable was registered")
        if m.violations: return
    settle(); compare("at the end", True)
    console("at the end")
    if FakeStandardIO.latest is not first and not params['objects']:
        # Ending without an abort calls nobody and lets go of the console, once
        c, how = FakeStandardIO.latest, rng.choice(['shutdown', 'reactor'])
        m.count('ends_' + how)
        for _ in range(rng.choice([1, 2])):
            if how == 'shutdown': abort.shutdown()
            else: reactor.fireSystemEvent('shutdown')
        settle(); compare("after shutdown", True)
        m.check(c.transport.lost == 1, 'console-end', "the console was let go {} times", c.transport.lost)
    if params['objects'] and not s['ignored']:
        # The library's own objects get their calls, too
        if s['aborted']: abort.restart()
        p = Population(Evaluator(L, lambda e: 1.0), ['a'], [(0, 1)])
        d = DifferentialEvolution(p, logHandle=None)
        d.running = True
        L.drive(p.setup())
        enter()
        drain(100)
        m.count('optimizers_registered')
        m.check(p.running is False and not d.running, 'objects', "Enter did not stop the population and the optimizer")
    m.sig(params['seed'], tuple(called))
    m.nontrivial = s['nt']


def process(params, m):
    root = os.path.dirname(os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
    proc = subprocess.Popen([sys.executable, '-m', 'rv.abort_child', str(params['seed'])], cwd=root, stdin=subprocess.PIPE,
                            stdout=subprocess.PIPE, stderr=subprocess.DEVNULL, text=True)
    killer = threading.Timer(60, proc.kill); killer.start()
    try:
        first = proc.stdout.readline().split()
        if first[:1] != ['ready']: raise RuntimeError("child said {}".format(first))
        try:
            proc.stdin.write('\n'); proc.stdin.flush()
            rest = proc.stdout.read().split('\n')
        except BrokenPipeError: rest = proc.stdout.read().split('\n')
        proc.wait()
    finally: killer.cancel()
    if 'end' not in rest: raise RuntimeError("child ended with {}".format(rest))
    n, ignored = int(first[1]), int(first[2])
    got = [x.split()[1] for x in rest if x.startswith('called')]
    m.count('real_processes')
    if ignored: m.check(not got, 'process-ignored', "called in spite of ignoring the keyboard: {}", got)
    else:
        want = [str(k) for k in range(n)]
        m.check([x for x in got if x.isdigit()] == want, 'process-called', "real Enter called {}, should have been {}", got, want)
        m.check(got.count('inner') == 1 and got.count('late') == 1, 'process-late', "registered while or after aborting: {}", got)
    m.sig('process', n, ignored)
    m.nontrivial = True
