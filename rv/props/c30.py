"""C30: extracting the examples never overwrites or damages anything.

The extraction runs in a forked child that has become an unprivileged user whose only files are in a scratch directory, with an audit
hook recording everything it opens for writing, creates, renames or removes.
"""
import os, sys, json, random, tempfile, shutil, stat, warnings
warnings.simplefilter('ignore')
from rv.sim import msg
import ade
from ade.scripts import examples

LEVEL = 'exploration'
ROUNDS = 8
RULE = "Histories are distinct by the states of directory and files they went through; non-trivial when something was already there and something was created."
NEED = ['extractions', 'created', 'untouched', 'state_absent', 'state_identical', 'state_modified', 'state_empty', 'state_directory', 'state_symlink',
        'state_dangling', 'state_loop', 'state_readonly', 'state_hardlink', 'restored', 'repeated', 'dir_absent', 'dir_empty', 'dir_link', 'write_events',
        'user_files', 'package_api', 'script_api', 'concurrent', 'package_untouched']
ASSUMPTIONS = ["The packaged example files are the Python and C sources of the examples package."]
CASE_CPU = 60
NOBODY = 65534

SOURCE = os.path.join(os.path.dirname(os.path.abspath(ade.__file__)), 'examples')
STATES = ['absent', 'identical', 'modified', 'empty', 'directory', 'symlink', 'dangling', 'loop', 'readonly', 'hardlink', 'fifo']


def packaged():
    out = {}
    for name in sorted(os.listdir(SOURCE)):
        path = os.path.join(SOURCE, name)
        if os.path.isfile(path):
            with open(path, 'rb') as fh: out[name] = fh.read()
    return out


def required(files): return [n for n in files if n.endswith(('.py', '.c')) and n[0].islower()]


def cases(tier, seed):
    rng = random.Random(seed*71 + 30)
    out = []
    for k in range(200 if tier == 'quick' else 2500):
        out.append(dict(seed=seed*100189 + k, api=rng.choice(['package', 'script']), dir=rng.choice(['absent', 'empty', 'some', 'some', 'some', 'link']),
                        home=rng.choice(['h', 'with space', 'é{}', '%s~', '-h']), rounds=rng.choice([1, 2, 3]), users=rng.random() < 0.5,
                        together=rng.random() < 0.1))
    return out


def snapshot(root):
    """Everything under root: type, content or target, mode, inode, time of change."""
    out = {}
    for d, dirs, files in os.walk(root):
        if '__pycache__' in dirs: dirs.remove('__pycache__')
        for n in dirs + files:
            path = os.path.join(d, n)
            s = os.lstat(path)
            if stat.S_ISLNK(s.st_mode): x = ('link', os.readlink(path))
            elif stat.S_ISDIR(s.st_mode): x = ('dir',)
            elif stat.S_ISFIFO(s.st_mode): x = ('fifo',)
            else:
                with open(path, 'rb') as fh: x = ('file', fh.read(), s.st_mtime_ns)
            out[os.path.relpath(path, root)] = x + (stat.S_IMODE(s.st_mode), s.st_ino)
    return out


def put(path, what, data, outside, rng):
    """Puts an entry in the given state at path."""
    if what == 'identical':
        with open(path, 'wb') as fh: fh.write(data)
    elif what == 'modified':
        with open(path, 'wb') as fh: fh.write(rng.choice([b"# mine\n" + data, data[:len(data)//2], data + b"\n", b"\0\xff" * 9, data.swapcase()]))
    elif what == 'empty': open(path, 'wb').close()
    elif what == 'directory':
        os.mkdir(path)
        if rng.random() < 0.5:
            with open(os.path.join(path, 'inner'), 'w') as fh: fh.write("inner")
    elif what == 'symlink':
        target = os.path.join(outside, os.path.basename(path) + '.real')
        with open(target, 'wb') as fh: fh.write(rng.choice([b"linked", b"", data]))
        os.symlink(target, path)
    elif what == 'dangling': os.symlink(os.path.join(outside, os.path.basename(path) + '.gone'), path)
    elif what == 'loop': os.symlink(os.path.basename(path), path)
    elif what == 'readonly':
        with open(path, 'wb') as fh: fh.write(b"read only")
        os.chmod(path, 0o444)
    elif what == 'hardlink':
        target = os.path.join(outside, os.path.basename(path) + '.hard')
        with open(target, 'wb') as fh: fh.write(b"hard linked")
        os.link(target, path)
    elif what == 'fifo': os.mkfifo(path)


def own(root):
    os.chown(root, NOBODY, NOBODY)
    for d, dirs, files in os.walk(root):
        for n in dirs + files: os.chown(os.path.join(d, n), NOBODY, NOBODY, follow_symlinks=False)


WRITES = os.O_WRONLY | os.O_RDWR | os.O_CREAT | os.O_TRUNC | os.O_APPEND
ACTIONS = {'os.mkdir': [0], 'os.rename': [0, 1], 'os.remove': [0], 'os.rmdir': [0], 'os.link': [1], 'os.symlink': [1], 'os.truncate': [0],
           'os.chmod': [0], 'os.chown': [0], 'os.utime': [0], 'shutil.copyfile': [1], 'shutil.move': [0, 1], 'shutil.rmtree': [0]}

def child(home, api, report, hold):
    """In the forked child: become nobody, extract, report what was touched."""
    code = 0
    events = []
    try:
        fd = os.open(report, os.O_WRONLY | os.O_CREAT, 0o600)
        os.dup2(os.open(os.devnull, os.O_WRONLY), 1)
        sys.stdout = sys.__stdout__
        os.setgroups([]); os.setgid(NOBODY); os.setuid(NOBODY)
        os.environ['HOME'] = home
        os.chdir(home)
        on = [True]
        def hook(event, args):
            if not on[0]: return
            if event == 'open' and isinstance(args[0], (str, bytes)) and isinstance(args[2], int) and args[2] & WRITES:
                events.append((event, os.fsdecode(args[0])))
            elif event in ACTIONS:
                for k in ACTIONS[event]:
                    x = args[k]
                    if isinstance(x, int): x = os.readlink("/proc/self/fd/{}".format(x))
                    events.append((event, os.fsdecode(x)))
        sys.addaudithook(hook)
        os.read(hold, 1)
        err = None
        try: (ade.extract_examples if api == 'package' else examples.extract)()
        except BaseException as e: err = repr(e)
        on[0] = False
        os.write(fd, json.dumps([err, events]).encode())
    except BaseException as e:
        sys.stderr.write(repr(e)); code = 3
    finally: os._exit(code)


def extract(home, api, scratch, n=1):
    r, w = os.pipe()
    kids = []
    for k in range(n):
        report = os.path.join(scratch, 'report{}'.format(k))
        pid = os.fork()
        if pid == 0:
            os.close(w)
            child(home, api, report, r)
        kids.append((pid, report))
    os.close(r); os.close(w)
    out = []
    for pid, report in kids:
        _, status = os.waitpid(pid, 0)
        if status: raise RuntimeError("extracting child ended with status {}".format(status))
        with open(report) as fh: out.append(json.load(fh))
        os.unlink(report)
    return out


def run_case(params, m):
    rng = random.Random(params['seed'])
    scratch = tempfile.mkdtemp(prefix='rv-')
    os.chmod(scratch, 0o755)
    source = packaged()
    before_pkg = snapshot(SOURCE)
    try:
        world = os.path.join(scratch, 'world')
        home, outside = os.path.join(world, params['home']), os.path.join(world, 'outside')
        os.mkdir(world); os.mkdir(home); os.mkdir(outside)
        edir = os.path.join(home, 'ade-examples')
        real = edir
        m.count('dir_' + params['dir'])
        if params['dir'] == 'link':
            real = os.path.join(outside, 'elsewhere'); os.mkdir(real); os.symlink(real, edir)
        elif params['dir'] != 'absent': os.mkdir(edir)
        relreal = os.path.relpath(real, world)
        need = required(source)
        if params['users']:
            m.count('user_files')
            for n in ('.bashrc', 'data.py'):
                with open(os.path.join(home, n), 'w') as fh: fh.write("user's")
            if params['dir'] not in ('absent', 'empty'):
                for n in ('mine.py', 'goldstein-price.py~', 'README.txt'):
                    with open(os.path.join(edir, n), 'w') as fh: fh.write("user's")
        used = []
        created = untouched = 0
        for r in range(params['rounds']):
            if r: m.count('repeated')
            if os.path.isdir(edir) and params['dir'] != 'empty':
                for n in need:
                    path = os.path.join(edir, n)
                    if r and rng.random() < 0.5: continue
                    what = rng.choice(STATES)
                    if os.path.lexists(path):
                        if os.path.isdir(path) and not os.path.islink(path): shutil.rmtree(path)
                        else: os.unlink(path)
                        if r and what == 'absent': m.count('restored')
                    for end in ('.real', '.gone', '.hard'):
                        x = os.path.join(outside, n + end)
                        if os.path.lexists(x): os.unlink(x)
                    put(path, what, source[n], outside, rng)
                    m.count('state_' + what); used.append(what)
            own(world)
            was = snapshot(world)
            n = 2 if params['together'] else 1
            reports = extract(home, params['api'], scratch, n)
            if n > 1: m.count('concurrent')
            m.count('extractions'); m.count(params['api'] + '_api')
            now = snapshot(world)
            for err, events in reports:
                if n == 1: m.check(err is None, 'failed', "extraction failed: {}", err)
                for event, path in events:
                    m.count('write_events')
                    path = os.path.normpath(os.path.join(home, path))
                    inside = path == edir or path.startswith(edir + os.sep) or path == real or path.startswith(real + os.sep)
                    m.check(inside, 'elsewhere', "{} of {} outside the example directory", event, path.replace(world, ''))
            for rel, x in was.items():
                y = now.get(rel)
                if x[0] == 'dir': ok = y is not None and y[0] == 'dir' and y[-2:] == x[-2:]
                else: ok = y == x
                if rel.startswith(relreal + os.sep): m.count('untouched'); untouched += 1
                m.check(ok, 'changed', "{} was {} and is {} after extracting (states {})", rel, brief(x), brief(y), used)
            for rel, y in now.items():
                if rel in was: continue
                name = os.path.relpath(rel, relreal)
                if rel == relreal: continue
                m.check(name in source and y[0] == 'file' and os.sep not in name, 'extra', "{} {} appeared", rel, brief(y))
                if name in source:
                    m.check(y[1] == source[name], 'content', "{} was created but differs from the packaged file ({} bytes, {} packaged)",
                            name, len(y[1]), len(source[name]))
                    m.count('created'); created += 1
            for name in need:
                m.check(os.path.join(relreal, name) in now, 'missing', "{} was not created", name)
        m.check(snapshot(SOURCE) == before_pkg, 'package', "the packaged examples were changed")
        m.count('package_untouched')
    finally: shutil.rmtree(scratch)
    m.sig(params['dir'], params['rounds'], tuple(used))
    m.nontrivial = created > 0 and untouched > 0


def brief(x):
    if x is None: return "gone"
    return str(tuple(len(y) if isinstance(y, bytes) else y for y in x[:2]))
