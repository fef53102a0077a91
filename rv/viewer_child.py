"""
Run as a separate process with the real reactor: does with image viewers what the steps in a JSON file say and tells what happened.
python -m rv.viewer_child STEPS.json OUT.json
"""
import sys, os, json, io, time
sys.path.insert(0, '/repo')
from twisted.internet import reactor, defer, inotify, task
from twisted.python.filepath import FilePath
from ade import image
from ade.util import msg

MINE = set()            # PIDs of processes started here
EVENTS = []
WAITING = {}            # PID -> process that is going to end by itself
_kill, _spawn = os.kill, reactor.spawnProcess


def kill(pid, sig):
    """Nothing but a viewer started here is ever sent a signal."""
    if pid not in MINE:
        EVENTS.append(['foreign-signal', pid, int(sig)])
        return
    if sig: EVENTS.append(['signal', pid, int(sig)])
    _kill(pid, sig)


def spawn(proto, path, args=(), env={}, *more, **kw):
    ended = proto.processEnded
    box = []
    def processEnded(reason):
        WAITING.pop(box[0], None)
        EVENTS.append(['ended', box[0]])
        MINE.discard(box[0])
        ended(reason)
    proto.processEnded = processEnded
    transport = _spawn(proto, path, args, env, *more, **kw)
    box.append(transport.pid)
    MINE.add(transport.pid)
    if 'stay' not in os.path.basename(path): WAITING[transport.pid] = True
    EVENTS.append(['spawn', transport.pid, path, list(args)])
    return transport


os.kill = kill
reactor.spawnProcess = spawn


def pause(t=0.004): return task.deferLater(reactor, t, lambda: None)


@defer.inlineCallbacks
def settle(cond=lambda: True):
    quiet, last, t0 = 0, None, time.time()
    while quiet < 12:
        yield pause()
        now = (len(EVENTS), len(WAITING))
        quiet = quiet + 1 if now == last and not WAITING and cond() else 0
        last = now
        if time.time() - t0 > 30: raise RuntimeError("timeout")


@defer.inlineCallbacks
def run(steps, out):
    viewers, watched, seen, report = {}, {}, {}, []
    log = io.StringIO(); log.close = lambda: None
    msg(log)
    for step in steps:
        mark, logged = len(EVENTS), len(log.getvalue())
        what, cond = step['do'], lambda: True
        error = None
        try:
            if what == 'new':
                cls = type('Viewer', (image.ImageViewer,), {'exList': step['programs']})
                viewers[step['id']] = cls(step['path'], **step['kw'])
            elif what == 'write':
                path = step['path']
                if path not in watched:
                    seen[path] = [0]
                    def notify(_, fp, mask, c=seen[path]): c[0] += 1
                    watched[path] = inotify.INotify(); watched[path].startReading()
                    watched[path].watch(FilePath(path), callbacks=[notify])
                n = seen[path][0]
                with open(path, 'ab') as fh: fh.write(b'x'*10)
                cond = lambda p=path, n=n: seen[p][0] > n
            elif what == 'close':       # The user closes the viewer
                for pid in list(MINE):
                    WAITING[pid] = True
                    _kill(pid, 15)
            elif what == 'term':
                v = viewers[step['id']]
                if v.transport is not None and v.transport.pid: WAITING[v.transport.pid] = True
                v.termViewer()
            elif what == 'pidfile':
                with open(step['path'] + '.pid', 'w') as fh: fh.write(step['text'])
            yield settle(cond)
        except RuntimeError: raise
        except Exception as e: error = repr(e)
        pids = {}
        for name in step['paths']:
            try:
                with open(name + '.pid') as fh: pids[name] = fh.read()
            except IOError: pids[name] = None
        report.append(dict(events=EVENTS[mark:], log=log.getvalue()[logged:], pids=pids, alive=sorted(MINE), error=error,
                           sizes={p: os.path.getsize(p) if os.path.exists(p) else None for p in step['paths']},
                           running={k: bool(v.processRunning()) for k, v in viewers.items()}))
    for pid in list(MINE): _kill(pid, 9)
    with open(out, 'w') as fh: json.dump(report, fh)


def main():
    with open(sys.argv[1]) as fh: steps = json.load(fh)
    def failed(f): sys.stderr.write(f.getTraceback()); return None
    def go(): run(steps, sys.argv[2]).addErrback(failed).addBoth(lambda _: reactor.stop())
    reactor.callWhenRunning(go)
    reactor.run()
    for pid in list(MINE):
        try: _kill(pid, 9)
        except OSError: pass


if __name__ == '__main__': main()
