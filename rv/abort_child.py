"""
Run as a separate process with the real reactor: registers callbacks, aborts
when its standard input says so, and tells what was called.
python -m rv.abort_child SEED
"""
import sys, random
sys.path.insert(0, '/repo')
from twisted.internet import reactor
from ade import abort

def main():
    rng = random.Random(int(sys.argv[1]))
    n = rng.randint(1, 6)
    def say(*args):
        sys.stdout.write(' '.join(str(x) for x in args) + '\n'); sys.stdout.flush()
    def callback(k):
        def func():
            say('called', k)
            if k == 0: abort.callOnAbort(lambda: say('called', 'inner'))
        return func
    ignored = rng.random() < 0.25
    if ignored: abort.ignoreKeyboard()
    for k in range(n): abort.callOnAbort(callback(k))
    def late():
        if not ignored: abort.callOnAbort(callback('late'))
        reactor.callLater(0.15, reactor.stop)
    reactor.callLater(0.5, late)
    reactor.callWhenRunning(say, 'ready', n, int(ignored))
    reactor.run()
    say('end')

if __name__ == '__main__': main()
