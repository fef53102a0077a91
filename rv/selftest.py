"""Setup command: checks that the code under test can be imported and the harness works."""
from rv import sim
from rv.mon import Mon

def main():
    sim.fresh(1)
    d = sim.util.defer.Deferred() if hasattr(sim.util, 'defer') else sim.defer.Deferred()
    sim.reactor.callLater(3, d.callback, 1)
    assert sim.drain() == 1 and sim.result_of(d) == (True, 1)
    print("harness ready, ade from", sim.ade.__file__)

if __name__ == '__main__': main()
