from .. import terms as t
from ..terms import K, TRUE, FALSE
from ..check import Check
from . import node
from .C10 import clock, near

def build():
    c = Check('C12', 'Three calls of readable at arbitrary times after a write and a read at arbitrary times show the same pings, closings and answers as the reference.')
    S = 'spec.nodes.'
    ts = [clock('t%d' % i) for i in (1, 2, 3, 4, 5)]
    gens = {'t1': lambda v, x: 2000000000, 't2': near(0, 100, 1800), 't3': near(1800, 10800, 60, 300, 10900), 't4': near(1800, 2100, 10800, 11100, 12600), 't5': near(2100, 2400, 10800, 90000, 12600)}
    for b, w, h in [(0, 0, 0), (0, 0, 1), (0, 1, 0), (0, 1, 1), (1, 0, 0), (1, 1, 0), (1, 1, 1)]:
            c.agree('%s%s and %s' % ('bytes waiting, ' if b else '', ('never sent', 'has sent')[w], ('never received', 'has received')[h]), S + 'idles', S + 'idles_spec', [K(bool(b)), K(bool(w)), K(bool(h))] + ts, obs=node.TRACE,
                    gens=gens, samples=3000 if c.thorough else 600, where='nbc.node.connection.Connection.readable')
    return c
