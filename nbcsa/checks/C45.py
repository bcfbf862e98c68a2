"""the port of a node at a router"""
from .. import terms as t
from ..terms import K
from ..check import Check

def build():
    c = Check('C45', 'Mapping and releasing a port, with a router that may fail at every call, leaves at the router what the reference leaves: the first external port that is free from the one asked for, and nothing once it is released.')
    S = 'spec.ports.'; W = 'nbc.node.'
    port = t.sym('port', 'int', 1, 65535); proto = t.sym('proto', 'str'); label = t.sym('label', 'str'); how = t.sym('how', 'int', 0, 6)
    near = lambda v, q: v.rng.choice((1, 80, 20303, 65530, 65533, 65534, 65535, v.rng.randrange(1, 65536)))
    g = dict(port=near, proto=lambda v, q: v.rng.choice(('TCP', 'UDP')), label=lambda v, q: v.rng.choice(('', 'node', 'a b')), first=near, second=near, third=near)
    for h in range(7):
        c.agree('mapped and released, %s' % ('all goes well', 'no router answers', 'no device', 'mapping refused', 'router lost while mapping', 'router lost while releasing', 'release refused')[h], S + 'maps', S + 'maps_spec', [K(h), port, proto, label], gens=g, first=True, where=W + 'add_portmap')
    three = [t.sym(n, 'int', 1, 60000) for n in ('first', 'second', 'third')]
    def distinct(I, a): return t.not_(t.eq(a[0], a[2]))
    def g3(v, q): return v.rng.choice((100, 101, 102, 103))
    c.agree('three mappings', S + 'maps_two', S + 'maps_two_spec', three, gens=dict(first=g3, second=g3, third=g3), pre=distinct, first=True, where=W + 'add_portmap')
    c.agree('released but never mapped', S + 'never', S + 'never_spec', [port, proto], gens=g, first=True, where=W + 'remove_portmap')
    c.agree('without a router', S + 'alone', S + 'alone_spec', [port, proto], gens=g, first=True, where=W + 'add_portmap')
    c.agree('a search that fails once', S + 'patient', S + 'patient_spec', [port, proto], gens=g, first=True, where=W + '_init_upnp')
    return c
