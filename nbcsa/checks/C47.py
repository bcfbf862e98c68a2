"""what a node asks the network for at its start"""
from .. import terms as t, evalt
from ..terms import K
from ..check import Check

S = 'spec.learn.'; W = 'nbc.util.'
def py(name):
    return lambda I, f, a, kw: I.call(I.member(S + name), list(a), dict(kw))
def first(I, f, a, kw):
    s = I.seq_of(a[0])
    I.raise_if(t.eq(t.length(s), K(0)), 'IndexError')
    return t.seqget(s, K(0))
NET = {'threading.Lock.acquire': py('acquire'), 'threading.Lock.release': py('release'), 'threading.Thread.start': py('start'), 'threading.Thread.join': py('join'), 'time.time': py('clock'), 'time.monotonic': py('clock'), 'urllib.request.Request': py('Request'), 'urllib.request.urlopen': py('urlopen'),
       'socket.getaddrinfo': py('getaddrinfo'), 'json.loads': py('loads'), 'random.choice': first}

def build():
    c = Check('C47', 'Over threads that take any time and a network that may fail, what is known at each moment is what the reference says: the answers that have come, none of a source that failed, and no more after the return.')
    names = [K(n) for n in ('one', 'two', 'three')]
    slow = [t.sym('slow%d' % i, 'int', 0, 11) for i in range(3)]
    good = [t.sym('good%d' % i, 'bool') for i in range(3)]
    vals = [t.sym('height%d' % i, 'int') for i in range(3)]
    g = {}
    for n, lim in ((0, 5), (1, 5), (2, 5), (3, 7), (3, 0), (3, None)):
        a = [t.tup(x[:n]) for x in (names, slow, good, vals)] + [K(lim)]
        c.agree('heights of %d sources within %s' % (n, lim if lim is not None else 'the usual time'), S + 'heights', S + 'heights_spec', a, overrides=NET, spec_overrides={}, first=True, where=W + 'guess_block_height')
    host = [t.sym('host%d' % i, 'str') for i in range(3)]
    cases = [((), ())] + [((n,), (w,)) for n in (-1, 0, 1, 3) for w in (0, 2)]
    cases += [((1, 1), (0, 2)), ((2, 1), (2, 0)), ((-1, 2), (0, 0)), ((2, -1, 1), (0, 0, 2)), ((1, 2, 3), (2, 0, 0)), ((0, -1, 1), (0, 0, 0)), ((2, 2, 2), (2, 2, 2))]
    for n, w in cases:
        c.agree('addresses of seeds with %s answers after %s' % (n, w), S + 'seeds', S + 'seeds_spec', [t.tup([t.tup([h, K(x)]) for h, x in zip(host, n)]), K(w), K(1)], overrides=NET, spec_overrides={}, first=True,
                where=W + 'bootstrap.DNSSeeder')
    url = t.sym('url', 'str'); text = t.sym('text', 'bytes')
    digits = lambda v, q: v.rng.choice((b'', b'0', b'17', b' 123\n', b'-4', b'x', b'1.5', b'123456', b'12 3'))
    c.agree('number of a page', S + 'page', S + 'page_spec', [text, url], gens=dict(text=digits), overrides=NET, spec_overrides={}, first=True, where=W + 'fetch_url_int')
    c.agree('number of a page that can not be had', S + 'page', S + 'page_spec', [K(None), url], overrides=NET, spec_overrides={}, first=True, where=W + 'fetch_url_int')
    docs = dict(dict=('blocks', 'chain/0/height', 'chain/1/height', 'chain/2/height', 'chain/-1/height', 'chain/x', 'chain/0/name', 'text', 'text/y', 'text/0', 'none', 'none/a', 'missing', 'quoted', 'chain', '7/height', '7/0', '7', '', 'zero', 'blocks/0',
                      'list/0/1', 'list/1', 'list/1/0', 'list/-2/-1', 'true', '/blocks', 'chain//height'), list=('0', '1/height', '1/1', '2/0', '-1/0', 'height', '3', '', '2'), number=('', '0'), text=('', '0', 'word'), null=('', 'x'))
    for kind in docs:
        for path in docs[kind]:
            c.agree('field %r of a %s' % (path, kind), S + 'field', lambda I, a: I.call(I.member(S + 'field_spec'), [a[0], a[1], t.tup([K(p) for p in t.cv(a[2]).split('/')]), a[3]], {}),
                    [text, url, K(path), K(kind)], overrides=NET, spec_overrides={}, first=True, where=W + 'fetch_url_json_path_int')
    c.agree('field of a page that can not be had', S + 'field', lambda I, a: I.call(I.member(S + 'field_spec'), [a[0], a[1], t.tup([K('blocks')])], {}), [K(None), url, K('blocks')], overrides=NET, spec_overrides={}, first=True,
            where=W + 'fetch_url_json_path_int')
    return c
