"""Shared by the node and connection properties."""
from .. import terms as t, models
from ..terms import K
from ..compare import Obs

def seen(I, st, v):
    return [I.reify(v, st), models.events(I, 'seen', st)]
def with_seen(I, st, v): return [models.events(I, 'seen', st)]
TRACE = Obs(seen, on_raise=with_seen)
GREETING = t.sym('greeting', 'bytes')
def greeting(I, f, args, kw):
    """bytes of the messages of the package"""
    return GREETING
def bad_frame(I, f, args, kw):
    """a parser that notes what it was given and refuses it"""
    models.emit(I, 'seen', K('frame'), args[-2] if len(args) > 1 else args[-1])
    I.raise_(I.new_exc(I.member('nbc.protocol.messages.UnknownMsgError').a[0]))
def any_parser(I, f, args, kw):
    return I.call(I.member('spec.conn.parse_any'), list(args[-2:]), {})
