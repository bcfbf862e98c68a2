"""What a node logs of its messages, and that it does the same whether it logs or not (read by the analysis, never run)."""
from nbc.node import basenode
from nbc import protocol
from spec import conn, wire


class Talker(conn.Noting):
    """a node that notes that something was logged, and that it was a text"""

    def log(self, message, peer=None, level=0):
        if level >= basenode.BaseNode.LOG_LEVEL_ERROR:
            __emit__('seen', 'log')
        else:
            __emit__('seen', 'said', level, isinstance(message, str), message[:4])


def hears(level, command, payload):
    """a frame comes in at a log level"""
    __clock__(__sym__('start', 'int', 1000000000, 4000000000))
    n = Talker(data_dir='/d', address=('9.9.9.9', 7777), bootstrap=False)
    c = conn.a_link(n)
    n.link = c
    n.log_level = level
    before = c.verack
    c.feed = wire.frame(n.coin.magic, command, payload)
    c.handle_read()
    return (before, c.verack)


def hears_spec(level, command, payload):
    cls, name, fields = wire.MESSAGES[command]
    try:
        v = wire.read_message(command, payload)
    except ValueError:
        __emit__('seen', 'log')
        return (False, False)
    __emit__('seen', 'said', level, True, '<<< ')
    if command == 'version':
        __emit__('seen', 'connected', v[1], v[7], v[6], v[0], v[8], v[3][1 + 1])
    __emit__('seen', 'call', name, True, command == 'verack', list(v))
    return (False, command == 'verack')


def says(level, command, payload):
    """a message goes out at a log level"""
    __clock__(__sym__('start', 'int', 1000000000, 4000000000))
    n = Talker(data_dir='/d', address=('9.9.9.9', 7777), bootstrap=False)
    c = conn.a_link(n)
    n.log_level = level
    m = protocol.Message.parse(wire.frame(n.coin.magic, command, payload), n.coin.magic)
    c.send_message(m)
    c.room = 1000000000000
    c.handle_write()
    return c.writable()


def says_spec(level, command, payload):
    wire.read_message(command, payload)
    __emit__('seen', 'said', level, True, '>>> ')
    __emit__('seen', 'wire', __sym__('greeting', 'bytes') + __sym__('greeting', 'bytes'))
    return False


# ---- the signed payload of an alert

I4 = wire.I4
ALERT = [('version', I4), ('relay_until', wire.I8), ('expiration', wire.I8), ('id', I4), ('cancel', I4), ('set_cancel', wire.L(I4)), ('min_ver', I4), ('max_ver', I4),
         ('set_sub_ver', wire.L(wire.STR)), ('priority', I4), ('comment', wire.STR), ('status_bar', wire.STR), ('reserved', wire.STR)]


def ask(alert, name):
    """a field, or what is said of a payload that is no alert"""
    try:
        return (True, getattr(alert, name))
    except Exception:
        return (False, None)


def reads_alert(payload, names):
    a = protocol.Alert(payload, b'sig')
    return [ask(a, n) for n in names]


def reads_alert_spec(payload, names):
    try:
        v = wire.read_fields(ALERT, payload, 0)[1]
    except ValueError:
        return [(False, None) for n in names]
    keys = [k for k, kind in ALERT]
    return [(True, v[keys.index(n)]) for n in names]


def verifies(payload, signature, key):
    return protocol.Alert(payload, signature).verify(key)
