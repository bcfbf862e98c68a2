"""Reference definitions: random numbers (read by the analysis, never run)."""
import hashlib
import os
from spec.keys import number, N, num32
from spec.der import octet_count


class Source(object):
    """a generator the caller passes: its answers are its own"""

    def __init__(self):
        self.calls = 0

    def __call__(self, n):
        self.calls = self.calls + 1
        return __app__('urandom', 'bytes', n, 1000000 + self.calls)


def system(n):
    return os.urandom(n)


def draw(order, source):
    """an integer from 1 to order - 1: candidates outside are thrown away; at most 10000 are tried"""
    if order <= 1:
        raise ValueError()
    size = octet_count(order)
    left = 10000
    while left > 0:
        left = left - 1
        c = number(source(size)) + 1
        if c < order:
            return c
    raise RuntimeError()


def draw_system(order):
    return draw(order, system)


def sha(data):
    return hashlib.sha256(data).digest()


sha256 = hashlib.sha256
