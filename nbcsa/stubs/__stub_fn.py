"""Functions of the standard library written out, for the analysis."""


def reduce(function, sequence, *first):
    rest = list(sequence)
    if len(first) > 0:
        value = first[0]
    else:
        if len(rest) == 0:
            raise TypeError('reduce() of empty iterable with no initial value')
        value = rest[0]
        rest = rest[1:]
    for x in rest:
        value = function(value, x)
    return value


def partition(s, sep):
    i = s.find(sep)
    if i < 0:
        return (s, s[:0], s[:0])
    return (s[:i], sep, s[i + len(sep):])


def removeprefix(s, p):
    if s.startswith(p):
        return s[len(p):]
    return s


def removesuffix(s, p):
    if len(p) > 0 and s.endswith(p):
        return s[:len(s) - len(p)]
    return s


def op_add(a, b): return a + b
def op_sub(a, b): return a - b
def op_mul(a, b): return a * b
def op_mod(a, b): return a % b
def op_floordiv(a, b): return a // b
def op_xor(a, b): return a ^ b
def op_and_(a, b): return a & b
def op_or_(a, b): return a | b
def op_lshift(a, b): return a << b
def op_rshift(a, b): return a >> b
def op_eq(a, b): return a == b
def op_ne(a, b): return a != b
def op_lt(a, b): return a < b
def op_le(a, b): return a <= b
def op_gt(a, b): return a > b
def op_ge(a, b): return a >= b
def op_not_(a): return not a
def op_neg(a): return -a
def op_getitem(a, i): return a[i]


def op_itemgetter(i):
    return lambda x: x[i]


def partial(f, *first, **named):
    return lambda *rest: f(*(first + rest), **named)


def chain(*xs):
    r = []
    for x in xs:
        r.extend(x)
    return r


def compare_digest(a, b): return a == b


def cache(function):
    return lru_cache()(function)


def lru_cache(maxsize=128, typed=False):
    if callable(maxsize):
        return lru_cache()(maxsize)

    def deco(function):
        known = {}

        def remembered(*args, **kw):
            key = (args, tuple(kw.items()))
            if key not in known:
                known[key] = function(*args, **kw)
            return known[key]
        return remembered
    return deco


def wraps(wrapped, assigned=None, updated=None):
    def deco(function):
        return function
    return deco
