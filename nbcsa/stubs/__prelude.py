# builtins as the analysis sees them


__missing__ = '$missing'


def sum(xs, start=0):
    acc = start
    for x in xs:
        acc = acc + x
    return acc


def any(xs):
    for x in xs:
        if x:
            return True
    return False


def all(xs):
    for x in xs:
        if not x:
            return False
    return True


def min(*xs, key=None, default=__missing__):
    if len(xs) == 1:
        xs = xs[0]
    first = True
    best = None
    for x in xs:
        if first:
            best = x
            first = False
        elif key is None and x < best or key is not None and key(x) < key(best):
            best = x
    if first:
        if default is not __missing__:
            return default
        raise ValueError()
    return best


def max(*xs, key=None, default=__missing__):
    if len(xs) == 1:
        xs = xs[0]
    first = True
    best = None
    for x in xs:
        if first:
            best = x
            first = False
        elif key is None and x > best or key is not None and key(x) > key(best):
            best = x
    if first:
        if default is not __missing__:
            return default
        raise ValueError()
    return best


def filter(f, xs):
    return [x for x in xs if (f(x) if f is not None else x)]
