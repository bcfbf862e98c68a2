"""Reference definitions: the group of a curve (read by the analysis, never run).

A point is None (the identity) or a pair."""


def on_curve(p, a, b, x, y):
    return (y * y - (x * x * x + a * x + b)) % p == 0


def point(p, a, b, x, y):
    if not on_curve(p, a, b, x, y):
        raise ValueError()
    return (x, y)


def double(p, a, P):
    if P is None:
        return None
    x, y = P
    if 2 * y % p == 0:
        return None
    l = (3 * x * x + a) * __inv__(2 * y, p) % p
    u = (l * l - 2 * x) % p
    return (u, (l * (x - u) - y) % p)


def add(p, a, P, Q):
    if P is None:
        return Q
    if Q is None:
        return P
    if (P[0] - Q[0]) % p == 0:
        if (P[1] + Q[1]) % p == 0:
            return None
        return double(p, a, P)
    l = (Q[1] - P[1]) * __inv__(Q[0] - P[0], p) % p
    u = (l * l - P[0] - Q[0]) % p
    return (u, (l * (P[0] - u) - P[1]) % p)


def shown(p, P):
    """comparable form"""
    if P is None:
        return 'identity'
    return (P[0] % p, P[1] % p)
