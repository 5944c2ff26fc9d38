"""Equality of number terms by random interpretation (Gulwani and Necula,
POPL 2004): both value numbers are interpreted at random points of a region,
in arithmetic exact to 120 digits; terms that differ as functions on the region
agree at such points with probability 0.  Used where a normal form would be
too large.  Unknown operations are interpreted as random functions."""
import random
from decimal import Decimal, localcontext, getcontext
from terms import *
import terms

EPS = Decimal(10) ** -50


class Undefined(Exception):
    pass


class Point:
    """an assignment of the symbols"""

    def __init__(s, env, seed, flags=None):
        s.env, s.seed, s.flags = env, seed, flags
        s.cache = {}

    def term(s, t):
        r = s.cache.get(t.id)
        if r is None:
            r = s.cache[t.id] = s._term(t)
        return r

    def _term(s, t):
        if t.op == 'poly':
            out = Decimal(0)
            for m, c in t.a[0]:
                v = Decimal(c.numerator) / Decimal(c.denominator)
                for a, e in m:
                    x = s.term(terms._tlist[a])
                    if e < 0 and abs(x) < EPS:
                        raise Undefined('division by zero')
                    v *= x ** e
                out += v
            return out
        if t.op == 'sqrt':
            x = s.term(t.a[0])
            if x < -EPS:
                raise Undefined('root of a negative number')
            return x.sqrt() if x > 0 else Decimal(0)
        if t.op in ('sum', 'let'):
            return s.term(t.a[0])
        if t.op == 'div0':
            raise Undefined('division by zero')
        if t.op == 'sym' and t.a[0] in s.env:
            return Decimal(s.env[t.a[0]])
        return Decimal(s.rand(t).randint(-10 ** 9, 10 ** 9)) / 1000

    def key(s, x):
        if isinstance(x, terms.Term):
            if x.op in ('poly', 'sqrt', 'sum', 'let') or (x.op == 'sym' and x.a[0] in s.env):
                try:
                    v = s.term(x)
                    return '%.40e' % v if abs(v) > EPS else '0'
                except Undefined:
                    return 'undefined'
            return (x.op,) + tuple(s.key(a) for a in x.a)
        if isinstance(x, Node):
            n = s.node(x)
            return s.key(n.leaf)
        if isinstance(x, tuple):
            return tuple(s.key(a) for a in x)
        return str(x)

    def rand(s, t):
        return random.Random(repr((s.seed, s.key(t))))

    def sign(s, t):
        v = s.term(t)
        return 1 if abs(v) < EPS else (0 if v < 0 else 2)

    def node(s, n):
        """the leaf the decisions lead to"""
        while n.leaf is None:
            a = n.atom
            if a.op in ('sgn', 'fsgn'):
                n = n.ch[s.sign(a.a[0])]
            elif a.op == 'bv':
                n = n.ch[(s.flags(a.a[0]) if s.flags else s.rand(a.a[0]).randint(0, 1))]
            else:
                n = n.ch[s.rand(a).randint(0, len(n.ch) - 1)]
        return n

    def num(s, n):
        n = s.node(n)
        if n is BOT:
            raise Undefined('unreachable')
        return s.term(n.leaf)


def close(a, b):
    return abs(a - b) <= EPS * max(abs(a), abs(b), 1)


def rand_same(point, got, want):
    """both nodes have the same value at the point; None where want is undefined"""
    try:
        w = point.node(want)
        if w is BOT:
            return None
        wv = value(point, w)
    except Undefined:
        return None
    try:
        g = point.node(got)
        if g is BOT:
            return False
        gv = value(point, g)
    except Undefined:
        return False
    return same_value(gv, wv)


def value(p, n):
    t = n.leaf
    if t.op == 'S':
        return (t.a[0], t.a[1]) + tuple((k, value(p, p.node(v))) for k, v in t.a[3])
    if t.op in ('bool', 'ref', 'str'):
        return t
    return p.term(t)


def same_value(a, b):
    if isinstance(a, tuple) and isinstance(b, tuple):
        return len(a) == len(b) and all(same_value(x, y) if not isinstance(x, str) else x == y for x, y in zip(a, b))
    if isinstance(a, Decimal) and isinstance(b, Decimal):
        return close(a, b)
    return a is b
