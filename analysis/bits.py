"""Exact reasoning about words of flag bits: a word is 32 boolean decisions."""
from rules import *
import terms
from fractions import Fraction

W = 32


def word(t):
    """the 32 bits (Nodes, lowest first) of the number term t"""
    c = terms.const_of(t)
    if c is not None:
        if c.denominator != 1 or c < 0:
            raise Unsupported('word %s' % c)
        return [TRUE if int(c) >> i & 1 else FALSE for i in range(W)]
    if t.op == 'bit':
        o = t.a[0]
        if o in ('BitAnd', 'BitOr', 'BitXor'):
            acc = None
            for x in t.a[2:]:
                w = word(x)
                acc = w if acc is None else [{'BitAnd': n_and, 'BitOr': n_or, 'BitXor': n_xor}[o](a, b) for a, b in zip(acc, w)]
            return acc
        if o in ('Shl', 'Shr', 'ShlUnchecked', 'ShrUnchecked'):
            k = terms.const_of(t.a[3])
            if k is None or not 0 <= k < W:
                raise Unsupported('shift by %s' % show(t.a[3])[:80])
            k, w = int(k), word(t.a[2])
            return [FALSE] * k + w[:W - k] if o.startswith('Shl') else w[k:] + [FALSE] * k
    if t.op in ('sym', 'f', 'idx', 'v', 'mu'):
        return [bool_of(T('bitof', t, i)) for i in range(W)]
    if t.op == 'poly' and len(t.a[0]) == 1:
        # a single unknown times a power of two: a shift
        m, c = t.a[0][0]
        if len(m) == 1 and m[0][1] == 1 and c.denominator == 1 and c > 0 and bin(c).count('1') == 1:
            k = int(c).bit_length() - 1
            return [FALSE] * k + word(terms._tlist[m[0][0]])[:W - k]
    raise Unsupported('word %s' % show(t)[:120])


def split(p):
    """(word term, coefficient, constant) of a linear expression in one word"""
    c0, rest = Fraction(0), []
    for m, c in p.a[0]:
        if not m:
            c0 = c
        elif len(m) == 1 and m[0][1] == 1:
            rest.append((terms._tlist[m[0][0]], c))
        else:
            return None
    return (rest[0][0], rest[0][1], c0) if len(rest) == 1 else None


def is_word(t):
    return t.op == 'bit' or unknown_word(t)


unknown_word = lambda t: False       # a check declares the unknown words


def nothing(bits):
    """all bits are 0"""
    return L(T('allzero', tuple(b.id for b in bits if b is not FALSE)))


def signs(p):
    """(less, equal, greater than 0) of a linear expression in one word"""
    if p.op != 'poly':
        ws, c, c0 = p, Fraction(1), Fraction(0)
    else:
        x = split(p)
        if x is None:
            return None
        ws, c, c0 = x
    if not is_word(ws):
        return None
    k = -c0 / c
    bits = word(ws)
    if any(b.leaf is None for b in bits):
        # bits that combine several unknown ones: only "is it zero" is asked,
        # and that is one unknown decision per word
        if k != 0:
            return None
        eq = nothing(bits)
        return (FALSE, eq, n_not(eq)) if c > 0 else (n_not(eq), eq, FALSE)
    lt, eq = FALSE, TRUE           # word < k, word == k
    if k < 0:
        lt, eq = FALSE, FALSE
    else:
        fl = int(k)
        exact = k == fl
        if fl >= 1 << W:
            lt, eq = TRUE, FALSE
        else:
            for i in reversed(range(W)):
                b = bits[i]
                if fl >> i & 1:
                    lt = n_or(lt, n_and(eq, n_not(b)))
                    eq = n_and(eq, b)
                else:
                    eq = n_and(eq, n_not(b))
            if not exact:
                lt, eq = n_or(lt, eq), FALSE
    gt = n_not(n_or(lt, eq))
    return (lt, eq, gt) if c > 0 else (gt, eq, lt)


def blast(n, cache=None):
    """decisions on words as decisions on their bits"""
    cache = {} if cache is None else cache
    r = cache.get(n.id)
    if r is not None:
        return r
    if n.leaf is not None:
        t = n.leaf
        if t.op == 'S':
            r = L(T('S', t.a[0], t.a[1], t.a[2], tuple((k, blast(v, cache)) for k, v in t.a[3])))
        else:
            r = n
    else:
        ch = [blast(c, cache) for c in n.ch]
        sg = signs(n.atom.a[0]) if n.atom.op == 'sgn' else None
        if sg:
            r = ite(sg[0], ch[0], ite(sg[1], ch[1], ch[2]))
        else:
            r = case(n.atom, ch)
    cache[n.id] = r
    return r


def bit_of(n, i):
    """bit i of the word-valued Node n"""
    return bind(n, lambda t: word(t)[i])
