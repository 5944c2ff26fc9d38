"""Linear order reasoning over monomials: a polyhedra-style domain used to
discard contradictory combinations of comparison outcomes (a<b, b<c, c<a)."""
from fractions import Fraction
from terms import *
import terms

LIMIT = 6000


def lin(t):
    """numeric term -> dict monomial -> coefficient (denominators kept as atoms)"""
    return terms.poly_of(t)


def combine(a, ca, b, cb):
    d = {}
    for m, c in a.items():
        d[m] = d.get(m, 0) + ca * c
    for m, c in b.items():
        d[m] = d.get(m, 0) + cb * c
    return {m: c for m, c in d.items() if c}


class Sys:
    """conjunction of p < 0, p <= 0, p = 0"""

    def __init__(s, eqs=(), les=()):
        s.eqs = list(eqs)       # solved: list of (mono, dict) meaning dict = 0 with coeff of mono 1
        s.les = list(les)       # (dict, strict)

    def reduce(s, d):
        for m, e in s.eqs:
            c = d.get(m)
            if c:
                d = combine(d, 1, e, -c)
        return d

    def add(s, d, rel):
        """new system or None when contradictory at once"""
        d = s.reduce(dict(d))
        nz = [m for m in d if m != ()]
        if not nz:
            c = d.get((), 0)
            good = c == 0 if rel == '=' else (c < 0 if rel == '<' else c <= 0)
            return s if good else None
        if rel == '=':
            m = min(nz)
            e = {k: v / d[m] for k, v in d.items()}
            n = Sys([(m2, combine(e2, 1, e, -e2.get(m, 0)) if e2.get(m) else e2) for m2, e2 in s.eqs] + [(m, e)])
            for d2, st in s.les:
                d3 = n.reduce(dict(d2))
                if not any(k != () for k in d3):
                    c = d3.get((), 0)
                    if not (c < 0 if st else c <= 0):
                        return None
                    continue
                n.les.append((d3, st))
            return n
        return Sys(s.eqs, s.les + [(d, rel == '<')])

    def feasible(s):
        cons = [(d, st) for d, st in s.les]
        # Fourier-Motzkin
        while True:
            vars_ = {}
            for d, st in cons:
                for m in d:
                    if m != ():
                        p, n = vars_.get(m, (0, 0))
                        vars_[m] = (p + 1, n) if d[m] > 0 else (p, n + 1)
            if not vars_:
                return True
            m = min(vars_, key=lambda k: vars_[k][0] * vars_[k][1])
            pos = [(d, st) for d, st in cons if d.get(m, 0) > 0]
            neg = [(d, st) for d, st in cons if d.get(m, 0) < 0]
            rest = [(d, st) for d, st in cons if not d.get(m)]
            seen = {(tuple(sorted(d.items())), st) for d, st in rest}
            for d1, s1 in pos:
                for d2, s2 in neg:
                    d = combine(d1, -d2[m], d2, d1[m])
                    st = s1 or s2
                    nz = [k for k in d if k != ()]
                    if not nz:
                        c = d.get((), 0)
                        if not (c < 0 if st else c <= 0):
                            return False
                        continue
                    k0 = min(nz)
                    f = abs(d[k0])
                    d = {k: v / f for k, v in d.items()}
                    key = (tuple(sorted(d.items())), st)
                    if key not in seen:
                        seen.add(key)
                        rest.append((d, st))
            cons = rest
            if len(cons) > LIMIT:
                raise TooBig('linear system')

    def implies_zero(s, d):
        d = s.reduce(dict(d))
        if not d:
            return True
        a = s.add(d, '<')
        b = s.add({m: -c for m, c in d.items()}, '<')
        return (a is None or not a.feasible()) and (b is None or not b.feasible())


def sign_constraint(sysm, atom, i, mult=()):
    """add outcome i of a sign atom; None = contradictory"""
    d = lin(atom.a[0])
    out = sysm
    for k in (None,) + tuple(mult):
        e = d
        if k is not None:
            e = lin(terms.pmul(atom.a[0], k))
        if i == 0:
            out = out.add(e, '<' if k is None else '<=')
        elif i == 1:
            out = out.add(e, '=')
        elif i == 2:
            out = out.add({m: -c for m, c in e.items()}, '<' if k is None else '<=')
        else:
            return out
        if out is None:
            return None
    return out if out.feasible() else None


def same_linear(a, b, base=(), mult=(), fast=None, budget=200000):
    """a and b agree on every feasible combination of comparison outcomes.
    base: [(Node or term, rel)] known facts p rel 0; mult: terms known >= 0"""
    s0 = Sys()
    for p, rel in base:
        t = p.leaf if hasattr(p, 'leaf') else p
        s0 = s0.add(lin(t), rel)
    cnt = [0]
    zc = {}
    if s0 is None or not s0.feasible():
        raise ValueError('contradictory preconditions')

    def go(x, y, sy):
        if y is BOT or x is BOT or x is y:
            return True
        if fast is not None and fast(x, y):
            return True
        cnt[0] += 1
        if cnt[0] > budget:
            raise TooBig('path comparison')
        if x.leaf is not None and y.leaf is not None:
            return leaf(x.leaf, y.leaf, sy)
        xa, ya = x.atom, y.atom
        top = xa if ya is None or (xa is not None and terms.atomkey(xa) <= terms.atomkey(ya)) else ya
        for i in range(len(outcomes(top))):
            s2 = sy
            if top.op in ('sgn', 'fsgn'):
                s2 = sign_constraint(sy, top, i, mult)
                if s2 is None:
                    continue
            cx, cy = cof(x, top, i), cof(y, top, i)
            if i == 1 and top.op in ('sgn', 'fsgn'):
                cx, cy = terms.subst_zero(cx, top.a[0], zc), terms.subst_zero(cy, top.a[0], zc)
            if not go(cx, cy, s2):
                return False
        return True

    def leaf(x, y, sy):
        if x is y:
            return True
        if x.op == 'S' and y.op == 'S':
            return x.a[0] == y.a[0] and x.a[1] == y.a[1] and len(x.a[3]) == len(y.a[3]) and all(ka == kb and go(va, vb, sy) for (ka, va), (kb, vb) in zip(x.a[3], y.a[3]))
        if x.op in ('bool', 'S', 'ref') or y.op in ('bool', 'S', 'ref'):
            return False
        try:
            d = lin(terms.padd(x, y, -1))
        except Exception:
            return False
        if not d:
            return True
        return sy.implies_zero(d)
    return go(a, b, s0)
