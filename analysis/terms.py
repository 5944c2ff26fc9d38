"""Value-number domain: hash-consed terms, exact rational-function normal forms
for arithmetic, and ordered multi-valued decision diagrams (gated phi nodes).

A *value* is a Node: either a leaf holding a term, or a decision node on an
atomic condition with one child per outcome.  Both are hash-consed and the
decision atoms are totally ordered, so two values are the same function of the
inputs (modulo uninterpreted operations) iff they are the same object.
"""
from fractions import Fraction
import sys
sys.setrecursionlimit(100000)

# ----------------------------------------------------------------- terms
class Term:
    __slots__ = ('op', 'a', 'id', '_s')
    def __repr__(self):
        return show(self)

_terms = {}
_tlist = []

def T(op, *a):
    k = (op,) + a
    t = _terms.get(k)
    if t is None:
        t = Term()
        t.op = op
        t.a = a
        t.id = len(_tlist)
        t._s = None
        _terms[k] = t
        _tlist.append(t)
    return t

# ------------------------------------------------------- polynomials
# poly term: T('poly', items) where items = tuple(sorted((mono, coeff)))
# mono = tuple(sorted((atom_id, exp)))   exp may be negative for 'inv'-free
def _pkey(d):
    return tuple(sorted(d.items()))

def poly_of(t):
    """dict mono->Fraction for numeric term t"""
    if t.op == 'poly':
        return dict(t.a[0])
    return {((t.id, 1),): Fraction(1)}

def poly_term(d):
    d = {m: c for m, c in d.items() if c != 0}
    if len(d) == 1:
        (m, c), = d.items()
        if c == 1 and len(m) == 1 and m[0][1] == 1:
            return _tlist[m[0][0]]
    return T('poly', _pkey(d))

def num(c):
    c = Fraction(c)
    return T('poly', (((), c),) if c != 0 else ())

ZERO = num(0)
ONE = num(1)

def const_of(t):
    if t.op == 'poly':
        it = t.a[0]
        if not it:
            return Fraction(0)
        if len(it) == 1 and it[0][0] == ():
            return it[0][1]
    return None

def padd(a, b, s=1):
    d = poly_of(a)
    for m, c in poly_of(b).items():
        d[m] = d.get(m, 0) + s * c
    return poly_term(d)

def _mono_mul(m1, m2):
    d = dict(m1)
    for a, e in m2:
        d[a] = d.get(a, 0) + e
    return tuple(sorted((a, e) for a, e in d.items() if e))

MAXPOLY = 60000
class TooBig(Exception):
    pass

def _mul_raw(da, db):
    d = {}
    if len(da) * len(db) > MAXPOLY * 20:
        raise TooBig()
    for m1, c1 in da.items():
        for m2, c2 in db.items():
            m = _mono_mul(m1, m2)
            d[m] = d.get(m, 0) + c1 * c2
    return {m: c for m, c in d.items() if c}

def _reduce(d):
    """rewrite sqrt(p)^2 -> p and x*inv(x) handled by negative exponents:
    inv(p) for a single atom p is represented as exponent -1; inv of a real
    polynomial is an atom."""
    again = True
    while again:
        again = False
        for m in list(d):
            for a, e in m:
                t = _tlist[a]
                if t.op == 'sqrt' and (e >= 2 or e <= -2):
                    c = d.pop(m)
                    rest = tuple((x, y) for x, y in m if x != a)
                    k = int(e / 2) if e > 0 else -int(-e / 2)
                    r = e - 2 * k
                    if r:
                        rest = tuple(sorted(rest + ((a, r),)))
                    p = ppow(t.a[0], k)
                    for m2, c2 in _mul_raw({rest: c}, poly_of(p)).items():
                        d[m2] = d.get(m2, 0) + c2
                    d = {x: y for x, y in d.items() if y}
                    again = True
                    break
                if t.op == 'sum' and e > 0:
                    # 'sum' atoms only exist to carry inverses of polynomials
                    c = d.pop(m)
                    rest = tuple((x, y) for x, y in m if x != a)
                    p = ppow(t.a[0], e)
                    for m2, c2 in _mul_raw({rest: c}, poly_of(p)).items():
                        d[m2] = d.get(m2, 0) + c2
                    d = {x: y for x, y in d.items() if y}
                    again = True
                    break
            if again:
                break
    return d

LET = None      # products with more terms are taken of named operands


def _named(t):
    if t.op == 'poly' and len(t.a[0]) > 1:
        c, d = lead_norm(dict(t.a[0]))
        return poly_term({((T('let', poly_term(d)).id, 1),): c})
    return t


def pmul(a, b):
    if LET and a.op == 'poly' and b.op == 'poly' and len(a.a[0]) * len(b.a[0]) > LET and min(len(a.a[0]), len(b.a[0])) > 1:
        a, b = _named(a), _named(b)
    d = _mul_raw(poly_of(a), poly_of(b))
    return poly_term(_reduce(d))

def ppow(a, k):
    if k < 0:
        return pinv(ppow(a, -k))
    r = ONE
    for _ in range(k):
        r = pmul(r, a)
    return r

def lead_norm(d):
    """(scale, dict) with d = scale * dict and dict having leading coeff 1"""
    m = min(d, key=lambda m: (m,))
    c = d[m]
    return c, {k: v / c for k, v in d.items()}

def pinv(a):
    d = poly_of(a)
    if not d:
        return T('div0')
    if len(d) == 1:
        (m, c), = d.items()
        return poly_term(_reduce({tuple(sorted((x, -e) for x, e in m)): 1 / c}))
    # factor out common monomial content (including inverse powers)
    common = None
    for m in d:
        mm = dict(m)
        if common is None:
            common = dict(mm)
        else:
            for x in list(common):
                common[x] = min(common[x], mm.get(x, 0))
            for x, e in mm.items():
                if x not in common and e < 0:
                    common[x] = e
    # also negative exps present in some monos only
    for m in d:
        mm = dict(m)
        for x in list(common):
            common[x] = min(common[x], mm.get(x, 0))
    common = {x: e for x, e in common.items() if e}
    if common:
        inv = tuple(sorted((x, -e) for x, e in common.items()))
        d = {_mono_mul(m, inv): c for m, c in d.items()}
        return poly_term(_reduce(_mul_raw({inv: Fraction(1)}, poly_of(pinv(poly_term(d))))))
    c, dn = lead_norm(d)
    atom = T('sum', T('poly', _pkey(dn)))
    return poly_term({((atom.id, -1),): 1 / c})

def pdiv(a, b):
    return pmul(a, pinv(b))

def psqrt(a):
    c = const_of(a)
    if c is not None and c >= 0:
        import math
        n, dd = math.isqrt(c.numerator), math.isqrt(c.denominator)
        if n * n == c.numerator and dd * dd == c.denominator:
            return num(Fraction(n, dd))
    return T('sqrt', a)

def normal_fraction(t):
    """numerator, denominator polynomials (dicts) after clearing inverses"""
    d = poly_of(t)
    den = {}
    for m in d:
        for a, e in m:
            if e < 0:
                den[a] = max(den.get(a, 0), -e)
    dm = tuple(sorted(den.items()))
    n = {}
    for m, c in d.items():
        for m2, c2 in _reduce({_mono_mul(m, dm): c}).items():
            n[m2] = n.get(m2, 0) + c2
    n = {m: c for m, c in n.items() if c}
    return poly_term(n), poly_term({dm: Fraction(1)})

def _divided(n, d):
    """n / d when polynomial d divides n, None otherwise"""
    def order(m):
        return sorted(((a, e) for a, e in m), reverse=True)
    if any(e < 0 for m in d for _, e in m) or any(e < 0 for m in n for _, e in m):
        return None
    lead = max(d, key=order)
    q, left = {}, dict(n)
    while left:
        m = max(left, key=order)
        ee = dict(m)
        for a, e in lead:
            ee[a] = ee.get(a, 0) - e
        if any(e < 0 for e in ee.values()):
            return None
        k = tuple(sorted((a, e) for a, e in ee.items() if e))
        c = left[m] / d[lead]
        q[k] = q.get(k, 0) + c
        for m2, c2 in d.items():
            m3 = _mono_mul(k, m2)
            v = left.get(m3, 0) - c * c2
            if v:
                left[m3] = v
            else:
                left.pop(m3, None)
        if len(q) > 2000:
            return None
    return q

def one_fraction(d):
    """polynomial d with its quotients brought to one denominator and cancelled"""
    sums = set(a for m in d for a, e in m if e < 0 and _tlist[a].op == 'sum')
    if not sums or len(d) > 60:
        return d
    n, dm = normal_fraction(poly_term(d))
    n, ((dm, _),) = poly_of(n), poly_of(dm).items()
    if len(n) > 400:
        return d
    den = dict(dm)
    for a in sums:
        by = poly_of(_tlist[a].a[0])
        while den.get(a, 0) > 0:
            q = _divided(n, by)
            if q is None:
                break
            n = q
            den[a] -= 1
    inv = tuple(sorted((a, -e) for a, e in den.items() if e))
    return _reduce({_mono_mul(m, inv): c for m, c in n.items()})

def is_zero_num(t):
    n, _ = normal_fraction(t)
    return n is ZERO

# ------------------------------------------------------------- nodes (MDD)
class Node:
    __slots__ = ('atom', 'ch', 'id', 'leaf')
    def __repr__(self):
        return shown(self)

_nodes = {}
_nlist = []

def _mkraw(atom, ch, leaf):
    k = (atom.id if atom is not None else -1, tuple(c.id for c in ch) if ch else (), leaf.id if leaf is not None else -1)
    n = _nodes.get(k)
    if n is None:
        n = Node()
        n.atom = atom
        n.ch = ch
        n.leaf = leaf
        n.id = len(_nlist)
        _nodes[k] = n
        _nlist.append(n)
    return n

def L(t):
    return _mkraw(None, (), t)

BOT = L(T('bot'))        # don't care / unreachable
TRUE = L(T('bool', 1))
FALSE = L(T('bool', 0))

def B(b):
    return TRUE if b else FALSE

# struct term: T('S', adt, variant, is_enum, ((fieldname, Node), ...)) -- Node objects hashed by identity
def S(adt, variant, is_enum, fields):
    return T('S', adt, variant, is_enum, tuple(fields))

def is_struct_leaf(n):
    return n.leaf is not None and n.leaf.op == 'S' and not n.leaf.a[2]

def is_purenode(n):
    """no decision nodes nested inside"""
    if n.leaf is None:
        return False
    return _pure_term(n.leaf)

_purec = {}
def _pure_term(t):
    if t.op != 'S':
        return True
    r = _purec.get(t.id)
    if r is None:
        r = all(is_purenode(v) for _, v in t.a[3])
        _purec[t.id] = r
    return r

# number of outcomes per atom; outcome labels
def outcomes(atom):
    if atom.op == 'sgn':
        return ('<', '=', '>')
    if atom.op == 'fsgn':
        return ('<', '=', '>', 'u')
    if atom.op == 'disc':
        return atom.a[1]
    return (False, True)

def atomkey(atom):
    return atom.id

_mkcache = {}
def mk(atom, ch):
    """ordered node: all atoms in ch are larger than atom"""
    k = (atom.id, tuple(c.id for c in ch))
    r = _mkcache.get(k)
    if r is None:
        r = _mk(atom, ch)
        _mkcache[k] = r
    return r

def _mk(atom, ch):
    ch = list(ch)
    # sign atoms: in the '=' branch identify equal numeric leaves
    if atom.op in ('sgn', 'fsgn'):
        p = atom.a[0]
        eq, lt, gt = ch[1], ch[0], ch[2]
        if eq.leaf is not None and eq is not BOT and not (eq is lt and eq is gt):
            e = eq.leaf
            for cand in sorted([x for x in (lt, gt) if x.leaf is not None], key=lambda n: n.id):
                c = cand.leaf
                if c is e or e.op == 'S' or c.op == 'S' or e.op in ('bool', 'ref', 'bot') or c.op in ('bool', 'ref', 'bot'):
                    continue
                if _proportional(padd(e, c, -1), p):
                    if cand.id < eq.id or lt is gt:
                        ch[1] = cand
                    else:
                        # prefer the smaller id leaf among proportional ones
                        ch[1] = cand if cand.id < ch[1].id else ch[1]
                    break
    live = [c for c in ch if c is not BOT]
    if not live:
        return BOT
    if all(c is live[0] for c in live):
        return live[0]
    # struct leaves are kept field-wise
    if any(is_struct_leaf(c) for c in live):
        proto = next(c.leaf for c in live if is_struct_leaf(c))
        adt, var, _, fl = proto.a
        ok = True
        for c in live:
            if is_struct_leaf(c) and (c.leaf.a[0] != adt or len(c.leaf.a[3]) != len(fl)):
                ok = False
            if adt == 'array' and not is_struct_leaf(c):
                ok = False      # elements of other array values are idx terms
        if ok:
            nf = []
            for (fname, _) in fl:
                nf.append((fname, case(atom, [BOT if c is BOT else getf(c, fname) for c in ch])))
            return L(S(adt, var, False, nf))
    if atom.op == 'bv' and ch[0] is FALSE and ch[1] is TRUE:
        return L(atom.a[0])
    # eta for enum: ite(disc(t)=V_i, V_i(payload of t)...) = t
    if atom.op == 'disc':
        t = atom.a[0]
        vs = atom.a[1]
        good = True
        for v, c in zip(vs, ch):
            if c is BOT:
                continue
            if c.leaf is None or not (c.leaf is t or (c.leaf.op == 'S' and c.leaf.a[1] == v and c.leaf.a[2] and len(c.leaf.a[3]) == 0)):
                good = False
        if good and any(c is not BOT and c.leaf is t for c in ch) and not any(c is BOT for c in ch):
            return L(t)
    # generic don't care: if a child is BOT keep BOT (only dropped when all others agree)
    return _mkraw(atom, tuple(ch), None)

def _proportional(a, b):
    da, db = poly_of(a), poly_of(b)
    if not da:
        return True
    if set(da) != set(db):
        return False
    m = next(iter(da))
    r = da[m] / db[m]
    return all(da[x] == r * db[x] for x in da)

def solve_linear(b):
    """(v, dict) with v the newest term that b = 0 determines linearly"""
    db = poly_of(b)
    if len(db) > 12:
        return None
    best = None
    for m, c in db.items():
        if len(m) != 1 or m[0][1] != 1:
            continue
        v = m[0][0]
        if any(x is not m and any(k == v for k, _ in x) for x in db):
            continue
        if best is None or v > best[0]:
            best = (v, {x: -cc / c for x, cc in db.items() if x is not m})
    return best


def subst_lin(t, v, sub, cache):
    """numeric term t with the term numbered v replaced, also inside the
    arguments of roots and inverses"""
    r = cache.get(t.id)
    if r is not None:
        return r
    r = t
    if t.op == 'poly' or t.id == v:
        da = poly_of(t)
        out = num(0)
        ch = False
        for x, cc in da.items():
            f = num(cc)
            for k, e in x:
                if k == v:
                    u, ch = poly_term(sub), True
                else:
                    u = subst_lin(_tlist[k], v, sub, cache)
                    ch = ch or u is not _tlist[k]
                f = pmul(f, ppow(u, e)) if e > 0 else pmul(f, pinv(ppow(u, -e)))
            out = padd(out, f)
        r = out if ch else t
    elif t.op in ('sqrt', 'sum'):
        a = subst_lin(t.a[0], v, sub, cache)
        if a is not t.a[0]:
            r = psqrt(a) if t.op == 'sqrt' else a
    cache[t.id] = r
    return r


def subst_zero(n, p, cache):
    """decision diagram n specialised to p = 0"""
    key = ('solve', p.id)
    if key not in cache:
        cache[key] = (solve_linear(p), {}, {})
    sv, tc, nc = cache[key]
    if sv is None:
        return n
    v, sub = sv

    def go(n):
        r = nc.get(n.id)
        if r is not None:
            return r
        if n.leaf is not None:
            t = n.leaf
            if t.op == 'S':
                r = L(T('S', t.a[0], t.a[1], t.a[2], tuple((k, go(x)) for k, x in t.a[3])))
            else:
                r = L(subst_lin(t, v, sub, tc))
        else:
            ch = [go(c) for c in n.ch]
            a = n.atom
            if a.op in ('sgn', 'fsgn'):
                q = subst_lin(a.a[0], v, sub, tc)
                r = case(a, ch) if q is a.a[0] else sign_leaf(q, a.op == 'fsgn', *(ch + [BOT])[:4])
            else:
                r = case(a, ch)
        nc[n.id] = r
        return r
    return go(n)


_casecache = {}
def case(atom, ch):
    """general (re-ordering) decision on atom"""
    ch = [c for c in ch]
    if all(c is ch[0] for c in ch):
        return ch[0]
    k = (atom.id, tuple(c.id for c in ch))
    r = _casecache.get(k)
    if r is not None:
        return r
    top = None
    for c in ch:
        at = c.atom or _leafatom(c)
        if at is not None and (top is None or atomkey(at) < atomkey(top)):
            top = at
    if top is None or atomkey(atom) <= atomkey(top):
        r = mk(atom, [cof(c, atom, i) for i, c in enumerate(ch)])
    else:
        n = len(outcomes(top))
        r = mk(top, [case(atom, [cof(c, top, j) for c in ch]) for j in range(n)])
    _casecache[k] = r
    return r

def cof(n, atom, i):
    if n.atom is atom:
        return n.ch[i]
    if n.leaf is not None and atom.op == 'bv' and n.leaf is atom.a[0]:
        return TRUE if i else FALSE
    if n.leaf is not None and n.leaf.op == 'S' and not _pure_term(n.leaf):
        t = n.leaf
        return L(S(t.a[0], t.a[1], t.a[2], [(k, restrict(v, atom, i)) for k, v in t.a[3]]))
    return n

def _leafatom(n):
    """a boolean leaf that is used as a condition elsewhere is a decision"""
    if n.leaf is not None and n.leaf.op != 'S':
        return _terms.get(('bv', n.leaf))
    return None

_rc = {}
def restrict(n, atom, i):
    """cofactor anywhere below"""
    if n.leaf is not None:
        return cof(n, atom, i)
    if atomkey(n.atom) > atomkey(atom) and not _has_inner(n):
        return n
    k = (n.id, atom.id, i)
    r = _rc.get(k)
    if r is None:
        if n.atom is atom:
            r = restrict(n.ch[i], atom, i)
        else:
            r = case(n.atom, [restrict(c, atom, i) for c in n.ch])
        _rc[k] = r
    return r

_innerc = {}
def _has_inner(n):
    """a struct leaf with decision nodes inside lies below n"""
    r = _innerc.get(n.id)
    if r is None:
        if n.leaf is not None:
            r = not is_purenode(n)
        else:
            r = any(_has_inner(c) for c in n.ch)
        _innerc[n.id] = r
    return r

def ite(c, a, b):
    """c: boolean Node"""
    if c is TRUE:
        return a
    if c is FALSE:
        return b
    if c is BOT:
        return BOT
    if a is b:
        return a
    return _ite(c, a, b)

_itec = {}
def _ite(c, a, b):
    if c.leaf is not None:
        if c is TRUE:
            return a
        if c is FALSE:
            return b
        if c is BOT:
            return BOT
        return case(T('bv', c.leaf), [b, a])
    if a is b:
        return a
    k = (c.id, a.id, b.id)
    r = _itec.get(k)
    if r is None:
        at = c.atom
        top = at
        for x in (a, b):
            xa = x.atom or _leafatom(x)
            if xa is not None and atomkey(xa) < atomkey(top):
                top = xa
        n = len(outcomes(top))
        r = mk(top, [_ite(cof(c, top, j), cof(a, top, j), cof(b, top, j)) for j in range(n)])
        _itec[k] = r
    return r

def bind(n, f, cache=None):
    """map every leaf term through f (term -> Node)"""
    if cache is None:
        cache = {}
    r = cache.get(n.id)
    if r is not None:
        return r
    if n.leaf is not None:
        r = BOT if n is BOT else f(n.leaf)
    else:
        r = case(n.atom, [bind(c, f, cache) for c in n.ch])
    cache[n.id] = r
    return r

def purify(n):
    """lift all nested decisions out of struct leaves"""
    if n.leaf is not None:
        if is_purenode(n):
            return n
        t = n.leaf
        fs = [(k, purify(v)) for k, v in t.a[3]]
        def mkp(*ts):
            s = T('S', t.a[0], t.a[1], t.a[2], tuple((k, L(unpk(x))) for (k, _), x in zip(fs, ts)))
            return L(s if t.a[2] else T('pk', s))
        return bindn([v for _, v in fs], mkp)
    return bind(n, lambda t: purify(L(t)))

def unpk(t):
    return t.a[0] if t.op == 'pk' else t

def bindn(ns, f, _c=None):
    """n-ary map over leaves"""
    if _c is None:
        _c = {}
    k = tuple(n.id for n in ns)
    r = _c.get(k)
    if r is not None:
        return r
    if any(n is BOT for n in ns):
        r = BOT
    else:
        top = None
        for n in ns:
            if n.atom is not None and (top is None or atomkey(n.atom) < atomkey(top)):
                top = n.atom
        if top is None:
            r = f(*[n.leaf for n in ns])
        else:
            cnt = len(outcomes(top))
            r = case(top, [bindn([cof(n, top, j) for n in ns], f, _c) for j in range(cnt)])
    _c[k] = r
    return r

def enum(adt, variant, fields):
    """enum value; decisions inside the payload are lifted to the top"""
    fs = [(k, purify(v)) for k, v in fields]
    if any(v is BOT for _, v in fs):
        return BOT
    def mkit(*ts):
        ts = [unpk(x) for x in ts]
        fields2 = tuple((k, L(x)) for (k, _), x in zip(fs, ts))
        # eta: V(payload of t under V) == t
        if fields2:
            f0 = fields2[0][1].leaf
            if f0.op == 'v' and f0.a[1] == variant:
                t = f0.a[0]
                if all(x.leaf is T('v', t, variant, k) for k, x in fields2):
                    return L(t)
        return L(T('S', adt, variant, True, fields2))
    return bindn([v for _, v in fs], mkit)

def struct(adt, fields):
    fields = tuple(fields)
    if fields:
        v0 = fields[0][1]
        if v0.leaf is not None and v0.leaf.op == 'f':
            base = v0.leaf.a[0]
            if all(v.leaf is T('f', base, k) for k, v in fields) and base.op != 'poly':
                if T('nfields', adt, len(fields)) in _complete:
                    return L(base)
    return L(T('S', adt, '', False, fields))

_complete = set()
def declare_fields(adt, n):
    _complete.add(T('nfields', adt, n))

def getf(n, name):
    """field of a struct value"""
    def f(t):
        if t.op == 'S':
            for k, v in t.a[3]:
                if k == name:
                    return v
            return L(T('badfield', t, name))
        if t.op == 'upf':      # symbolic struct with one field replaced
            if t.a[1] == name:
                return t.a[2]
            return getf(L(t.a[0]), name)
        if t.op == 'undef':
            return BOT
        return L(T('f', t, name))
    return bind(n, f)

def setf(n, name, val):
    def f(t):
        if t.op == 'S':
            return L(T('S', t.a[0], t.a[1], t.a[2], tuple((k, val if k == name else v) for k, v in t.a[3])))
        # normalise: chain of upf sorted by field name
        chain = {}
        b = t
        while b.op == 'upf':
            chain.setdefault(b.a[1], b.a[2])
            b = b.a[0]
        chain[name] = val
        for k in sorted(chain, reverse=True):
            v = chain[k]
            if v.leaf is not None and v.leaf is T('f', b, k):
                continue
            b = T('upf', b, k, v)
        return L(b)
    if n.leaf is not None:
        return f(n.leaf) if n is not BOT else BOT
    return bind(n, f)

def getv(n, variant, name):
    """payload field of enum variant (undefined for other variants)"""
    def f(t):
        if t.op == 'S':
            if t.a[1] != variant:
                return BOT
            for k, v in t.a[3]:
                if k == name:
                    return v
            return L(T('badfield', t, name))
        if t.op == 'undef':
            return BOT
        return L(T('v', t, variant, name))
    return bind(n, f)

def disc(n, variants):
    """Node over leaves T('tag', V)"""
    def f(t):
        if t.op == 'S':
            return L(T('tag', t.a[1]))
        if t.op == 'undef':
            return BOT
        return mk(T('disc', t, tuple(variants)), [L(T('tag', v)) for v in variants])
    return bind(n, f)

def is_variant(n, variants, v):
    return bind(disc(n, variants), lambda t: B(t.a[0] == v))

# --------------------------------------------------------------- arithmetic
def n_add(a, b): return bindn([a, b], lambda x, y: L(padd(x, y)))
def n_sub(a, b): return bindn([a, b], lambda x, y: L(padd(x, y, -1)))
def n_mul(a, b): return bindn([a, b], lambda x, y: L(pmul(x, y)))
def n_div(a, b): return bindn([a, b], lambda x, y: L(pdiv(x, y)))
def n_neg(a): return bind(a, lambda x: L(padd(ZERO, x, -1)))
def n_sqrt(a): return bind(a, lambda x: L(psqrt(x)))
def n_num(c): return L(num(c))

def n_sign(x, isf, lt, eq, gt, un=None):
    """decision on the sign of numeric Node x"""
    def f(t):
        return sign_leaf(t, isf, lt, eq, gt, un)
    return bind(x, f)

def sign_leaf(t, isf, lt, eq, gt, un):
    c = const_of(t)
    if c is not None:
        return lt if c < 0 else (gt if c > 0 else eq)
    d = one_fraction(poly_of(t))
    if not d:
        return eq
    c, dn = lead_norm(d)
    p = poly_term(dn)
    if c < 0:
        lt, gt = gt, lt
    if isf:
        return case(T('fsgn', p), [lt, eq, gt, un])
    return case(T('sgn', p), [lt, eq, gt])

def n_cmp(op, a, b, isf):
    d = n_sub(a, b)
    tab = {'lt': (1, 0, 0, 0), 'le': (1, 1, 0, 0), 'gt': (0, 0, 1, 0), 'ge': (0, 1, 1, 0), 'eq': (0, 1, 0, 0), 'ne': (1, 0, 1, 1)}[op]
    return n_sign(d, isf, *[B(x) for x in tab])

def n_not(a): return ite(a, FALSE, TRUE)
def _reg(b):
    if b.leaf is not None and b.leaf.op not in ('bool', 'bot', 'S'):
        T('bv', b.leaf)

def n_and(a, b):
    _reg(a), _reg(b)
    return ite(a, b, FALSE)
def n_or(a, b):
    _reg(a), _reg(b)
    return ite(a, TRUE, b)
def n_xor(a, b):
    _reg(a), _reg(b)
    return ite(a, ite(b, FALSE, TRUE), b)

def bool_of(t):
    """boolean Node for an uninterpreted boolean term"""
    if t.op == 'bool':
        return B(t.a[0])
    return L(t)

def op(name, *args):
    """uninterpreted operation on Nodes; lifted over decisions"""
    args = [purify(a) for a in args]
    return bindn(args, lambda *ts: L(T(name, *[unpk(x) for x in ts])))

# --------------------------------------------------------------- printing
def fr(c):
    return str(c.numerator) if c.denominator == 1 else f'{c.numerator}/{c.denominator}'

def show(t, depth=0):
    if t._s is None:
        t._s = _show(t)
    return t._s

def _show(t):
    if t.op == 'poly':
        if not t.a[0]:
            return '0'
        out = []
        for m, c in t.a[0]:
            fs = [show(_tlist[a]) + (f'^{e}' if e != 1 else '') for a, e in m]
            if c != 1 or not fs:
                fs = [fr(c)] + fs
            out.append('*'.join(fs))
        return '(' + ' + '.join(out) + ')' if len(out) > 1 else out[0]
    if t.op == 'S':
        name = str(t.a[0]).split('::')[-1] + ('::' + t.a[1] if t.a[1] else '')
        return name + '{' + ', '.join(f'{k}: {shown(v)}' for k, v in t.a[3]) + '}'
    if t.op == 'f':
        return f'{show(t.a[0])}.{t.a[1]}'
    if t.op == 'v':
        return f'{show(t.a[0])}.{t.a[1]}.{t.a[2]}'
    if t.op == 'sym':
        return str(t.a[0])
    if t.op == 'bool':
        return 'true' if t.a[0] else 'false'
    if t.op == 'sum':
        return show(t.a[0])
    return t.op + '(' + ', '.join(show(x) if isinstance(x, Term) else shown(x) if isinstance(x, Node) else str(x) for x in t.a) + ')'

def shown(n, limit=4000):
    s = _shown(n)
    return s if len(s) < limit else s[:limit] + '...'

_sc = {}
def _shown(n):
    r = _sc.get(n.id)
    if r is None:
        if n.leaf is not None:
            r = show(n.leaf)
        else:
            o = outcomes(n.atom)
            a = show(n.atom.a[0])
            r = '[' + n.atom.op + ' ' + a + '? ' + ' | '.join(f'{x}: {_shown(c)}' for x, c in zip(o, n.ch)) + ']'
            if len(r) > 20000:
                r = r[:20000] + '...'
        _sc[n.id] = r
    return r

def atoms_in(n, acc=None, seen=None):
    if acc is None:
        acc, seen = set(), set()
    if n.id in seen:
        return acc
    seen.add(n.id)
    if n.leaf is not None:
        if n.leaf.op == 'S':
            for _, v in n.leaf.a[3]:
                atoms_in(v, acc, seen)
        return acc
    acc.add(n.atom)
    for c in n.ch:
        atoms_in(c, acc, seen)
    return acc

def leaves(n, guard=(), seen=None):
    """yield (path, leaf term)"""
    if n.leaf is not None:
        yield guard, n.leaf
        return
    for o, c in zip(outcomes(n.atom), n.ch):
        yield from leaves(c, guard + ((n.atom, o),))

def leafset(n):
    out, seen, st = [], set(), [n]
    while st:
        x = st.pop()
        if x.id in seen:
            continue
        seen.add(x.id)
        if x.leaf is not None:
            out.append(x.leaf)
        else:
            st.extend(x.ch)
    return out

def subterms(x, acc=None):
    """all terms occurring in a Node/Term"""
    if acc is None:
        acc = {}
    st = [x]
    seenn = set()
    while st:
        y = st.pop()
        if isinstance(y, Node):
            if y.id in seenn:
                continue
            seenn.add(y.id)
            if y.leaf is not None:
                st.append(y.leaf)
            else:
                st.append(y.atom)
                st.extend(y.ch)
        elif isinstance(y, Term):
            if y.id in acc:
                continue
            acc[y.id] = y
            if y.op == 'poly':
                for m, _ in y.a[0]:
                    for a, _e in m:
                        st.append(_tlist[a])
            elif y.op == 'S':
                for _, v in y.a[3]:
                    st.append(v)
            else:
                for z in y.a:
                    if isinstance(z, (Term, Node)):
                        st.append(z)
                    elif isinstance(z, tuple):
                        for w in z:
                            if isinstance(w, (Term, Node)):
                                st.append(w)
    return acc
