"""No integer arithmetic on coordinates overflows for 32-bit coordinates.

Every function that can run while a diagram is built and does arithmetic on
signed integers or on the coordinate type is found in the call graph.  The
functions of sites and points that lead to it are summarised for i32
coordinates with every such operation's value kept, and the interval of that
value (coordinates anywhere in the range of i32) must lie inside its type."""
from rules import *
import terms
import graph
import algebra

RULE = 'interval of every signed integer operation on coordinates, with all coordinates in [-2^31, 2^31-1], lies inside the type of the operation'
LO, HI = -(1 << 31), (1 << 31) - 1
SIGNED = ('i8', 'i16', 'i32', 'i64', 'i128')
OPS = ('Add', 'Sub', 'Mul', 'Neg', 'AddAssign', 'SubAssign', 'MulAssign')


def coordlike(t, f):
    """a signed integer or a type parameter that is the coordinate"""
    return (t[0] == 'prim' and t[1] in SIGNED) or (t[0] == 'param' and t[1] in intparams(f))


def intparams(f):
    """type parameters bound by the coordinate trait"""
    return [g for g in f.generics if g.startswith('I')]


def sites(facts, f):
    """operations of f on signed integers"""
    n = 0
    for body in graph.bodies(f):
        for b in body['blocks']:
            for st in b['st']:
                r = st.get('r')
                if isinstance(r, dict) and r.get('k') in ('bin', 'un') and (str(r.get('op')).endswith('WithOverflow') or r.get('op') == 'Neg'):
                    ty = r.get('ty')
                    if ty is not None and coordlike(f.ty(ty), f):
                        n += 1
            t = b['term']
            if t['k'] == 'assert' and t['kind'] == 'overflow:Neg':
                n += 1
            tf = t['f'].get('fn') if t['k'] == 'call' and isinstance(t['f'], dict) else None
            if tf:
                p = tf['path'].split('::')
                if len(p) > 1 and p[-2] in OPS and 'ops' in p and tf['args'] and coordlike(f.ty(tf['args'][0]), f):
                    n += 1
    return n


def raw(t):
    """a bare number: its range is the caller's business"""
    while t[0] == 'ref':
        t = t[2]
    return t[0] in ('prim', 'param', 'slice', 'array', 'closure') and t != ('prim', 'bool')


def interval(t, cache):
    r = cache.get(t.id)
    if r is None:
        r = cache[t.id] = interval1(t, cache)
    return r


def imul(a, b):
    v = [x * y for x in a for y in b]
    return min(v), max(v)


def interval1(t, cache):
    if t.op == 'poly':
        lo = hi = 0
        for m, c in t.a[0]:
            v = (c, c)
            for a, e in m:
                x = interval(terms._tlist[a], cache)
                if e < 0:
                    raise Unsupported('division')
                w = (1, 1)
                for _ in range(e):
                    w = imul(w, x)
                if e % 2 == 0:
                    w = (max(w[0], 0), w[1])
                v = imul(v, w)
            lo, hi = lo + v[0], hi + v[1]
        return lo, hi
    if t.op in ('sum', 'let'):
        return interval(t.a[0], cache)
    if t.op in ('f', 'fld', 'sym', 'get'):
        return LO, HI
    raise Unsupported('range of ' + terms.show(t)[:100])


def run(chk):
    F = chk.facts
    roots = [f for f in F.fns.values() if f.crate == CORE and (f.spath.startswith(CORE + '::builder::Builder::') and f.d.get('public') or 'trait' in f.d)]
    if not roots:
        raise Missing('public functions of Builder')
    pred = graph.reach(F, roots)
    fs = [F.fns[k] for k in pred if k in F.fns]
    have = {f.key: sites(F, f) for f in fs if f.crate == CORE}
    todo = {k: n for k, n in have.items() if n}
    chk.count('functions with signed arithmetic', len(todo))
    callers = {}
    for f in fs:
        for c, t, bi in graph.callees(F, f):
            for g in graph.targets(F, c):
                callers.setdefault(g.key, set()).add(f.key)
    # the nearest functions of sites and points above each operation
    entries, seen, work = [], set(), sorted(todo)
    while work:
        k = work.pop()
        if k in seen:
            continue
        seen.add(k)
        f = F.fns[k]
        tys = [f.ty(l['ty']) for l in f.body['locals'][1:f.body['argc'] + 1]]
        if any(raw(t) and coordlike(strip(t), f) for t in tys) or k.endswith('}'):
            up = callers.get(k, ())
            work += sorted(up)
        else:
            entries.append(f)
    ov = algebra.overrides(chk, algebra.FPT, algebra.DIF, algebra.XINT, algebra.XFPT)
    covered = set()
    for f in sorted(entries, key=lambda f: f.key):
        chk.part(f.spath, entry, chk, f, ov, covered)
    for k in sorted(todo):
        if k not in covered:
            chk.undecided('covered:' + F.fns[k].spath, 'no summary reaches the arithmetic of ' + F.fns[k].spath)


def strip(t):
    while t[0] == 'ref':
        t = t[2]
    return t


def counter(t):
    """no coordinate in it: loop counters and constants"""
    return not any(x.op in ('f', 'fld', 'sym', 'get') for x in subterms(L(t)).values())


def entry(chk, f, ov, covered):
    terms.LET = 12
    sub = {g: ('prim', 'i32') for g in intparams(f)}
    names = ['p%d' % i for i in range(f.body['argc'])]
    r, st, e = chk.summ(f, None, names, overrides=ov, checked='note', unroll=8, sub=sub)
    covered |= set(e.visited)
    n, cache, bad = 0, {}, None
    for t, ty in dict.fromkeys(e.noted):
        if ty[0] != 'prim' or ty[1] not in SIGNED or counter(t):
            continue
        n += 1
        w = INTW[ty[1]]
        lo, hi = interval(t, cache)
        if lo < -(1 << (w - 1)) or hi >= 1 << (w - 1):
            bad = bad or (t, ty[1], lo, hi)
    chk.count('operations bounded', n)
    if bad and not extreme(bad[0], INTW[bad[1]]):
        return chk.undecided(f.spath, '%s: interval [%d, %d] exceeds %s but no extreme coordinate reaches it' % (terms.show(bad[0])[:120], bad[2], bad[3], bad[1]))
    chk.ob(f.spath, bad is None, 'signed arithmetic on coordinates stays inside its type' + ('' if not bad else ': %s can reach [%d, %d], outside %s' % (
        terms.show(bad[0])[:120], bad[2], bad[3], bad[1])), sample='%d operations' % n)


def extreme(t, w):
    """some choice of extreme coordinates takes the value outside the type"""
    import random
    rnd = random.Random(3)
    for _ in range(4000):
        v = {}

        def at(x):
            if x.op == 'poly':
                s = 0
                for m, c in x.a[0]:
                    for a, e in m:
                        c = c * at(terms._tlist[a]) ** e
                    s += c
                return s
            if x.op in ('sum', 'let'):
                return at(x.a[0])
            if x.id not in v:
                v[x.id] = rnd.choice((LO, HI))
            return v[x.id]
        if not -(1 << (w - 1)) <= at(t) < 1 << (w - 1):
            return True
    return False
