"""Loads the facts written by the rustc driver."""
import json, os, re

def strip_generics(p):
    """`a::B::<C, D>::f` -> `a::B::f`;   `<a::B<C> as t::U<V>>::f` keeps the
    leading qualified-self form but drops nested generic lists."""
    out = []
    i = 0
    n = len(p)
    # protect a leading '<... as ...>' qualified path
    def skip(i):
        d = 0
        while i < n:
            if p[i] == '<':
                d += 1
            elif p[i] == '>' and p[i - 1] != '-':
                d -= 1
                if d == 0:
                    return i + 1
            i += 1
        return n
    while i < n:
        c = p[i]
        if c == '<':
            if out and (out[-1].isalnum() or out[-1] == '_'):
                i = skip(i)
                continue
            if len(out) >= 2 and out[-1] == ':' and out[-2] == ':':
                seg = p[i:skip(i)]
                if ' as ' in _top(seg) or seg.startswith('<impl '):
                    out.append(c)
                    i += 1
                    continue
                # turbofish
                out.pop(); out.pop()
                i = skip(i)
                continue
        out.append(c)
        i += 1
    return ''.join(out)

def _top(seg):
    d = 0
    o = []
    for ch in seg:
        if ch == '<':
            d += 1
        elif ch == '>':
            d -= 1
        elif d == 1:
            o.append(ch)
    return ''.join(o)

class Fn:
    __slots__ = ('d', 'crate', 'key', 'path', 'spath', 'body', 'promoted', 'generics', 'kind', 'name', 'facts', 'sp', 'idom', 'cfgc')
    def __init__(s, d, crate, facts):
        s.d = d
        s.crate = crate
        s.key = d['key']
        s.path = d['path']
        s.spath = strip_generics(d['path'])
        s.body = d['body']
        s.promoted = d['promoted']
        s.generics = [g for g in d['generics'] if not g.startswith("'")]
        s.kind = d['kind']
        s.name = d.get('name')
        s.facts = facts
        s.sp = d['sp']
        s.cfgc = None
    def ty(s, i):
        return s.facts.ty(s.crate, i)
    def __repr__(s):
        return '<fn ' + s.spath + '>'

CRATES = ('boostvoronoi_ext', 'boostvoronoi_core', 'boostvoronoi')

class Facts:
    def __init__(s, d):
        s.raw = {}
        s.fns = {}
        s.byspath = {}
        s.adts = {}
        s.tycache = {}
        s.impls = []
        s.implfn = {}
        s.closures = {}
        for c in CRATES:
            j = json.load(open(os.path.join(d, c + '.json')))
            s.raw[c] = j
            for f in j['fns']:
                x = Fn(f, c, s)
                s.fns[x.key] = x
                s.byspath.setdefault(x.spath, []).append(x)
            for a in j['adts']:
                a['crate'] = c
                s.adts[a['key']] = a
            for i in j['impls']:
                i['crate'] = c
                s.impls.append(i)
        for f in s.fns.values():
            if f.kind == 'Closure':
                s.closures.setdefault(f.d.get('parent'), []).append(f)
            if 'trait' in f.d and f.kind == 'AssocFn':
                s.implfn.setdefault((f.d['trait'], f.name), []).append(f)

    def ty(s, crate, i):
        k = (crate, i)
        r = s.tycache.get(k)
        if r is not None:
            return r
        d = s.raw[crate]['types'][i]
        kd = d['k']
        def args():
            return tuple(s.ty(crate, x) if isinstance(x, int) else ('const', x) for x in d.get('args', []))
        if kd == 'prim':
            r = ('prim', d['s'])
        elif kd == 'adt':
            r = ('adt', d['def'], args())
        elif kd == 'ref':
            r = ('ref', d['mut'], args()[0])
        elif kd == 'ptr':
            r = ('ptr', d['mut'], args()[0])
        elif kd == 'array':
            r = ('array', args()[0], d['len'])
        elif kd == 'slice':
            r = ('slice', args()[0])
        elif kd == 'tuple':
            r = ('tuple', args())
        elif kd == 'param':
            r = ('param', d['name'])
        elif kd == 'fndef':
            r = ('fndef', d['def'], args())
        elif kd == 'closure':
            r = ('closure', d['def'], args())
        else:
            r = ('other', kd, d['s'])
        s.tycache[k] = r
        return r

    def find(s, spath, crate='boostvoronoi_core'):
        """function by generics-free path, e.g. 'builder::Builder::build'"""
        r = s.byspath.get(crate + '::' + spath, [])
        return r

    def one(s, spath, crate='boostvoronoi_core'):
        r = s.find(spath, crate)
        if len(r) != 1:
            raise Missing(f'{crate}::{spath} ({len(r)} definitions)')
        return r[0]

    def method(s, adt_key, name, trait=None):
        """inherent (or trait) methods of a type"""
        out = []
        for f in s.fns.values():
            if f.kind != 'AssocFn' or f.name != name or 'impl_self' not in f.d:
                continue
            t = f.ty(f.d['impl_self'])
            if t[0] == 'adt' and t[1] == adt_key and (f.d.get('trait') if trait is None else f.d.get('trait') == trait) == (None if trait is None else True):
                out.append(f)
        return out

class Missing(Exception):
    """an anchor (function, field, impl) the rule needs is not in the program"""

def subst(t, m):
    if not m:
        return t
    k = t[0]
    if k == 'param':
        return m.get(t[1], t)
    if k == 'adt':
        return ('adt', t[1], tuple(subst(x, m) for x in t[2]))
    if k in ('ref', 'ptr'):
        return (k, t[1], subst(t[2], m))
    if k == 'array':
        return (k, subst(t[1], m), t[2])
    if k == 'slice':
        return (k, subst(t[1], m))
    if k == 'tuple':
        return (k, tuple(subst(x, m) for x in t[1]))
    if k in ('fndef', 'closure'):
        return (k, t[1], tuple(subst(x, m) for x in t[2]))
    return t

def unify(p, t, m):
    """match pattern type p against t, binding params of p in m"""
    if p[0] == 'param':
        if p[1] in m:
            return m[p[1]] == t
        m[p[1]] = t
        return True
    if p[0] != t[0]:
        return False
    k = p[0]
    if k == 'adt':
        return p[1] == t[1] and len(p[2]) == len(t[2]) and all(unify(a, b, m) for a, b in zip(p[2], t[2]))
    if k in ('ref', 'ptr'):
        return p[1] == t[1] and unify(p[2], t[2], m)
    if k == 'array':
        return unify(p[1], t[1], m)
    if k == 'slice':
        return unify(p[1], t[1], m)
    if k == 'tuple':
        return len(p[1]) == len(t[1]) and all(unify(a, b, m) for a, b in zip(p[1], t[1]))
    return p == t
