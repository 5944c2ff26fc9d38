"""Conversions keep every coordinate in its place.

Every From implementation of the crate whose source and target are point-like
or line-like types (own types, arrays, geo, cgmath, mint, glam, nalgebra) is
summarised; both sides are flattened to their coordinate sequences (x, y) or
(start x, start y, end x, end y) and compared."""
from diag import *

RULE = 'coordinate sequence of the converted value == coordinate sequence of the source'
POINT = CORE + '::geometry::Point'
LINE = CORE + '::geometry::Line'
PT = {'Point', 'Point2', 'Coord', 'DVec2', 'Vec2', 'IVec2', 'OPoint', 'Vertex'}


def shape(t):
    """'p' for points, 'l' for lines, 'a2'/'a4' arrays of scalars, 'pp' array of two points"""
    while t[0] == 'ref':
        t = t[2]
    if t[0] == 'adt':
        n = t[1].rsplit('::', 1)[1]
        if n == 'Line':
            return 'l'
        if n in PT:
            return 'p'
        return None
    if t[0] == 'array':
        inner, n = t[1], str(t[2])
        s = shape(inner)
        if n == '2' and s == 'p':
            return 'pp'
        if inner[0] in ('param', 'prim') and n in ('2', '4'):
            return 'a' + n
    return None


def elem(n, i):
    return bind(n, lambda t: ENG.vidx(t, terms.num(i)))


class Flat:
    def __init__(s, chk, vx, vy):
        s.chk, s.vx, s.vy = chk, vx, vy

    def point(s, n, t):
        while t[0] == 'ref':
            t = t[2]
        if t[0] == 'param':
            # any type that converts into a point
            return [bind(n, lambda x: L(T('coord', 0, x))), bind(n, lambda x: L(T('coord', 1, x)))]
        vertex = t[1].endswith('diagram::Vertex')

        def one(k):
            name = ('x', 'y')[k]
            if vertex:
                return bind(n, lambda x: getf(L(x), (s.vx, s.vy)[k]))

            def g(x):
                if x.op == 'call' and x.a[0].endswith('::new') and len(x.a) == 3:
                    return repack(x.a[1 + k])
                if x.op == 'call' and 'From::from' in x.a[0] and len(x.a) == 2:
                    return elem(repack(x.a[1]), k)
                if x.op == 'into':
                    return L(T('coord', k, x.a[1]))
                return getf(L(x), name)
            return bind(n, g)
        return [one(0), one(1)]

    def flat(s, n, t):
        while t[0] == 'ref':
            t = t[2]
        sh = shape(t)
        if sh == 'p':
            return s.point(n, t)
        if sh == 'l':
            pt = ('adt', POINT, ())
            return s.point(getf(n, 'start'), pt) + s.point(getf(n, 'end'), pt)
        if sh == 'pp':
            return s.point(elem(n, 0), t[1]) + s.point(elem(n, 1), t[1])
        if sh in ('a2', 'a4'):
            return [elem(n, i) for i in range(int(sh[1]))]
        if t[0] == 'array' and str(t[2]) == '2' and t[1][0] == 'param':
            return s.point(elem(n, 0), t[1]) + s.point(elem(n, 1), t[1])
        return None


def repack(t):
    """argument of an opaque call back to a Node"""
    return L(t) if not hasattr(t, 'leaf') else t


def clean(n):
    """accessor calls of external point types are their fields"""
    def g(t):
        if t.op == 'call' and len(t.a) == 2 and t.a[0].rsplit('::', 1)[1] in ('x', 'y'):
            return getf(repack(t.a[1]), t.a[0].rsplit('::', 1)[1])
        return L(t)
    return bind(n, g)


def seq(xs):
    return struct('coords', [(str(i), clean(x)) for i, x in enumerate(xs)])


def run(chk):
    chk.opts['unroll'] = 4     # loops over a fixed number of coordinates
    vx = role_field(chk, chk.method(VERTEX, 'x'))
    vy = role_field(chk, chk.method(VERTEX, 'y'))
    fl = Flat(chk, vx, vy)
    for f in chk.facts.implfn.get(('core::convert::From', 'from'), []):
        if not f.spath.startswith(CORE):
            continue
        dst = f.ty(f.d['impl_self'])
        src = [f.ty(x) for x in f.d['trait_args'] if isinstance(x, int)][-1]
        ss, ds = shape(src), shape(dst)
        if ds is None:
            continue
        it = src
        while it[0] == 'ref':
            it = it[2]
        if ss is None and not (it[0] == 'array' and it[1][0] == 'param' and ds == 'l'):
            continue
        key = '%s<-%s' % (tn(dst), tn(src))

        def one(f=f, key=key, dst=dst, src=src):
            # [IT; 2] -> Line: the elements are points, not scalars
            r, st, e = chk.summ(f, None, ['p'])
            chk.count('conversions')
            p = sym('p')
            s2 = src
            t = src
            while t[0] == 'ref':
                t = t[2]
            if t[0] == 'array' and t[1][0] == 'param' and shape(dst) == 'l' and str(t[2]) == '2':
                want = fl.point(elem(p, 0), t[1]) + fl.point(elem(p, 1), t[1])
            else:
                want = fl.flat(p, src)
            got = fl.flat(r, dst)
            if got is None or want is None or len(got) != len(want):
                raise Unsupported('shape of ' + key)
            for pn in e.panics:
                if not is_conv_panic(pn):
                    chk.ob(key + ':panic', simplify_dc(pn['guard']) is FALSE, 'conversion %s can panic when %s' % (key, shown(pn['guard'], 200)))
            chk.equal(key, f, seq(got), seq(want), 'coordinates of the converted value')
        chk.part(key, one)
    a, b = sym('a'), sym('b')

    def own():
        f = chk.method(POINT, 'new')
        r, st, e = chk.summ(f, [a, b], ['a', 'b'])
        chk.equal('Point::new', f, seq(fl.flat(r, ('adt', POINT, ()))), seq([a, b]), 'a new point')
        f = chk.method(LINE, 'new')
        r, st, e = chk.summ(f, [a, b], ['a', 'b'])
        chk.equal('Line::new', f, struct('l', [('s', getf(r, 'start')), ('e', getf(r, 'end'))]), struct('l', [('s', a), ('e', b)]), 'a new line')
        f = chk.method(POINT, 'as_f64')
        r, st, e = chk.summ(f, None, ['p'])
        p = sym('p')
        chk.equal('Point::as_f64', f, arr(r, 2), struct('arr', [('0', getf(p, 'x')), ('1', getf(p, 'y'))]), 'coordinates as floats')
        f = chk.method(POINT, 'cast')
        r, st, e = chk.summ(f, None, ['p'])
        chk.count('casts')
        conv = casted(r)
        chk.equal('Point::cast', f, seq(fl.flat(conv, ('adt', POINT, ()))), seq([getf(p, 'x'), getf(p, 'y')]), 'a cast keeps the coordinates')
        f = chk.method(LINE, 'cast')
        r, st, e = chk.summ(f, None, ['p'])
        chk.equal('Line::cast', f, seq(fl.flat(casted(r), ('adt', LINE, ()))), seq(fl.flat(p, ('adt', LINE, ()))), 'a cast keeps the coordinates')
    chk.part('own', own)
    chk.floor('conversions', 40)


def is_conv_panic(p):
    return False


def casted(n):
    """successful number conversions are the number they convert"""
    def go(t):
        if t.op == 'v' and t.a[0].op == 'numcast':
            return L(t.a[0].a[-1])
        if t.op == 'S':
            return L(T('S', t.a[0], t.a[1], t.a[2], tuple((k, bind(v, go)) for k, v in t.a[3])))
        return L(t)
    return simplify_dc(bind(n, go))


def tn(t):
    if t[0] == 'ref':
        return '&' + tn(t[2])
    if t[0] == 'adt':
        return t[1].split('::')[0] + '::' + t[1].rsplit('::', 1)[1] + ('<%s>' % ','.join(tn(x) for x in t[2] if isinstance(x, tuple)) if t[2] else '')
    if t[0] == 'array':
        return '[%s;%s]' % (tn(t[1]), t[2])
    return str(t[1]) if len(t) > 1 else t[0]
