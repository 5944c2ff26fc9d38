"""The affine map between two boxes is what its parameters say, consistently.

Every transform is summarised and compared with the one linear map
x -> (x + shift) * scale + offset; the parameters of a map built from two boxes
are compared with the centre/size formulas; the reverse transform is applied
symbolically to the forward transform and must reduce to rounding its argument."""
from diag import *
from c23 import AABB, mn, mx, Box

RULE = 'rational-function normal form of every transform == the linear map; reverse o forward == round'
AFF = CORE + '::visual_utils::SimpleAffine'


def pt(x, y):
    return struct('arr', [('0', x), ('1', y)])


def run(chk):
    chk.opts['unroll'] = 4     # loops over a fixed number of coordinates
    box = Box(chk)
    a, b = sym('a'), sym('b')
    fx = value_acc(chk, 'transform_x', AFF)
    fy = value_acc(chk, 'transform_y', AFF)
    me = sym('self_')

    def eq(key, f, got, want, what, **kw):
        chk.count('maps')
        chk.equal(key, f, nonan(purify(got)), nonan(purify(want)), what, **kw)
    # the map of two boxes: centre of the source goes to the centre of the destination
    f = chk.method(AFF, 'new')
    r, st, e = chk.summ(f, [None, None], ['src', 'dst'])
    sb, db = box(sym('src')), box(sym('dst'))
    s, d = getv(sb, 'Some', '0'), getv(db, 'Some', '0')
    both = n_and(is_some(sb), is_some(db))
    eq('new:defined', f, is_ok(r), both, 'a map exists iff both boxes are non-empty')
    m = getv(r, 'Ok', '0')

    def dim(bx, k):
        return n_sub(getf(getf(bx, 'h'), k), getf(getf(bx, 'l'), k))

    def mid(bx, k):
        return n_div(n_add(getf(getf(bx, 'h'), k), getf(getf(bx, 'l'), k)), n_num(2))
    ten = n_num(10)
    ssize = mx(mx(dim(s, '0'), ten), mx(dim(s, '1'), ten))
    dsize = mn(mx(dim(d, '0'), ten), mx(dim(d, '1'), ten))
    scale = n_div(dsize, ssize)

    def on(v):
        return ite(both, v, BOT)
    for k, g, x in (('0', fx, a), ('1', fy, b)):
        want = n_add(n_mul(n_sub(x, mid(s, k)), scale), mid(d, k))
        eq('new:transform_' + 'xy'[int(k)], f, on(g(m, x)), on(want), 'the map takes the source centre to the destination centre and scales by smaller destination side / larger source side (sides at least 10)')
    # default is the identity
    f = chk.method(AFF, 'default', 'core::default::Default')
    r, st, e = chk.summ(f)
    eq('default:x', f, fx(r, a), a, 'the default map is the identity')
    eq('default:y', f, fy(r, b), b, 'the default map is the identity')
    # all forward transforms are the same map
    X, Y = fx(me, a), fy(me, b)

    def one(name, args, want, what='the forward transforms agree'):
        def go():
            f = chk.method(AFF, name)
            r, st, e = chk.summ(f, [None] + args, ['self_'] + ['p%d' % i for i in range(len(args))])
            if want is None:
                return r
            if r.leaf is not None and r.leaf.op == 'S' and r.leaf.a[0] == 'array' or getf_like(want):
                r2 = arr(r, 2)
            else:
                r2 = r
            eq(name, f, r2, want, what)
        chk.part(name, go)
    one('transform', [a, b], pt(X, Y))
    for n in ('transform_fx', 'transform_ix'):
        one(n, [a], X)
    for n in ('transform_fy', 'transform_iy'):
        one(n, [b], Y)
    p = sym('p')
    p0, p1 = getf(arr(p, 2), '0'), getf(arr(p, 2), '1')
    for n in ('transform_i', 'transform_f'):
        one(n, [p], pt(fx(me, p0), fy(me, p1)))
    one('transform_p', [p], pt(fx(me, getf(p, 'x')), fy(me, getf(p, 'y'))))

    def linear_():
        # per-coordinate: public scale and offset describe the map
        sc, of = arr(getf(me, 'scale'), 2), arr(getf(me, 'to_offset'), 2)
        for k, g in (('0', fx), ('1', fy)):
            chk.equal('scale:' + k, chk.method(AFF, 'transform_' + 'xy'[int(k)]), n_sub(g(me, n_add(a, b)), g(me, a)), n_mul(b, getf(sc, k)), 'the map stretches by the scale of its own axis')
    chk.part('linear', linear_)

    # reverse o forward = round
    def rev(name, inner, v):
        def go():
            f = chk.method(AFF, name)
            r, st, e = chk.summ(f, [None, inner], ['self_', 'v'])
            want = bind(v, lambda t: L(T('numcast', T('ty', 'num'), T('ty', 'num'), t)))
            rounds = [t for t in subterms(r).values() if t.op == 'round']
            chk.count('maps')
            if not rounds:
                raise Unsupported('no rounding in ' + name)
            chk.ob(name + ':inverse', all(t.a[0] is v.leaf for t in rounds), '%s: the reverse transform rounds %s where the forward transform started from %s' % (chk.loc(f), [show(t.a[0])[:200] for t in rounds], show(v.leaf)))
            # and nothing else happens to the rounded value: it is converted and returned
            good = {T('round', v.leaf)}
            okv = getv(r, 'Ok', '0')
            bad = [t for t in leafset(okv) if t.op != 'bot' and not is_conv(t, good)]
            chk.ob(name + ':value', not bad, '%s: returns the rounded value converted, not %s' % (chk.loc(f), [show(t)[:200] for t in bad]))
        chk.part(name, go)
    rev('reverse_transform_x', X, a)
    rev('reverse_transform_y', Y, b)

    def rev2():
        f = chk.method(AFF, 'reverse_transform')
        r, st, e = chk.summ(f, [None, a, b], ['self_', 'a', 'b'])
        rx, ry = [chk.summ(chk.method(AFF, 'reverse_transform_' + n), [None, v], ['self_', 'v'])[0] for n, v in (('x', a), ('y', b))]
        both = n_and(is_ok(rx), is_ok(ry))
        eq('reverse_transform', f, ite(is_ok(r), some(arr(getv(r, 'Ok', '0'), 2)), none()), ite(both, some(pt(getv(rx, 'Ok', '0'), getv(ry, 'Ok', '0'))), none()), 'the reverse transform of a point is that of its coordinates')
    chk.part('reverse_transform', rev2)

    def zoom():
        f = chk.method(AFF, 'zoom')
        z = sym('z')
        r, st, e = chk.summ(f, [None, z], ['self_', 'z'])
        v = post(st, 'self_')
        # zooming by z multiplies the stretch of both axes and keeps the fixed centre
        of = arr(getf(me, 'to_offset'), 2)
        for k, g, x in (('0', fx, a), ('1', fy, b)):
            eq('zoom:' + k, f, g(v, x), n_add(n_mul(n_sub(g(me, x), getf(of, k)), z), getf(of, k)), 'zooming multiplies the scale of both axes')
    chk.part('zoom', zoom)
    chk.part('to_segments_offset', segments, chk)
    chk.floor('maps', 14)


def segments(chk):
    """scaled and shifted input segments"""
    fs = [f for f in chk.facts.fns.values() if f.spath == CORE + '::visual_utils::to_segments_offset']
    if len(fs) != 1:
        raise Missing('to_segments_offset')
    f = fs[0]
    res, st, e = chk.summ(f, None, ['p', 'sx', 'sy', 'dx', 'dy'])
    num = lambda frm, x: bind(x, lambda t: getv(L(T('numcast', frm, 'num', t)), 'Some', '0'))

    def seg(x):
        at = lambda i: bindn([x, n_num(i)], e.vidx)
        co = lambda i, s, d: n_add(num('f64', n_mul(at(i), sym(s))), num('i64', sym(d)))
        PT, LN = CORE + '::geometry::Point', CORE + '::geometry::Line'
        pt = lambda i: struct(PT, (('x', co(i, 'sx', 'dx')), ('y', co(i + 1, 'sy', 'dy'))))
        return struct(LN, (('start', pt(0)), ('end', pt(2))))
    copied_in_order(chk, 'to_segments_offset', f, e, res, sym('p'), 'every coordinate is scaled, rounded and shifted on its axis', seg)


def getf_like(w):
    return w.leaf is not None and w.leaf.op == 'S' and w.leaf.a[0] == 'arr'


def is_conv(t, good):
    """t is the successful conversion of one of the good terms"""
    return t.op == 'v' and t.a[0].op == 'numcast' and t.a[0].a[-1] in good
