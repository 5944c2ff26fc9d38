"""The bounding box is the exact hull of what was added.

Observed through get_low/get_high only: every update operation's post-state
value number is compared with the component-wise minimum and maximum of the
previous corners and the new coordinates; containment with the four closed
comparisons; growing with the stated margin."""
from diag import *

RULE = 'value number of the observed corners after each operation == min/max specification (NaN coordinates are don\'t-care)'
AABB = CORE + '::visual_utils::Aabb2'


def mn(a, b): return ite(n_cmp('lt', a, b, True), a, b)
def mx(a, b): return ite(n_cmp('lt', a, b, True), b, a)


class Box:
    def __init__(s, chk):
        s.low = value_acc(chk, 'get_low', AABB)
        s.high = value_acc(chk, 'get_high', AABB)

    def __call__(s, v):
        """observable value: Option<(low x, low y, high x, high y)>"""
        lo, hi = s.low(v), s.high(v)
        l, h = getv(lo, 'Some', '0'), getv(hi, 'Some', '0')
        both = ite(n_and(is_some(lo), is_some(hi)), some(struct('box', [('l', arr(l, 2)), ('h', arr(h, 2))])), none())
        return ite(n_xor(is_some(lo), is_some(hi)), L(T('half-a-box')), both)


def mk_box(lx, ly, hx, hy):
    return some(struct('box', [('l', struct('arr', [('0', lx), ('1', ly)])), ('h', struct('arr', [('0', hx), ('1', hy)]))]))


def hull(b, x, y):
    v = getv(b, 'Some', '0')
    l, h = getf(v, 'l'), getf(v, 'h')
    g = mk_box(mn(getf(l, '0'), x), mn(getf(l, '1'), y), mx(getf(h, '0'), x), mx(getf(h, '1'), y))
    return ite(is_some(b), g, mk_box(x, y, x, y))


def run(chk):
    chk.opts['unroll'] = 4     # loops over a fixed number of coordinates
    box = Box(chk)
    a, b, c, d = [sym(n) for n in 'abcd']
    me = sym('self_')
    xy = lambda p: (getf(p, 'x'), getf(p, 'y'))

    def eq(key, f, got, want, what):
        chk.count('operations')
        chk.equal(key, f, nonan(purify(got)), nonan(purify(want)), what)
    f = chk.method(AABB, 'default', 'core::default::Default')
    r, st, e = chk.summ(f)
    eq('default', f, box(r), none(), 'an empty box has no corners')
    f = chk.method(AABB, 'new')
    r, st, e = chk.summ(f, [None, None], ['a', 'b'])
    eq('new', f, box(r), hull(hull(none(), *xy(a)), *xy(b)), 'the box of two points')
    f = chk.method(AABB, 'new_from_i32')
    r, st, e = chk.summ(f, [a, b, c, d], list('abcd'))
    eq('new_from_i32', f, box(r), hull(hull(none(), a, b), c, d), 'the box of two points')
    for name in ('update_coordinate', 'update_vertex', 'update_i64', 'update_f64'):
        def one(name=name):
            f = chk.method(AABB, name)
            r, st, e = chk.summ(f, [None, a, b], ['self_', 'a', 'b'])
            eq(name, f, box(post(st, 'self_')), hull(box(me), a, b), 'the box extended by a point')
        chk.part(name, one)

    def upd_point():
        f = chk.method(AABB, 'update_point')
        r, st, e = chk.summ(f, [None, None], ['self_', 'a'])
        eq('update_point', f, box(post(st, 'self_')), hull(box(me), *xy(a)), 'the box extended by a point')
    chk.part('update_point', upd_point)

    def upd_line():
        f = chk.method(AABB, 'update_line')
        r, st, e = chk.summ(f, [None, None], ['self_', 'a'])
        eq('update_line', f, box(post(st, 'self_')), hull(hull(box(me), *xy(getf(a, 'start'))), *xy(getf(a, 'end'))), 'the box extended by both ends of a line')
    chk.part('update_line', upd_line)

    def inside(x, y):
        v = getv(box(me), 'Some', '0')
        l, h = getf(v, 'l'), getf(v, 'h')
        r = n_and(n_cmp('ge', x, getf(l, '0'), True), n_cmp('le', x, getf(h, '0'), True))
        return n_and(r, n_and(n_cmp('ge', y, getf(l, '1'), True), n_cmp('le', y, getf(h, '1'), True)))

    def contains():
        f = chk.method(AABB, 'contains_point')
        r, st, e = chk.summ(f, [None, None], ['self_', 'a'])
        eq('contains_point', f, r, ite(is_some(box(me)), some(inside(*xy(a))), none()), 'a point is contained iff it is within the corners, boundary included')
        f = chk.method(AABB, 'contains_line')
        r, st, e = chk.summ(f, [None, None], ['self_', 'a'])
        eq('contains_line', f, r, ite(is_some(box(me)), some(n_and(inside(*xy(getf(a, 'start'))), inside(*xy(getf(a, 'end'))))), none()), 'a line is contained iff both ends are')
    chk.part('contains', contains)

    def grow():
        f = chk.method(AABB, 'grow_percent')
        # the percentage is small enough for a single-precision number
        r, st, e = chk.summ(f, [None, a], ['self_', 'a'], single=lambda x: x is not a.leaf)
        v = getv(box(me), 'Some', '0')
        l, h = getf(v, 'l'), getf(v, 'h')
        size = mx(n_sub(getf(h, '0'), getf(l, '0')), n_sub(getf(h, '1'), getf(l, '1')))
        dl = n_mul(size, n_div(a, n_num(100)))
        l0, l1, h0, h1 = getf(l, '0'), getf(l, '1'), getf(h, '0'), getf(h, '1')
        w = mk_box(n_sub(l0, dl), n_sub(l1, dl), n_add(h0, dl), n_add(h1, dl))
        # a well-formed box and a percentage that is not negative
        facts = [(n_sub(l0, h0), '<='), (n_sub(l1, h1), '<='), (n_neg(a), '<=')]
        facts += [(n_mul(a, n_sub(l0, h0)), '<='), (n_mul(a, n_sub(l1, h1)), '<=')]
        chk.count('operations')
        chk.equal('grow_percent', f, nonan(purify(box(post(st, 'self_')))), nonan(purify(ite(is_some(box(me)), w, none()))),
                  'every side moves out by the given percentage of the larger dimension', base=facts, mult=[a.leaf])
    chk.part('grow', grow)
    chk.floor('operations', 9)
