"""The predicates the sweep decides by compute the stated geometric quantity.

Every predicate function is summarised over symbolic points and sites (callees
inlined, integer and float arithmetic identified with the real formulas) and
its value number is compared with the specification written over the same
symbols; decision functions over comparison outcomes are compared as decision
diagrams."""
from builder_roles import *

RULE = 'value number of the predicate == specification over the same symbolic sites and points'
PR = CORE + '::predicate'
F = False   # integer comparison
R = True    # float comparison


def px(p): return getf(p, 'x')
def py(p): return getf(p, 'y')


def cross(ax, ay, bx, by): return n_sub(n_mul(ax, by), n_mul(ay, bx))


def orient(a, b, c):
    """twice the signed area: (a-b) x (b-c), positive when c is left of a->b"""
    return cross(n_sub(px(a), px(b)), n_sub(py(a), py(b)), n_sub(px(b), px(c)), n_sub(py(b), py(c)))


class Sites:
    def __init__(s, chk):
        for n in ('point0', 'point1', 'is_segment', 'is_inverse', 'sorted_index', 'is_vertical', 'initial_index'):
            setattr(s, n, value_acc(chk, n))


def ori(chk):
    """enum node of Orientation by sign"""
    key = PR + '::orientation_predicate::Orientation'
    if key not in chk.facts.adts:
        raise Private('Orientation')
    return key


def by_sign(key, x, isf=R):
    r, c, l = enum(key, 'Right', []), enum(key, 'Collinear', []), enum(key, 'Left', [])
    return n_sign(x, isf, r, c, l, BOT)


def private(chk, path):
    r = [f for f in chk.facts.fns.values() if f.kind in ('Fn', 'AssocFn') and f.spath.startswith(CORE) and f.spath.endswith('::' + path)]
    if len(r) != 1:
        raise Private(path)
    chk.functions.add(r[0].spath)
    return r[0]


def pt(n): return sym(n)


def accessors(chk, S):
    """what the accessors say about a point site and a segment site"""
    SITEE = CORE + '::site_event::Site'
    a, b, i = sym('a'), sym('b'), sym('i')
    new = chk.method(SITE, 'new')
    for seg, site in ((False, enum(SITEE, 'Point', [('0', a)])), (True, enum(SITEE, 'Segment', [('0', a), ('1', b)]))):
        v, st, e = chk.summ(new, [site, i], ['site', 'i'])
        q = b if seg else a
        k = 'segment' if seg else 'point'
        for n, want in (('point0', a), ('point1', q), ('is_segment', B(seg)), ('is_point', B(not seg)), ('x0', px(a)), ('y0', py(a)), ('x1', px(q)), ('y1', py(q)), ('x', px(a)), ('y', py(a)),
                        ('initial_index', i), ('is_inverse', FALSE), ('is_vertical', n_cmp('eq', px(a), px(q), F))):
            chk.part('%s:%s' % (k, n), lambda n=n, want=want: chk.equal('%s:%s' % (k, n), chk.method(SITE, n), value_acc(chk, n)(v), want, '%s() of a %s site' % (n, k)))
        if seg:
            f = chk.method(SITE, 'inverse')
            r2, st2, e2 = chk.summ(f, [v], ['obj'])
            w = post(st2, 'obj')
            for n, want in (('point0', b), ('point1', a), ('is_inverse', TRUE), ('initial_index', i), ('is_segment', TRUE)):
                chk.equal('inverse:' + n, f, value_acc(chk, n)(w), want, '%s() of an inverted segment' % n)
            r3, st3, e3 = chk.summ(f, [w], ['obj'])
            w = post(st3, 'obj')
            for n, want in (('point0', a), ('point1', b), ('is_inverse', FALSE)):
                chk.equal('inverse-twice:' + n, f, value_acc(chk, n)(w), want, '%s() of a segment inverted twice' % n)


def run(chk):
    S = Sites(chk)
    chk.part('accessors', accessors, chk, S)
    chk.part('orientation', orientation, chk)
    chk.part('distance', distance, chk, S)


def orientation(chk):
    a, b, c = pt('a'), pt('b'), pt('c')
    key = ori(chk)
    f = private(chk, 'orientation_predicate::eval_p')
    r, st, e = chk.summ(f, [a, b, c], list('abc'))
    chk.equal('eval_p', f, reals(r), reals(by_sign(key, orient(a, b, c))), 'orientation of three points')
    f = private(chk, 'orientation_predicate::eval_i')
    w = [sym(x) for x in ('ax', 'ay', 'bx', 'by')]
    r, st, e = chk.summ(f, w, ['ax', 'ay', 'bx', 'by'])
    chk.equal('eval_i', f, reals(r), reals(by_sign(key, cross(*w))), 'orientation of two vectors')
    f = private(chk, 'orientation_predicate::eval_f')
    r, st, e = chk.summ(f, [sym('v')], ['v'])
    chk.equal('eval_f', f, reals(r), reals(by_sign(key, sym('v'))), 'orientation from a determinant')
    f = private(chk, 'robust_cross_product')
    r, st, e = chk.summ(f, w, ['ax', 'ay', 'bx', 'by'])
    chk.equal('cross', f, reals(r), cross(*w), 'cross product')


def dpa(S, s, p):
    """horizontal distance from p to the arc of a point site"""
    q = S.point0(s)
    dx, dy = n_sub(px(q), px(p)), n_sub(py(q), py(p))
    return n_div(n_add(n_mul(dx, dx), n_mul(dy, dy)), n_mul(n_num(2), dx))


def dsa(S, s, p):
    """horizontal distance from p to the arc of a segment site"""
    a, b = S.point0(s), S.point1(s)
    dx, dy = n_sub(px(b), px(a)), n_sub(py(b), py(a))
    ln = n_sqrt(n_add(n_mul(dx, dx), n_mul(dy, dy)))
    # (p - a) x (b - a) / (|b - a| + dy), written without cancellation when dy < 0
    c = cross(dx, dy, n_sub(px(p), px(a)), n_sub(py(p), py(a)))
    k = n_sign(dy, R, n_div(n_sub(ln, dy), n_mul(dx, dx)), n_div(n_num(1), n_add(dy, ln)), n_div(n_num(1), n_add(dy, ln)), BOT)
    vert = n_mul(n_sub(px(a), px(p)), n_div(n_num(1), n_num(2)))
    return ite(n_cmp('eq', px(a), px(b), F), vert, n_mul(k, c))


def assume_kinds(S, n, **kinds):
    """restrict to sites of the given kinds"""
    for name, seg in kinds.items():
        c = S.is_segment(sym(name))
        n = ite(c if seg else n_not(c), n, BOT)
    return n


def pp(S, l, r, p):
    a, b = S.point0(l), S.point0(r)
    rest = n_cmp('lt', dpa(S, l, p), dpa(S, r, p), R)
    gt = ite(n_cmp('le', py(p), py(a), F), FALSE, rest)
    lt = ite(n_cmp('ge', py(p), py(b), F), TRUE, rest)
    eq = n_cmp('lt', n_add(py(a), py(b)), n_mul(n_num(2), py(p)), F)
    return n_sign(n_sub(px(a), px(b)), F, lt, eq, gt)


def fast_ps(chk, S, l, r, p, rev):
    """'LESS' / 'MORE' / 'UNDEFINED' as numbers -1, 1, 0"""
    LESS, MORE, UND = n_num(-1), n_num(1), n_num(0)
    q, a, b = S.point0(l), S.point0(r), S.point1(r)
    inv = S.is_inverse(r)
    dx, dy = n_sub(px(p), px(q)), n_sub(py(p), py(q))
    sx, sy = n_sub(px(b), px(a)), n_sub(py(b), py(a))
    below, above = n_cmp('lt', py(p), py(q), F), n_cmp('gt', py(p), py(q), F)
    vert = ite(n_and(below, n_not(rev)), MORE, ite(n_and(above, rev), LESS, UND))
    left = n_cmp('gt', cross(sx, sy, dx, dy), n_num(0), F)
    lcase = ite(inv, ite(rev, UND, MORE), ite(rev, LESS, UND))
    ulp = private(chk, 'ulp_comparison')
    fl = n_mul(sx, n_mul(n_add(dy, dx), n_sub(dy, dx)))
    fr_ = n_mul(n_num(2), n_mul(sy, n_mul(dx, dy)))
    cmp, st, e = chk.summ(ulp, [fl, fr_, n_num(4)], ['a', 'b', 'm'])
    ORD = ['Less', 'Equal', 'Greater']
    isg, isl = is_variant(cmp, ORD, 'Greater'), is_variant(cmp, ORD, 'Less')
    far = ite(n_or(n_and(isg, n_not(rev)), n_and(isl, rev)), ite(rev, LESS, MORE), UND)
    # the point is not strictly right of the segment: decided by its side
    side = n_not(n_cmp('lt', orient(a, b, p), n_num(0), F))
    return ite(side, ite(inv, MORE, LESS), ite(n_cmp('eq', px(a), px(b), F), vert, ite(left, lcase, far)))


def ps(chk, S, l, r, p, rev):
    fast = fast_ps(chk, S, l, r, p, rev)
    slow = n_xor(rev, n_cmp('lt', dpa(S, l, p), dsa(S, r, p), R))
    return n_sign(fast, F, TRUE, slow, FALSE)


def ss(S, l, r, p):
    same = n_cmp('eq', S.sorted_index(l), S.sorted_index(r), F)
    temp = n_cmp('gt', orient(S.point0(l), S.point1(l), p), n_num(0), F)
    return ite(same, temp, n_cmp('lt', dsa(S, l, p), dsa(S, r, p), R))


def distance(chk, S):
    l, r, p = sym('l'), sym('r'), sym('p')
    f = private(chk, 'distance_predicate::distance_predicate')
    got, st, e = chk.summ(f, [None, None, p], ['l', 'r', 'p'])
    for ls, rs, nm in ((0, 0, 'pp'), (0, 1, 'ps'), (1, 0, 'sp'), (1, 1, 'ss')):
        def one(ls=ls, rs=rs, nm=nm):
            w = (ss(S, l, r, p) if ls else ps(chk, S, l, r, p, FALSE)) if rs else (ps(chk, S, r, l, p, TRUE) if ls else pp(S, l, r, p))
            A = lambda n: reals(assume_kinds(S, n, l=ls, r=rs))
            chk.count('site kinds')
            chk.equal('distance:' + nm, f, A(got), A(w), 'which of two arcs a horizontal line through a new point meets first (%s)' % {'pp': 'two point sites', 'ps': 'point then segment site', 'sp': 'segment then point site', 'ss': 'two segment sites'}[nm])
        chk.part('distance:' + nm, one)
