"""A circle event is made exactly for the site triples that have one.

circle_formation is summarised for each of the eight kinds of site triple,
the circle computation itself being one opaque function of its arguments; the
result must be that computation, on the right arguments, exactly when the
specified existence condition holds and the centre does not lie beyond the end
of a vertical segment."""
from builder_roles import *
import importlib
import graph
c29 = importlib.import_module('c29')
c26 = importlib.import_module('c26')
from c29 import px, py, cross, orient, private, Sites, F, R
from gvn import none

RULE = 'value number of the circle decision over three symbolic sites == existence condition and the right computation'
PR = CORE + '::predicate'


def right(a, b, c): return n_cmp('lt', orient(a, b, c), n_num(0), F)


def same(p, q): return n_and(n_cmp('eq', px(p), px(q), F), n_cmp('eq', py(p), py(q), F))


def pps_exists(S, p, q, s, i):
    if i == 'Two':
        return n_not(n_and(same(S.point0(s), p), same(S.point1(s), q)))
    s0, s1 = S.point0(s), S.point1(s)
    a, b = right(p, q, s0), right(p, q, s1)
    along = cross(n_sub(px(q), px(p)), n_sub(py(q), py(p)), n_sub(px(s1), px(s0)), n_sub(py(s1), py(s0)))
    inv = S.is_inverse(s)
    if i == 'One':
        return ite(n_cmp('ge', px(p), px(q), F), a, n_and(n_or(a, b), n_or(inv, n_cmp('gt', along, n_num(0), F))))
    return ite(n_cmp('ge', px(q), px(p), F), b, n_and(n_or(a, b), n_or(n_not(inv), n_cmp('lt', along, n_num(0), F))))


def pss_exists(S, p, s, t, i):
    apart = n_not(n_cmp('eq', S.sorted_index(s), S.sorted_index(t), F))
    if i != 'Two':
        return apart
    si, ti = S.is_inverse(s), S.is_inverse(t)
    return n_and(apart, ite(si, ite(ti, right(S.point0(s), p, S.point1(t)), TRUE), ite(ti, FALSE, right(S.point0(s), p, S.point1(t)))))


def outside(chk, S, c, s):
    y = value_acc(chk, 'y', c26.CE)(c)
    inv = S.is_inverse(s)
    lo, hi = ite(inv, py(S.point1(s)), py(S.point0(s))), ite(inv, py(S.point0(s)), py(S.point1(s)))
    below = n_cmp('lt', c26.ulp_order(y, lo, 64), n_num(0), F)
    above = n_cmp('gt', c26.ulp_order(y, hi, 64), n_num(0), F)
    vert = n_and(S.is_segment(s), n_cmp('eq', px(S.point0(s)), px(S.point1(s)), F))
    return n_and(vert, n_or(below, above))


KINDS = {(0, 0, 0): ('ppp', (1, 2, 3), None), (0, 0, 1): ('pps', (1, 2, 3), 'Three'), (0, 1, 0): ('pps', (1, 3, 2), 'Two'), (1, 0, 0): ('pps', (2, 3, 1), 'One'),
         (0, 1, 1): ('pss', (1, 2, 3), 'One'), (1, 0, 1): ('pss', (2, 1, 3), 'Two'), (1, 1, 0): ('pss', (3, 1, 2), 'Three'), (1, 1, 1): ('sss', (1, 2, 3), None)}
POINTS = {'ppp': 3, 'pps': 2, 'pss': 1, 'sss': 0}


def run(chk):
    S = Sites(chk)
    f = private(chk, 'circle_formation')
    idx = PR + '::SiteIndex'
    if idx not in chk.facts.adts:
        raise Private('SiteIndex')
    new = chk.method(c26.CE, 'new')
    ev, st, e = chk.summ(new, [sym('node')], ['node'])
    seen, ov = {}, {}
    for k in POINTS:
        g = private(chk, 'lazy_circle_formation::' + k)
        tys = [g.ty(l['ty']) for l in g.body['locals'][1:g.body['argc'] + 1]]
        if [t[0] == 'ref' for t in tys] != [False] * POINTS[k] + [True] * (3 - POINTS[k]) + [False] * (len(tys) - 3) or len(tys) != (4 if k in ('ppp', 'sss') else 5):
            raise Private('arguments of lazy_circle_formation::' + k)

        def h(c, *a, k=k, tys=tys):
            seen[k] = 1
            return circle(k, [c.rd(x) if t[0] == 'ref' else x for x, t in zip(a, tys)])
        ov[g.key] = h
    r, st, e = chk.summ(f, [None, None, None, sym('node')], ['1', '2', '3', 'node'], overrides=ov)
    r = reals(r)        # cross products of integer coordinates are never NaN
    # a circle computation whose call is never reached makes a wrong result
    known = graph.reach(chk.facts, [f])
    if any(k not in seen and private(chk, 'lazy_circle_formation::' + k).key not in known for k in POINTS):
        raise Private('lazy_circle_formation')
    s = {i: sym(str(i)) for i in (1, 2, 3)}
    for kind, (k, order, index) in KINDS.items():
        chk.part('kind:%s%s%s' % tuple('ps'[x] for x in kind), one, chk, S, f, r, s, kind, k, order, index, ev, idx)


def circle(k, a):
    """the circle computation of kind k: one unknown function of coordinates and sites"""
    n = POINTS[k]
    args = [z for p in a[:n] for z in (px(p), py(p))] + list(a[n:])
    return op('circle:' + k, *args)


def one(chk, S, f, r, s, kind, k, order, index, ev, idx):
    name = ''.join('ps'[x] for x in kind)
    here = TRUE
    for i, x in zip((1, 2, 3), kind):
        here = n_and(here, S.is_segment(s[i]) if x else n_not(S.is_segment(s[i])))
    a = [s[i] for i in order]
    n = POINTS[k]
    args = [S.point0(x) for x in a[:n]] + a[n:]
    c = circle(k, args + ([enum(idx, index, [])] if index else []) + [ev])
    if k == 'ppp':
        ok = right(*args)
    elif k == 'pps':
        ok = pps_exists(S, *args, index)
    elif k == 'pss':
        ok = pss_exists(S, *args, index)
    else:
        d = lambda x, y: n_not(n_cmp('eq', S.sorted_index(x), S.sorted_index(y), F))
        ok = n_and(d(s[1], s[2]), d(s[2], s[3]))
    out = FALSE
    for i in (1, 2, 3):
        if kind[i - 1]:
            out = n_or(out, outside(chk, S, getv(c, 'Some', '0'), s[i]))
    want = reals(ite(ok, ite(n_and(is_some(c), out), none(), c), none()))
    chk.equal('exists:' + name, f, ite(here, is_some(r), BOT), ite(here, is_some(want), BOT), 'a circle event of sites %s exists exactly when specified' % name)
    both = n_and(here, n_and(is_some(r), is_some(want)))
    chk.equal('circle:' + name, f, ite(both, getv(r, 'Some', '0'), BOT), ite(both, getv(c, 'Some', '0'), BOT), 'the circle of sites %s is computed from these sites in their order' % name)
