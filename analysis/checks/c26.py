"""The orders that drive the sweep are the defined ones.

Each comparison function (points, site events, circle events, site against
circle, beach-line keys) is summarised over two symbolic operands and its
decision diagram is compared with the specified order."""
from builder_roles import *
import graph
import importlib
c29 = importlib.import_module('c29')
from c29 import px, py, cross, orient, private, Sites, F, R

RULE = 'value number of the comparison over two symbolic operands == the specified order'
CE = CORE + '::circle_event::CircleEvent'
EPP = CORE + '::end_point::EndPointPair'
KEY = CORE + '::beach_line::BeachLineNodeKey'
ORD = ['Less', 'Equal', 'Greater']


def lex(a, b):
    return ite(n_cmp('eq', px(a), px(b), F), n_cmp('lt', py(a), py(b), F), n_cmp('lt', px(a), px(b), F))


def less(n): return is_variant(n, ORD, 'Less')
def greater(n): return is_variant(n, ORD, 'Greater')
def equal(n): return is_variant(n, ORD, 'Equal')


def payload(n): return getv(n, 'Some', '0')


def before(S, l, r):
    """strict order of site events"""
    p, q = S.point0(l), S.point0(r)
    lv = n_cmp('eq', px(S.point0(l)), px(S.point1(l)), F)
    rv = n_cmp('eq', px(S.point0(r)), px(S.point1(r)), F)
    y = n_cmp('lt', py(p), py(q), F)
    ye = n_cmp('eq', py(p), py(q), F)
    pt = ite(n_not(S.is_segment(r)), y, ite(rv, n_cmp('le', py(p), py(q), F), TRUE))
    sg = ite(rv, n_and(lv, y), ite(lv, TRUE, ite(ye, n_cmp('gt', orient(S.point1(l), S.point0(l), S.point1(r)), n_num(0), F), y)))
    return ite(n_cmp('eq', px(p), px(q), F), ite(S.is_segment(l), sg, pt), n_cmp('lt', px(p), px(q), F))


def run(chk):
    S = Sites(chk)
    chk.part('points', points, chk)
    chk.part('sites', sites, chk, S)
    chk.part('circles', circles, chk, S)
    chk.part('nodes', nodes, chk, S)
    chk.part('queue', queue, chk, S)


def points(chk):
    a, b = sym('a'), sym('b')
    f = private(chk, 'point_comparison::point_comparison')
    r, st, e = chk.summ(f, [a, b], ['a', 'b'])
    chk.equal('point', f, r, lex(a, b), 'points are ordered by x, then by y')
    v = value_acc(chk, 'site', EPP)
    f = chk.method(EPP, 'cmp', 'core::cmp::Ord')
    r, st, e = chk.summ(f, [None, None], ['l', 'r'])
    l, q = v(sym('l')), v(sym('r'))
    chk.equal('end-point:greater', f, greater(r), lex(l, q), 'end points come out of the queue in increasing order')
    same = n_and(n_cmp('eq', px(l), px(q), F), n_cmp('eq', py(l), py(q), F))
    chk.equal('end-point:equal', f, equal(r), same, 'equal end points tie')
    f = chk.method(EPP, 'partial_cmp', 'core::cmp::PartialOrd')
    r2, st, e = chk.summ(f, [None, None], ['l', 'r'])
    chk.equal('end-point:partial', f, r2, models.some_of(r), 'partial order of end points')


def sites(chk, S):
    l, r = sym('l'), sym('r')
    want = reals(before(S, l, r))
    f = private(chk, 'event_comparison_predicate::event_comparison_bii')
    got, st, e = chk.summ(f, [None, None], ['l', 'r'])
    chk.equal('site', f, reals(got), want, 'order of two sites')
    for nm, tr in (('cmp', 'core::cmp::Ord'), ('partial_cmp', 'core::cmp::PartialOrd')):
        f = chk.method(SITE, nm, tr)
        got, st, e = chk.summ(f, [None, None], ['l', 'r'])
        chk.equal('site:' + nm, f, reals(less(payload(got) if nm != 'cmp' else got)), want, '%s() of two sites says which comes first' % nm)
    f = private(chk, 'event_comparison_predicate::event_comparison_ii')
    got, st, e = chk.summ(f, [None, None], ['l', 'r'])
    chk.equal('site:ordering', f, reals(less(got)), want, 'ordering of two sites')


def ulp_order(a, b, m):
    """-1, 0, 1: order of two floats that are equal within m units in the last
    place, over the bit patterns (a smaller float has a larger key)"""
    half = n_num(1 << 63)
    bits = lambda v: op('to_bits', v)
    key = lambda v: ite(n_cmp('lt', bits(v), half, F), n_sub(half, bits(v)), bits(v))
    d = n_sub(key(a), key(b))
    far = lambda x, out: ite(n_cmp('le', x, n_num(m), F), n_num(0), out)
    return ite(n_cmp('gt', d, n_num(0), F), far(d, n_num(-1)), far(n_neg(d), n_num(1)))


def ordering(n, k):
    o = 'core::cmp::Ordering'
    return n_sign(n, F, enum(o, 'Less', []), enum(o, 'Equal', []), enum(o, 'Greater', []), BOT)


def circles(chk, S):
    l, r = sym('l'), sym('r')
    lx, cx, cy, ix = [value_acc(chk, n, CE) for n in ('lower_x', 'x', 'y', 'get_index')]
    f = chk.method(CE, 'cmp', 'core::cmp::Ord')
    got, st, e = chk.summ(f, [None, None], ['l', 'r'])
    il, ir = ix(l), ix(r)
    raw_ = lambda i: raw(getv(i, 'Some', '0'))
    newest = n_sub(raw_(ir), raw_(il))
    order = lambda want: n_sign(n_sub(lx(l), lx(r)), R, *(n_sign(n_sub(cy(l), cy(r)), R, *x) if isinstance(x, tuple) else x
                                                           for x in (B(want < 0), tuple([B(want < 0), n_cmp(('lt', 'eq', 'gt')[want + 1], newest, n_num(0), F), B(want > 0), BOT]), B(want > 0), BOT)))
    both = lambda n: ite(n_and(is_some(il), is_some(ir)), n, BOT)
    for k, nm, pick in ((-1, 'less', less), (0, 'equal', equal), (1, 'greater', greater)):
        chk.equal('circle:' + nm, f, reals(both(pick(got))), reals(both(order(k))), 'circle events come by lower x, then y, then the newest first')
    p = chk.method(CE, 'partial_cmp', 'core::cmp::PartialOrd')
    g2, st, e = chk.summ(p, [None, None], ['l', 'r'])
    chk.equal('circle:partial', p, g2, models.some_of(got), 'partial order of circle events')
    f = chk.method(CE, 'eq', 'core::cmp::PartialEq')
    got, st, e = chk.summ(f, [None, None], ['l', 'r'])
    same = n_and(n_and(n_cmp('eq', cx(l), cx(r), R), n_cmp('eq', cy(l), cy(r), R)), n_cmp('eq', lx(l), lx(r), R))
    chk.equal('circle:eq', f, reals(got), reals(same), 'equal circle events have equal centre and lower x')
    f = private(chk, 'event_comparison_predicate::event_comparison_bif')
    got, st, e = chk.summ(f, [None, None], ['l', 'r'])
    chk.equal('site-circle', f, got, n_cmp('lt', ulp_order(px(S.point0(l)), lx(r), 64), n_num(0), F), 'a site comes before a circle event when its x is less by more than 64 ulps')
    f = private(chk, 'ulp_comparison')
    a, b = sym('a'), sym('b')
    got, st, e = chk.summ(f, [a, b, n_num(64)], ['a', 'b', 'm'])
    w = ulp_order(a, b, 64)
    for k, nm, pick in ((-1, 'less', less), (0, 'equal', equal), (1, 'greater', greater)):
        chk.equal('ulp:' + nm, f, pick(got), n_cmp('eq', w, n_num(k), F), 'comparison of two floats up to 64 ulps')


def nodes(chk, S):
    f = private(chk, 'node_comparison_predicate::node_comparison')
    dp = private(chk, 'distance_predicate::distance_predicate')
    ls, rs = value_acc(chk, 'left_site', KEY), value_acc(chk, 'right_site', KEY)
    # the distance predicate is C29's: here it is one relation of its arguments
    dist = lambda a, b, p: op('dist', a, b, p)
    seen = []

    def stub(c, a, b, p):
        seen.append(1)
        return dist(c.rd(a), c.rd(b), p)
    kw = dict(overrides={dp.key: stub})
    got, st, e = chk.summ(f, [None, None], ['l', 'r'], **kw)
    if not seen and dp.key not in graph.reach(chk.facts, [f]):
        raise Private('distance_predicate')
    l, r = sym('l'), sym('r')

    def site(k): return ite(n_cmp('gt', S.sorted_index(ls(k)), S.sorted_index(rs(k)), F), ls(k), rs(k))
    def point(s): return ite(lex(S.point0(s), S.point1(s)), S.point0(s), S.point1(s))

    def y(k, new):
        a, b = ls(k), rs(k)
        v = n_sub(px(S.point0(a)), px(S.point1(a)))
        old = n_and(S.is_segment(a), n_cmp('eq', v, n_num(0), F))
        up = py(S.point1(a)) if new else ite(old, py(S.point0(a)), py(S.point1(a)))
        d = n_sub(S.sorted_index(a), S.sorted_index(b))
        return n_sign(d, F, py(S.point0(b)), py(S.point0(a)), up), n_sign(d, F, n_num(-1), n_num(0), n_num(1))
    s1, s2 = site(l), site(r)
    p1, p2 = point(s1), point(s2)
    (n1, _), (o1, d1) = y(l, True), y(l, False)
    (n2, _), (o2, d2) = y(r, True), y(r, False)
    lt = lambda a, b, tie: n_sign(n_sub(a, b), F, TRUE, tie, FALSE)
    same = n_sign(n_sub(S.sorted_index(s1), S.sorted_index(s2)), F,
                  lt(o1, n2, ite(S.is_segment(s1), FALSE, n_cmp('lt', d1, n_num(0), F))),
                  lt(n1, n2, n_cmp('lt', d1, d2, F)),
                  lt(n1, o2, ite(S.is_segment(s2), TRUE, n_cmp('gt', d2, n_num(0), F))))
    # where the newest sites lie on one vertical line no distance is compared
    eqx = n_cmp('eq', px(p1), px(p2), F)
    chk.equal('node:same-x', f, ite(eqx, got, BOT), ite(eqx, same, BOT), 'order of two bisectors whose newest sites start at the same x')
    ltx, gtx = n_cmp('lt', px(p1), px(p2), F), n_cmp('gt', px(p1), px(p2), F)
    chk.equal('node:second-new', f, ite(ltx, got, BOT), ite(ltx, dist(ls(l), rs(l), p2), BOT), 'a new site on the right of the other bisector is placed by its arcs')
    chk.equal('node:first-new', f, ite(gtx, got, BOT), ite(gtx, n_not(dist(ls(r), rs(r), p1)), BOT), 'a new site is placed by the arcs of the other bisector')
    c = chk.method(KEY, 'cmp', 'core::cmp::Ord')
    k, st, e = chk.summ(c, [None, None], ['l', 'r'], **kw)
    chk.equal('key:less', c, less(k), got, 'keys are ordered by the node comparison')
    back, st, e = chk.summ(f, [None, None], ['r', 'l'], **kw)
    chk.equal('key:greater', c, greater(k), n_and(n_not(got), back), 'keys are ordered by the node comparison')
    c = chk.method(KEY, 'partial_cmp', 'core::cmp::PartialOrd')
    k2, st, e = chk.summ(c, [None, None], ['l', 'r'], **kw)
    chk.equal('key:partial', c, k2, models.some_of(k), 'partial order of keys')


SORTS = ('sort_by', 'sort_unstable_by', 'sort', 'sort_unstable')


def queue(chk, S):
    """the sites are sorted, freed of duplicates and numbered, in this order"""
    f = private(chk, 'builder::Builder::init_sites_queue')
    r, st, e = chk.summ(f, [None], ['b'])
    root = T('O', 'b')
    ps = {p for lp in e.loops for rt, p in lp.havoc if rt is root}
    if len(ps) != 1 or len(e.loops) != 1:
        raise Unsupported('the queue is not numbered by one loop')
    p = ps.pop()
    v = walk(st[root], p)
    if v.leaf is None:
        raise Unsupported('several ways to build the queue')
    m = map_loop(e, v.leaf)
    lp = m.lp
    ent = m.entry
    steps = []
    while ent.leaf is not None and ent.leaf.op == 'out':
        t = ent.leaf
        steps.append((str(t.a[0]).split('::')[-1], t.a[3:]))
        a = t.a[2]
        if a.op != '&':
            raise Unsupported('queue built by ' + shown(ent, 100))
        ent = L(a.a[0])
    steps.reverse()
    names = [x for x, _ in steps]
    chk.equal('queue:source', f, ent, walk(sym('b'), p), 'the queue holds the collected sites')
    if any(n not in SORTS + ('dedup',) for n in names):
        raise Unsupported('queue built by %s' % names)
    chk.ob('queue:sequence', 'dedup' in names and any(n in SORTS for n in names[:names.index('dedup')]) and not any(n in SORTS for n in names[names.index('dedup'):]) if 'dedup' in names else False,
           'the sites are sorted, then freed of duplicates, then numbered: %s does %s' % (chk.loc(f), names))
    for n, args in steps:
        if n in ('sort_by', 'sort_unstable_by'):
            c = args[0] if args else None
            g = chk.facts.fns.get(c.a[0]) if c is not None and c.op == 'fn' else None
            if g is None:
                chk.undecided('queue:order', 'the sites are sorted by an unrecognised comparison')
                continue
            got, st2, e2 = chk.summ(g, [None, None], ['l', 'r'])
            chk.equal('queue:order', g, reals(less(got)), reals(before(S, sym('l'), sym('r'))), 'the sites are sorted by the order of sites')
    l, r = sym('l'), sym('r')
    g = chk.method(SITE, 'eq', 'core::cmp::PartialEq')
    got, st2, e2 = chk.summ(g, [None, None], ['l', 'r'])
    same = lambda a, b: n_and(n_cmp('eq', px(a), px(b), F), n_cmp('eq', py(a), py(b), F))
    kind = n_not(n_xor(S.is_segment(l), S.is_segment(r)))
    chk.equal('site:eq', g, got, n_and(kind, n_and(same(S.point0(l), S.point0(r)), same(S.point1(l), S.point1(r)))), 'two sites are duplicates when they are the same point or the same segment')
    if m.pos is None:
        raise Unsupported('loop over the queue')
    chk.equal('queue:first', f, m.first, n_num(0), 'numbering starts at the first site')
    chk.equal('queue:bound', f, m.bound, op('len', m.entry), 'every site is numbered')
    # counters that step together with the position are the position
    same_as_pos = []
    for r2, p2 in lp.havoc:
        s2 = mu_sym(lp, r2, p2)
        if s2 is m.pos or r2 not in lp.entry or s2.op != 'mu':
            continue
        step = simplify_dc(cases([(gg, walk(b[r2], p2)) for gg, b in lp.backs]))
        if step is L(terms.padd(s2, terms.ONE)):
            if simplify_dc(walk(lp.entry[r2], p2)) is n_num(0):
                same_as_pos.append(terms.padd(s2, m.pos, -1))
    nx = simplify_dc(m.next)
    if nx.leaf is None or nx.leaf.op != 'vupd' or nx.leaf.a[0] is not v.leaf or nx.leaf.a[1] is not m.pos:
        raise Unsupported('numbering ' + shown(nx, 200))
    new, old = nx.leaf.a[2] if isinstance(nx.leaf.a[2], terms.Node) else L(nx.leaf.a[2]), L(T('idx', v.leaf, m.pos))
    for nm, want in (('sorted_index', L(m.pos)), ('point0', S.point0(old)), ('point1', S.point1(old)), ('is_inverse', S.is_inverse(old)), ('initial_index', S.initial_index(old)), ('is_segment', S.is_segment(old))):
        got = getattr(S, nm)(new)
        for z in same_as_pos:
            got = terms.subst_zero(got, z, {})
        chk.equal('queue:' + nm, f, got, want, '%s of a site after numbering' % nm)
