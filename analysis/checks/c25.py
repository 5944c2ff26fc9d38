"""A curved edge is drawn along its curve, from its first to its last point.

discretize is summarised for several segments, points and affine maps (numbers),
with the two end points of the edge, the allowed distance and everything the
subdivision loop carries left symbolic.  One iteration of the loop is then
compared with the definition by random interpretation: which points are
appended, when, and what remains on the stack."""
from rules import *
from fractions import Fraction as Q
from decimal import Decimal as D, localcontext
import random
import randeq
import terms

RULE = 'value number of one subdivision step over a symbolic loop state == append the point of the parabola when the chord is near enough, else split'
VU = CORE + '::visual_utils::VoronoiVisualUtils'
AF = CORE + '::visual_utils::SimpleAffine'
PT, LINE = CORE + '::geometry::Point', CORE + '::geometry::Line'

#            segment            point    centre  scale  offset
SETTINGS = [((2, 3, 13, 7), (3, 11), (4, -1), Q(3), (-6, 5)),
            ((5, -4, -9, 2), (7, 9), (-2, 3), Q(1, 2), (1, 8)),
            ((0, 6, 0, -8), (5, 1), (0, 0), Q(1), (0, 0)),
            ((-3, 2, 10, 2), (1, -7), (6, 6), Q(7, 3), (-4, 9)),
            ((3, 9, 2, 1), (-2, 4), (1, 2), Q(1, 50), (0, -1))]


def N(x): return n_num(Q(x))
def ar(*x): return struct('array', [(str(i), v if isinstance(v, Node) else N(v)) for i, v in enumerate(x)])
def pt(x, y): return struct(PT, [('x', N(x)), ('y', N(y))])


class Point(randeq.Point):
    """symbols and loop variables with given values; vectors are lists"""

    def __init__(s, fixed, lists, seed):
        super().__init__({}, seed)
        s.fixed, s.lists = fixed, lists

    def _term(s, t):
        if t.id in s.fixed:
            return s.fixed[t.id]
        if t.op == 'len':
            return D(len(s.list(t.a[0])))
        if t.op == 'idx':
            i = s.term(t.a[1])
            l = s.list(t.a[0])
            if not (i == int(i) and 0 <= i < len(l)):
                raise randeq.Undefined('index')
            if isinstance(l[int(i)], tuple):
                raise Unsupported('point used as number')
            return l[int(i)]
        if t.op in ('poly', 'sqrt', 'sum', 'let', 'div0'):
            return super()._term(t)
        raise Unsupported('value of %s' % show(t)[:120])

    def elem(s, n):
        n = s.node(n) if isinstance(n, Node) else L(n)
        t = n.leaf
        if t.op == 'S':
            return tuple(s.elem(v) for k, v in t.a[3])
        return s.term(t)

    def list(s, n):
        n = s.node(n) if isinstance(n, Node) else L(n)
        t = n.leaf
        if t.id in s.lists:
            return s.lists[t.id]
        if t.op == 'vnew':
            return []
        if t.op == 'vpush':
            return s.list(t.a[0]) + [s.elem(t.a[1])]
        if t.op == 'vpop':
            return s.list(t.a[0])[:-1]
        if t.op == 'vupd':
            l, i = list(s.list(t.a[0])), int(s.term(t.a[1]))
            if not 0 <= i < len(l):
                raise randeq.Undefined('index')
            l[i] = s.elem(t.a[2])
            return l
        raise Unsupported('vector %s' % show(t)[:120])

    def node(s, n):
        while n.leaf is None and n.atom.op == 'bv':
            raise Unsupported('condition %s' % show(n.atom)[:120])
        while n.leaf is None:
            a = n.atom
            if a.op not in ('sgn', 'fsgn'):
                raise Unsupported('condition %s' % show(a)[:120])
            n = n.ch[s.sign(a.a[0])]
        return n


def close(a, b): return abs(a - b) <= D(10) ** -30 * max(abs(a), abs(b), 1)


def run(chk):
    chk.opts['unroll'] = 0
    f = chk.method(VU, 'discretize')
    names = ['to_center_', 'scale', 'to_offset']
    g = chk.facts.adts[AF]['variants'][0]['fields']
    if sorted(x['name'] for x in g) != sorted(names):
        raise Private('fields of SimpleAffine')
    with localcontext() as c:
        c.prec = 120
        for i, cfg in enumerate(SETTINGS):
            chk.part('setting:%d' % i, setting, chk, f, i, cfg)
    chk.part('projection', projection, chk)


def affine(cfg):
    s, p, cen, k, off = cfg
    return struct(AF, [('to_center_', ar(*cen)), ('scale', ar(k, k)), ('to_offset', ar(*off))])


def projection(chk):
    """(point - start) . direction / length^2, in output coordinates"""
    f = chk.method(VU, 'point_projection')
    for i, cfg in enumerate(SETTINGS):
        seg, p, cen, k, off = cfg
        tx = lambda x: (x + cen[0]) * k + off[0]
        ty = lambda y: (y + cen[1]) * k + off[1]
        x, y = sym('x'), sym('y')
        line = struct(LINE, [('start', pt(*seg[:2])), ('end', pt(*seg[2:]))])
        r, st, e = chk.summ(f, [affine(cfg), ar(x, y), line], ['affine', 'point', 'segment'])
        ux, uy = (seg[2] - seg[0]) * k, (seg[3] - seg[1]) * k
        l = ux * ux + uy * uy
        want = n_add(n_mul(N(ux / l), n_sub(x, N(tx(seg[0])))), n_mul(N(uy / l), n_sub(y, N(ty(seg[1])))))
        chk.equal('projection:%d' % i, f, r, want, 'the projection of a point onto the line of a segment, in segment lengths from its start')


def setting(chk, f, i, cfg):
    seg, p, cen, k, off = cfg
    tx = lambda x: (x + cen[0]) * k + off[0]
    ty = lambda y: (y + cen[1]) * k + off[1]
    A, B = ar(sym('ax'), sym('ay')), ar(sym('bx'), sym('by'))
    d0 = L(T('vpush', T('vpush', T('vnew'), A), B))
    line = struct(LINE, [('start', pt(*seg[:2])), ('end', pt(*seg[2:]))])
    r, st, e = chk.summ(f, [pt(*p), line, sym('m'), affine(cfg), d0], ['point', 'segment', 'm', 'affine', 'd'])
    out = post(st, 'd')
    same = n_and(n_cmp('eq', sym('ax'), sym('bx'), True), n_cmp('eq', sym('ay'), sym('by'), True))
    chk.equal('same-ends:%d' % i, f, ite(same, out, BOT), ite(same, d0, BOT), 'two equal end points stay as they are')
    lps = [lp for lp in e.loops]
    if len(lps) != 1:
        raise Unsupported('%d loops' % len(lps))
    lp = lps[0]
    chk.count('loops')
    chk.equal('enter:%d' % i, f, lp.guard, n_not(same), 'different end points are discretized')
    # ------------------------------------------------ what the loop carries
    ov = sv = None
    scal = []
    for rt, path in lp.havoc:
        ent = walk(lp.entry[rt], path)
        ls = [t for t in leafset(simplify_dc(ite(lp.guard, ent, BOT))) if t.op not in ('bot',)]
        if rt is T('O', 'd'):
            ov = (rt, path, ent)
        elif ls and all(t.op in ('vpush', 'vnew') for t in ls):
            if sv:
                raise Unsupported('two stacks')
            sv = (rt, path, ent)
        elif ls and all(t.op in ('poly', 'sym') for t in ls):
            scal.append((rt, path, ent))
        else:
            raise Unsupported('loop variable %s' % shown(ent, 200))
    if not ov or not sv or not scal:
        raise Unsupported('the list, the stack and the current position are not loop variables')
    mo, ms = mu_sym(lp, *ov[:2]), mu_sym(lp, *sv[:2])
    mz = [mu_sym(lp, rt, pa) for rt, pa, ent in scal]
    # ------------------------------------------------ geometry (exact numbers)
    ux, uy = D((seg[2] - seg[0]) * k.numerator) / D(k.denominator), D((seg[3] - seg[1]) * k.numerator) / D(k.denominator)
    dd = lambda q: D(Q(q).numerator) / D(Q(q).denominator)
    sx, sy, px_, py_ = dd(tx(seg[0])), dd(ty(seg[1])), dd(tx(p[0])), dd(ty(p[1]))
    ll = (ux * ux + uy * uy).sqrt()
    ex, ey = ux / ll, uy / ll
    rr = (px_ - sx) * ex + (py_ - sy) * ey          # along the segment
    hh = ex * (py_ - sy) - ey * (px_ - sx)          # distance, signed

    def curve(q):
        y = ((q - rr) ** 2 + hh ** 2) / (2 * hh)
        return (sx + q * ex - y * ey, sy + q * ey + y * ex)

    def sagitta(q0, q1):
        """distance of the arc from its chord"""
        s = (q0 + q1 - 2 * rr) / (2 * hh)
        return (q1 - q0) ** 2 / (8 * abs(hh)) / (1 + s * s).sqrt()
    rnd = random.Random(i)

    def base(a, b, m=D(1), lists={}, z={}):
        fx = {T('sym', n).id: v for n, v in (('ax', a[0]), ('ay', a[1]), ('bx', b[0]), ('by', b[1]), ('m', m))}
        fx.update(z)
        return Point(fx, lists, 1)
    dec = lambda: D(rnd.randint(-10 ** 6, 10 ** 6)) / 10 ** 4
    # position variables: functions of the position along the segment only
    at = lambda q, w: (sx + q * ex - w * ey, sy + q * ey + w * ex)

    def psi(q):
        vals = []
        for w in (D(3), D(-7), dec()):
            P = base(at(q, w), at(q + 1, w))
            try:
                vals.append([P.term(P.node(ite(lp.guard, ent, BOT)).leaf) for rt, pa, ent in scal])
            except randeq.Undefined:
                return None
        for v in vals[1:]:
            if not all(close(x, y) for x, y in zip(v, vals[0])):
                return None
        return vals[0]
    # the scale of the position on the stack: affine in the position
    q0, q1, q2 = dec(), dec(), dec()

    def stack_entry(q, w=D(0)):
        P = base(at(q + 5, 2 - w), at(q, w))
        l = P.list(ite(lp.guard, sv[2], BOT))
        return l
    es = [stack_entry(q, w) for q, w in ((q0, D(0)), (q1, D(4)), (q2, D(-9)))]
    okst = all(len(l) == 1 and isinstance(l[0], D) for l in es)
    if okst:
        ka = (es[1][0] - es[0][0]) / (q1 - q0)
        kb = es[0][0] - ka * q0
        okst = ka != 0 and close(es[2][0], ka * q2 + kb)
    if not chk.ob('stack:%d' % i, okst, 'the subdivision starts with the position of the last point along the segment on the stack'):
        return
    enc = lambda q: ka * q + kb
    pos = [psi(q) for q in (q0, q1, q2)]
    if not chk.ob('start:%d' % i, None not in pos and any(all(close(v[j], enc(q)) for v, q in zip(pos, (q0, q1, q2))) for j in range(len(scal))),
                  'the subdivision starts at the position of the first point along the segment'):
        return
    P = base(at(q0, D(1)), at(q1, D(2)))
    ol = P.list(ite(lp.guard, ov[2], BOT))
    chk.ob('first:%d' % i, len(ol) == 1 and close(ol[0][0], at(q0, D(1))[0]) and close(ol[0][1], at(q0, D(1))[1]), 'the list holds only the first point before the subdivision')
    # ------------------------------------------------ one step
    bad, seen, panics = {}, set(), set()
    fail = lambda kk, text: bad.setdefault(kk, text)

    def step():
        q, n = dec(), dec()
        if q == n:
            return
        sg = sagitta(q, n)
        m = sg * (D(rnd.choice((0.3, 0.8, 0.97, 1.03, 1.2, 4))))
        z = {v.id: x for v, x in zip(mz, psi(q))}
        ostart = [(dec(), dec()) for _ in range(rnd.randint(1, 3))]
        sstart = [dec() for _ in range(rnd.randint(0, 2))] + [enc(n)]
        P = base(at(dec(), dec()), at(dec(), dec()), m, {mo.id: ostart, ms.id: sstart}, z)
        if P.node(lp.guard) is not TRUE:
            return
        turn = [b for g, b in lp.backs if P.node(g) is TRUE]
        for pn in e.panics:
            if P.node(pn['guard']) is TRUE:
                panics.add('%s at %s' % (pn['kind'], pn['sp']))
        if len(turn) != 1:
            fail('turn', 'with a position left on the stack the subdivision goes on: it stops at %s -> %s' % (q, n))
            return
        b = turn[0]
        o2, s2 = P.list(walk(b[ov[0]], ov[1])), P.list(walk(b[sv[0]], sv[1]))
        z2 = [P.term(P.node(walk(b[rt], pa)).leaf) for rt, pa, ent in scal]
        if sg <= m:
            seen.add('append')
            x = curve(n)
            if not (len(o2) == len(ostart) + 1 and o2[:-1] == ostart and close(o2[-1][0], x[0]) and close(o2[-1][1], x[1])):
                fail('append', 'a chord within the allowed distance appends the point of the parabola at its end')
            if s2 != sstart[:-1]:
                fail('taken', 'an appended position leaves the stack')
            if not all(close(u, v) for u, v in zip(z2, psi(n))):
                fail('advance', 'after appending a point the next chord starts there')
        else:
            seen.add('split')
            if o2 != ostart or not all(close(u, v) for u, v in zip(z2, psi(q))):
                fail('keep', 'a chord too far from the curve appends nothing and keeps its start')
            if not (len(s2) == len(sstart) + 1 and s2[:-1] == sstart and min(enc(q), enc(n)) < s2[-1] < max(enc(q), enc(n))):
                fail('split', 'a chord too far from the curve is split at a position in between')
    for trial in range(40):
        try:
            step()
        except randeq.Undefined as x:
            fail('value', 'every step is a number: %s' % x)
    chk.ob('step-kinds:%d' % i, seen == {'append', 'split'}, 'both kinds of steps occur')
    for kk in ('value', 'turn', 'append', 'taken', 'advance', 'keep', 'split'):
        chk.ob('%s:%d' % (kk, i), kk not in bad, bad.get(kk, kk))
    # ------------------------------------------------ the end
    for n in (1, 2, 3):
        for ns in (0, 1):
            q, w = dec(), dec()
            z = {v.id: x for v, x in zip(mz, psi(q))}
            ostart = [(dec(), dec()) for _ in range(n)]
            b = at(dec(), dec())
            P = base(at(dec(), dec()), b, D(1), {mo.id: ostart, ms.id: [enc(w)] * ns}, z)
            if ns == 0 and any(P.node(g) is TRUE for g, b_ in lp.backs):
                fail('stop', 'the subdivision ends with an empty stack')
                continue
            for pn in e.panics:
                if ns == 0 and P.node(pn['guard']) is TRUE:
                    panics.add('%s at %s' % (pn['kind'], pn['sp']))
            for l in ends(P, out, lp):
                if l[0] != ostart[0] or len(l) < 2:
                    fail('end-first', 'the list still starts with the first point')
                if not (close(l[-1][0], b[0]) and close(l[-1][1], b[1])):
                    fail('end-last', 'the list ends with the last point')
                if ns == 0 and n > 1 and l[:-1] != ostart[:-1]:
                    fail('end-points', 'the last point takes the place of the last computed point, the others stay')
    for kk in ('stop', 'end-first', 'end-last', 'end-points'):
        chk.ob('%s:%d' % (kk, i), kk not in bad, bad.get(kk, kk))
    chk.ob('panic:%d' % i, not panics, 'no panic for a list of two points' + ''.join(': ' + x for x in sorted(panics)))


def ends(P, out, lp):
    """the possible final lists: decisions about numbers of elements are taken
    at the point, how the loop was left is not known"""
    res = []

    def go(n):
        if n.leaf is not None:
            if n is not BOT:
                try:
                    res.append(P.list(n))
                except randeq.Undefined:
                    pass
            return
        a = n.atom
        if a.op in ('sgn', 'fsgn') and not any(t.op == 'mu' and t.id not in P.lists for t in subterms(a).values()):
            try:
                return go(n.ch[P.sign(a.a[0])])
            except randeq.Undefined:
                pass
        for c in n.ch:
            go(c)
    go(out)
    return res
