"""The circle of a site triple touches its sites.

The four fast circle functions are summarised with the error-tracking numbers
read as reals (C19 decides that they carry these), the exact recomputation
being one unknown function of its arguments.  The coordinates of the resulting
event are compared with the formulas of the tangent circle (circlespec.py) at
random points of every region of the inputs (random interpretation of value
numbers: different functions differ there with probability 1), and the formulas
themselves are checked to be tangent to the three sites at the same points."""
from circlespec import *
import algebra
import importlib
c26 = importlib.import_module('c26')
c29 = importlib.import_module('c29')
from c29 import private

RULE = 'value number of each coordinate of the circle event == tangent circle formula, by random interpretation in every region of site triples'
CE = c26.CE
KINDS = {'ppp': 3, 'pps': 2, 'pss': 1, 'sss': 0}
SAMPLES = 240
FLOOR = 8


def run(chk):
    terms.LET = 12
    S = c29.Sites(chk)
    for k in KINDS:
        chk.part(k, fast, chk, S, k)
        chk.part('exact:' + k, slow, chk, S, k)


def point(n):
    return struct(PT, [('x', sym(n + '.x')), ('y', sym(n + '.y'))])


def p2(n): return P2(getf(n, 'x'), getf(n, 'y'))


def segment(chk, n, inverse=False):
    """a segment site with unknown numbering and flags; its accessors give the
    points n0 and n1"""
    new = chk.method(SITE, 'new')
    a, b = point(n + '0'), point(n + '1')
    site = enum(CORE + '::site_event::Site', 'Segment', [('0', a), ('1', b)])
    v, st, e = chk.summ(new, [site, sym('i')], ['site', 'i'])
    w = v
    for f, _ in v.leaf.a[3]:
        names = {t.a[0] for t in subterms(getf(v, f)).values() if t.op == 'sym'}
        if not any(x.startswith(n) for x in names) and getf(v, f).leaf is not None and getf(v, f).leaf.op != 'S':
            w = setf(w, f, fld(sym(n), f))
    for q in (w,):
        if value_acc(chk, 'point0')(q) is not a and value_acc(chk, 'point1')(q) is not b:
            raise Private('SiteEvent end points')
    return w


class Event:
    """reading and writing the parts of a circle event"""

    def __init__(s, chk):
        s.name = {k: role_field(chk, chk.method(CE, k)) for k in ('x', 'y', 'lower_x', 'is_site_point')}
        s.get = {k: value_acc(chk, k, CE) for k in s.name}

    def set(s, ev, k, v): return setf(ev, s.name[k], v)


def exact(chk, kind, E_, index):
    """stand-in for the exact computation: sets the requested coordinates to an
    unknown function of the site coordinates"""
    g = private(chk, 'exact_circle_formation::' + kind)
    n = KINDS[kind]
    tys = [g.ty(l['ty']) for l in g.body['locals'][1:g.body['argc'] + 1]]
    refs = [t[0] == 'ref' for t in tys]
    m = 3 + (1 if index else 0)
    if refs != [False] * n + [True] * (3 - n) + [False] * (m - 3) + [True] + [False] * 3:
        raise Private('arguments of exact_circle_formation::' + kind)
    seen = []

    def h(c, *a):
        seen.append(1)
        pts = []
        for x, r in zip(a[:3], refs):
            if not r:
                pts.append(x)
            else:
                pts += [value_acc(chk, 'point0')(c.rd(x)), value_acc(chk, 'point1')(c.rd(x))]
        ev = c.rd(a[m])
        for k, fl in zip(('x', 'y', 'lower_x'), a[m + 1:]):
            ev = E_.set(ev, k, ite(fl, exact_value(kind, k, pts, a[3] if index else None), E_.get[k](ev)))
        c.wr(a[m], ev)
        return algebra.UNIT
    return g.key, h, seen


def exact_value(kind, k, pts, index):
    args = [z for p in pts for z in (getf(p, 'x'), getf(p, 'y'))]
    return op('exact:%s:%s' % (kind, k), *(args + ([index] if index is not None else [])))


def fast(chk, S, kind):
    f = private(chk, 'lazy_circle_formation::' + kind)
    idx = CORE + '::predicate::SiteIndex'
    E_ = Event(chk)
    new = chk.method(CE, 'new')
    ev, st, e = chk.summ(new, [sym('node')], ['node'])
    n = KINDS[kind]
    sites = [point(x) for x in 'pqr'[:n]] + [segment(chk, x) for x in 'stu'[:3 - n]]
    names = list('pqr'[:n]) + list('stu'[:3 - n])
    for ix in (('One', 'Two', 'Three') if kind in ('pps', 'pss') else (None,)):
        ov, sums = algebra.overrides(chk, algebra.FPT, algebra.DIF), []
        algebra.watch_sums(chk, ov, algebra.FPT, sums)
        k, h, seen = exact(chk, kind, E_, ix)
        ov[k] = h
        node = enum(idx, ix, []) if ix else None
        # equal up to rounding, over the reals: equal
        ov['approx::Ulps::eq'] = lambda c, s, a, b: n_cmp('eq', c.rd(a), c.rd(b), True)
        r, st, e = chk.summ(f, sites + ([node] if ix else []) + [ev], names + (['ix'] if ix else []) + ['ev'], overrides=ov, inrange=True)
        name = kind + (':' + ix if ix else '')
        chk.part(name, compare, chk, S, f, kind, ix, name, sites, names, r, E_, node, ev, sums)
        if not seen:
            chk.undecided(name + ':exact', 'the exact computation is never called')


class World(Point):
    """a point of the input space, with one choice of the coordinates whose
    tracked error is too large"""

    def __init__(s, env, seed, spec=None, large=(), factors=()):
        super().__init__(env, seed, flags=lambda t: 0)
        s.spec, s.large, s.factors, s.unknown = spec, large, factors, False

    def _term(s, t):
        if t.op == 'ulp':
            if s.large in ('none', 'all'):
                return Decimal(0 if s.large == 'none' else 10 ** 6)
            v = s.num(t.a[0]) if isinstance(t.a[0], terms.Node) else s.term(t.a[0])
            for k, c in s.spec.items():
                if any(close(v, c * f) for f in s.factors):
                    return Decimal(10 ** 6 if k in s.large else 0)
            s.unknown = True
            return Decimal(0)
        return super()._term(t)


def coordinates(sites_kind, rnd):
    """random integer coordinates; degenerate placements are made on purpose"""
    R = rnd.choice((2, 3, 5, 30, 1000, 10 ** 6))
    pts = {}
    v = lambda: [rnd.randint(-R, R), rnd.randint(-R, R)]
    for n in sites_kind:
        if n in 'pqr':
            pts[n] = v()
        else:
            pts[n + '0'], pts[n + '1'] = v(), v()
    segs = [n for n in sites_kind if n in 'stu']
    points = [n for n in sites_kind if n in 'pqr']
    how = rnd.randint(0, 5)
    if how <= 1 and len(segs) >= 2:
        a, b = rnd.sample(segs, 2)
        k = rnd.choice((-2, -1, 1, 2, 3))
        pts[b + '1'] = [pts[b + '0'][i] + k * (pts[a + '1'][i] - pts[a + '0'][i]) for i in (0, 1)]
    if how in (1, 2) and len(points) == 2 and segs:
        k = rnd.choice((-2, -1, 1, 2))
        pts['q'] = [pts['p'][i] + k * (pts[segs[0] + '1'][i] - pts[segs[0] + '0'][i]) for i in (0, 1)]
    if how in (2, 3) and points:
        for g in segs:
            pts[g + rnd.choice('01')] = list(pts[rnd.choice(points)])
    if how == 4 and len(segs) >= 2:
        pts[segs[1] + rnd.choice('01')] = list(pts[segs[0] + rnd.choice('01')])
    if how == 5 and segs:
        g = rnd.choice(segs)
        i = rnd.randint(0, 1)
        pts[g + '1'][i] = pts[g + '0'][i]
    return {k + '.' + c: x for k, p in pts.items() for c, x in zip('xy', p)}


def spec_of(kind, ix, names):
    P = lambda n: P2(sym(n + '.x'), sym(n + '.y'))
    if kind == 'ppp':
        a = [P(n) for n in names]
        return ppp(*a), a, []
    if kind == 'pps':
        s = (P('s0'), P('s1'))
        return pps(P('p'), P('q'), *s, ix == 'Two'), [P('p'), P('q')], [s]
    if kind == 'pss':
        s, t = (P('s0'), P('s1')), (P('t0'), P('t1'))
        return pss(P('p'), s, t, ix == 'Two'), [P('p')], [s, t]
    l = [(P(n + '0'), P(n + '1')) for n in names]
    return sss(l), [], l


def eqp(a, b): return n_and(n_cmp('eq', a.x.n, b.x.n, False), n_cmp('eq', a.y.n, b.y.n, False))


def regions(kind, w, pts, lines):
    """name of the region the point lies in, None when it is outside the domain"""
    n = lambda e: w.num(e.n)
    for s, e in lines:
        if w.node(eqp(s, e)).leaf is TRUE.leaf:
            return None
    same = lambda a, b: w.node(eqp(a, b)).leaf is TRUE.leaf
    if kind == 'ppp':
        return 'right' if n((pts[0] - pts[1]).cross(pts[1] - pts[2])) < 0 else None
    if kind == 'pps':
        (s, e), (p, q) = lines[0], pts
        if same(p, q):
            return None
        d = e - s
        # the sweep meets the points on the right of the segment, or as its ends
        if n(d.cross(p - s)) > 0 or n(d.cross(q - s)) > 0:
            return None
        par = 'parallel' if n((q - p).cross(d)) == 0 else 'oblique'
        sh = 'shared' if any(same(a, b) for a in pts for b in (s, e)) else 'apart'
        return par + ':' + sh
    if kind == 'pss':
        (s0, s1), (t0, t1) = lines
        p = pts[0]
        if any(same(p, a) for a in (s0, s1)) and any(same(p, a) for a in (t0, t1)):
            return 'common end'
        u, v = s0 - s1, t1 - t0
        o = n(u.cross(v))
        if o == 0:
            return 'parallel'
        return 'crossing:%s:%s' % ('left' if o > 0 else 'right', 'acute' if n(u.dot(v)) >= 0 else 'obtuse')
    return 'lines'


WANTED = {'ppp': ['right'], 'pps': ['parallel:apart', 'oblique:shared', 'oblique:apart'],
          'pss': ['common end', 'parallel', 'crossing:left:acute', 'crossing:left:obtuse', 'crossing:right:acute', 'crossing:right:obtuse'], 'sss': ['lines']}
AX = ('x', 'y', 'lower_x')


def sample(chk, kind, ix, names, visit, name):
    """visit(region, env, coordinates, seed) at points of every region"""
    xyl, pts, lines = spec_of(kind, ix, names)
    spec = dict(zip(AX, (e.n for e in xyl)))
    rnd = random.Random('%s %s' % (kind, ix))
    done, tries = {}, 0
    while tries < 40 * SAMPLES and (any(done.get(x, 0) < FLOOR for x in WANTED[kind]) or tries < SAMPLES):
        tries += 1
        env = coordinates(names, rnd)
        w = World(env, tries, large='none')
        reg = regions(kind, w, pts, lines)
        if reg is None or done.get(reg, 0) >= 4 * FLOOR:
            continue
        try:
            if reg == 'common end':
                x, y = w.num(pts[0].x.n), w.num(pts[0].y.n)
                num = dict(zip(AX, (x, y, x)))
            else:
                num = {k: w.num(spec[k]) for k in AX}
                if not touching(w, xyl, pts, lines):
                    raise Unsupported('the formula for %s is not tangent at %s' % (name, env))
        except Undefined:
            continue
        if visit(reg, env, num, tries):
            done[reg] = done.get(reg, 0) + 1
    chk.count('interpreted points', sum(done.values()))
    return done


def verdict(chk, f, kind, name, done, bad, nodes, text):
    for reg in WANTED[kind]:
        if done.get(reg, 0) < FLOOR:
            chk.undecided(name + ':' + reg, 'only %d points of the region %s' % (done.get(reg, 0), reg))
            continue
        b = {l: e for (g, l), e in bad.items() if g == reg}
        if b and unknown_ops(nodes):
            chk.undecided(name + ':' + reg, 'unknown operations: %s' % unknown_ops(nodes))
            continue
        chk.ob(name + ':' + reg, not b, '%s of sites %s (%s): %s computes another circle than the tangent one%s' % (
            text, name, reg, chk.loc(f), '' if not b else ', e.g. (%s) at %s' % ('; '.join(sorted(map(str, b))), list(b.values())[0])))


KNOWN = {'poly', 'sqrt', 'sum', 'let', 'sym', 'f', 'num', 'ulp', 'negsum', 'div0', 'S', 'ref', 'bool', 'nearly', 'disc', 'O', 'T', 'str'}


def unknown_ops(nodes):
    out = set()
    for n in nodes:
        for t in subterms(n).values():
            if t.op in ('call', 'out', 'mu', 'cont', 'next', 'rest') or (t.op == 'default'):
                out.add(terms.show(t)[:80])
    return sorted(out)[:3]


def compare(chk, S, f, kind, ix, name, sites, names, r, E_, node, ev, sums):
    xyl, pts, lines = spec_of(kind, ix, names)
    plist = []
    for n in names:
        plist += [point(n)] if n in 'pqr' else [point(n + '0'), point(n + '1')]
    spec = dict(zip(AX, (e.n for e in xyl)))
    other = {k: exact_value(kind, k, plist, node) for k in AX}
    agree.E, agree.ev = E_, ev
    bad, odd = {}, [0]

    def visit(reg, env, num, seed):
        common = reg == 'common end'
        factors = [Decimal(1)]
        if kind == 'ppp':
            factors.append(2 * World(env, seed).num((pts[0] - pts[1]).cross(pts[1] - pts[2]).n))
        vals = [c * g for c in num.values() for g in factors]
        apart = all(not close(a, b) for i, a in enumerate(vals) for b in vals[:i])
        for large in ('none',) if common else ('none', 'all') + (tuple((k,) for k in AX) if apart else ()):
            w = World(env, seed, num, large, factors)
            sel = {k: w.num(other[k]) if large == 'all' or k in large else num[k] for k in AX}
            c = algebra.cancels(w, sums, randeq.EPS) if large == 'none' else None
            if c:
                bad.setdefault((reg, '%s of numbers cancels in %s' % c[::-1]), env)
            same = agree(w, r, expected(w, kind, reg, sel, common, lines))
            if w.unknown:
                odd[0] += 1
            elif not same:
                bad.setdefault((reg, {'none': 'nothing recomputed', 'all': 'all recomputed'}.get(large) or 'only %s recomputed' % large), env)
        return True
    done = sample(chk, kind, ix, names, visit, name)
    verdict(chk, f, kind, name, done, bad, [r], 'circle')
    if odd[0] > sum(done.values()):
        chk.undecided(name + ':errors', 'the error that decides about the exact computation is not one of a coordinate')


def expected(w, kind, reg, out, common, lines):
    """(coordinates, kept?, is a site point?)"""
    keep = True
    if kind == 'pps' and reg.endswith('apart'):
        s, e = lines[0]
        d = e - s
        dx, dy, sx, sy = w.num(d.x.n), w.num(d.y.n), w.num(s.x.n), w.num(s.y.n)
        dot = ((out['x'] - sx) * dx + (out['y'] - sy) * dy) / (dx * dx + dy * dy)
        keep = -randeq.EPS <= dot <= 1 + randeq.EPS
    return out, keep, common


def agree(w, r, want):
    out, keep, common = want
    try:
        g = w.node(r)
        if g is BOT:
            return False
        if not keep:
            return w.node(is_some(g)).leaf is FALSE.leaf
        if w.node(is_some(g)).leaf is not TRUE.leaf:
            return False
        e = getv(g, 'Some', '0')
        E_ = agree.E
        ok = all(close(w.num(E_.get[k](e)), out[k]) for k in AX)
        sp = w.node(E_.get['is_site_point'](e)).leaf is TRUE.leaf
        rest = all(w.node(simplify_dc(getf(e, f))) is not BOT and (getf(e, f) is v or same_under_dc(getf(e, f), v))
                   for f, v in agree.ev.leaf.a[3] if f not in E_.name.values())
        return ok and sp == common and rest
    except Undefined:
        return False


def slow(chk, S, kind):
    """the exact computations: a requested coordinate is the one of the tangent
    circle, another one is left alone or is that one too"""
    f = private(chk, 'exact_circle_formation::' + kind)
    exact(chk, kind, None, kind in ('pps', 'pss'))
    idx = CORE + '::predicate::SiteIndex'
    E_ = Event(chk)
    n = KINDS[kind]
    names = list('pqr'[:n]) + list('stu'[:3 - n])
    sites = [point(x) for x in names[:n]] + [segment(chk, x) for x in names[n:]]
    for ix in (('One', 'Two', 'Three') if kind in ('pps', 'pss') else (None,)):
        name = 'exact:' + kind + (':' + ix if ix else '')
        chk.part(name, slow_one, chk, f, kind, ix, name, sites, names, E_, enum(idx, ix, []) if ix else None)


def slow_one(chk, f, kind, ix, name, sites, names, E_, node):
    ov, sums = algebra.overrides(chk, algebra.XINT, algebra.XFPT), []
    algebra.watch_sums(chk, ov, algebra.XFPT, sums)
    flags = [sym('redo ' + k) for k in AX]
    r, st, e = chk.summ(f, sites + ([node] if node else []) + [None] + flags, names + (['ix'] if node else []) + ['ev'] + ['f0', 'f1', 'f2'], overrides=ov, inrange=True, unroll=8)
    ev = post(st, 'ev')
    old = {k: E_.get[k](sym('ev')) for k in AX}
    now = {k: E_.get[k](ev) for k in AX}
    bad = {}

    def visit(reg, env, num, seed):
        if reg == 'common end':
            return False    # never asked for
        for bits in range(1, 8):
            ask = [k for i, k in enumerate(AX) if bits >> i & 1]
            w = Point(env, seed, flags=lambda t: int(any(t.op == 'sym' and t.a[0] == 'redo ' + k for k in ask)))
            c = algebra.cancels(w, sums, randeq.EPS)
            if c:
                bad.setdefault((reg, '%s of numbers cancels in %s' % c[::-1]), env)
            for k in AX:
                try:
                    v = w.num(now[k])
                    ok = close(v, num[k]) or (k not in ask and close(v, w.num(old[k])))
                except Undefined:
                    ok = False
                if not ok:
                    bad.setdefault((reg, '%s when asked for %s' % (k, ', '.join(ask))), env)
        return True
    done = sample(chk, kind, ix, names, visit, name)
    done['common end'] = FLOOR
    verdict(chk, f, kind, name, done, bad, list(now.values()), 'exact circle')
