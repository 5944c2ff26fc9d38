"""Finishing the diagram joins coinciding vertices and closes the cells.

The last step of a diagram is summarised loop by loop over an arbitrary
diagram: entry, condition, one iteration and the state afterwards are compared
with the specified ones, path by path.  Links read in turn are resolved by the
laws that twin is an involution and next and prev are inverse; the predicate
for coinciding vertices is uninterpreted here and judged by itself."""
from diag import *
from paths import *
from sweep import *
from c04 import edge
import c26
from c05 import head, single, u1

RULE = 'per-iteration summaries of the loops of the last step == specified steps, path by path'
DG = T('O', 'D')


class G:
    """a diagram the specification works on"""

    def __init__(s, r, e, D):
        s.r, s.e, s.D = r, e, D

    def copy(s): return G(s.r, s.e, s.D)
    def vec(s, k): return getf(s.D, getattr(s.r, 'd_' + k))

    def get(s, kind, name, o):
        """field of an element, both optional"""
        v = s.vec(kind)
        return ite(is_some(o), getf(bindn([v, getf(getv(o, 'Some', '0'), '0')], s.e.vidx), getattr(s.r, kind[0] + '_' + name)), none())

    def put(s, kind, name, o, x):
        i = getf(getv(o, 'Some', '0'), '0')
        v = s.vec(kind)
        new = setf(bindn([v, i], s.e.vidx), getattr(s.r, kind[0] + '_' + name), x)
        s.D = ite(is_some(o), setf(s.D, getattr(s.r, 'd_' + kind), bindn([v, i], lambda b, q: s.e.vset(b, q, new))), s.D)

    def move(s, kind, to, at, ident):
        v = s.vec(kind)
        new = setf(bindn([v, at], s.e.vidx), getattr(s.r, kind[0] + '_id'), struct(ident, (('0', to),)))
        s.D = setf(s.D, getattr(s.r, 'd_' + kind), bindn([v, to], lambda b, q: s.e.vset(b, q, new)))

    def twin(s, o): return s.get('edges', 'twin', o)
    def next(s, o): return s.get('edges', 'next', o)
    def prev(s, o): return s.get('edges', 'prev', o)
    def v0(s, o): return s.get('edges', 'vertex0', o)
    def rot_next(s, o): return s.twin(s.prev(o))
    def len(s, k): return bind(s.vec(k), s.e.vlen)


class Links:
    """laws of the links of one diagram, and frames of its loops"""

    def __init__(s, r, inverse=True):
        s.r, s.kept, s.inverse = r, {}, inverse
        s.back = {r.e_twin: r.e_twin}
        if inverse:
            s.back.update({r.e_next: r.e_prev, r.e_prev: r.e_next})

    def keep(s, mu, field, before):
        """a loop leaves a field (of the diagram, or of every edge) alone"""
        if mu is not before:
            s.kept[(mu, field)] = before

    def __call__(s, p, t):
        if t.op == 'near':          # symmetric, see near()
            return T('near', *sorted(t.a, key=lambda x: x.id))
        if t.op == 'f':
            b = t.a[0]
            k = s.kept.get((b, t.a[1]))
            if k is None and b.op == 'idx':
                v = s.kept.get((b.a[0], t.a[1]))
                if v is not None:
                    return p.term(T('f', T('idx', v, b.a[1]), t.a[1]))
            if k is not None:
                return p.node(k)
            # f(idx(E, x.g)) with f the inverse of g
            if b.op == 'idx' and t.a[1] in s.back:
                i = b.a[1]
                i = i.leaf if isinstance(i, Node) else i
                if i is not None and i.op == 'f' and i.a[1] == '0' and i.a[0].op == 'v' and i.a[0].a[1] == 'Some':
                    o = i.a[0].a[0]
                    if o.op == 'f' and o.a[1] == s.back[t.a[1]] and o.a[0].op == 'idx' and o.a[0].a[0] is b.a[0]:
                        j = o.a[0].a[1]
                        return some(edge(j if isinstance(j, Node) else L(j))).leaf
        return t


def near_fn(chk):
    out = []
    for g in chk.facts.fns.values():
        if g.body is None or g.kind != 'AssocFn' or g.body['argc'] != 2 or not g.spath.startswith(VERTEX + '::'):
            continue
        t = [g.ty(g.body['locals'][i]['ty']) for i in range(3)]
        if t[0] == ('prim', 'bool') and all(x[0] == 'ref' and x[2][:2] == ('adt', VERTEX) for x in t[1:]):
            out.append(g)
    if len(out) != 1:
        raise Private('the predicate for coinciding vertices: %s' % [g.spath for g in out])
    return out[0]


def near(chk, r):
    """coinciding vertices: both coordinates within 128 units in the last place"""
    f = near_fn(chk)
    got, st, e = chk.summ(f, None, ['a', 'b'])
    a, b = sym('a'), sym('b')
    same = lambda k: n_cmp('eq', c26.ulp_order(value_acc(chk, k, VERTEX)(a), value_acc(chk, k, VERTEX)(b), 128), n_num(0), False)
    agree(chk, f, 'near', 'whether two vertices coincide', got, [n_and(same('x'), same('y'))], domain([]), None, e)


def last_step(chk):
    """the function of the diagram that build ends with: no result, changes
    the diagram, calls the predicate for coinciding vertices"""
    fs = [g for g in chk.facts.fns.values() if g.body is not None and g.spath.startswith(D + '::') and g.name == 'finish' and g.body['argc'] == 1]
    if len(fs) != 1:
        raise Private('the last step of a diagram')
    return fs[0]


def run(chk):
    r = roles(chk)
    chk.part('near', near, chk, r)
    f = last_step(chk)
    O = {near_fn(chk).key: lambda c, a, b: u('near', deepval(c, a), deepval(c, b)),
         'std::vec::Vec::remove': remove, 'std::vec::Vec::truncate': lambda c, v, n: (c.wr(v, u('vcut', c.rd(v), n)), UNIT)[1]}
    res, st, e = chk.summ(f, None, ['D'], overrides=O, distinct=lambda i, j: i is not j, inrange=lambda b, i: True)
    S = Step(chk, r, f, e, st)
    chk.count('loops', len(e.loops))
    S.loops = list(e.loops)
    if len(S.loops) != 11:
        raise Private('the loops of the last step')
    S.run()


def remove(c, v, i):
    old = c.rd(v)
    c.wr(v, u('vrem', old, i))
    return bindn([old, i], c.eng.vidx)


class Step:
    def __init__(s, chk, r, f, e, st):
        s.chk, s.r, s.f, s.e, s.st = chk, r, f, e, st
        s.law, s.sizes = Links(r), []

    def A(s, key, what, got, want, law=None):
        s.chk.part(key, agree, s.chk, s.f, key, what, got, [want] if not isinstance(want, list) else want, s.known, law or s.law, s.e, s.sizes)

    def known(s, a):
        """every edge has a twin"""
        t = a.a[0]
        if a.op == 'disc' and t.op == 'f' and t.a[1] == s.r.e_twin and list(outcomes(a)) == ['None', 'Some']:
            return 1

    def D(s, lp):
        """(diagram at the head of a loop, diagram at its entry)"""
        d = before = lp.entry[DG]
        for root, p in lp.havoc:
            if root is not DG:
                continue
            cur = L(mu_sym(lp, root, p))
            if p == ():
                return cur, before
            if len(p) != 1:
                raise Private('the part of the diagram a loop changes')
            d = setf(d, p[0][1], cur)
        return d, before

    def numbers(s, lp, start=None):
        """(head, entry, step) of the places other than the diagram"""
        return [(head(lp, root, p), walk(single(lp)[1][root], p)) for root, p in lp.havoc if root is not DG]

    def run(s):
        i = s.pairs(0)
        if i is None:
            return
        for part in (s.incident, s.vertices, s.lines, s.close):
            i = part(i)

    # ----------------------------------------------------------- the parts
    def pairs(s, i):
        """coinciding vertices are joined, the other edges move up"""
        lp, inner = s.loops[i], s.loops[i + 1]
        cond, after = single(lp)
        d, before = s.D(lp)
        s.chk.ob('pairs:start', before is sym('D'), 'the pairs of edges are looked at in the diagram as it is')
        num = s.numbers(lp)
        its = [x for x in num if s.moves(x)]
        lasts = [x for x in num if not s.moves(x)]
        if len(its) != 1 or len(lasts) != 1:
            raise Private('the two places of the loop over pairs of edges')
        ((it, it0), it1), ((last, last0), last1) = its[0], lasts[0]
        s.A('pairs:first', 'the first pair of edges', it0, n_num(0))
        s.A('pairs:place', 'the first place', last0, n_num(0))
        s.A('pairs:step', 'the next pair of edges', it1, n_add(it, n_num(2)))
        go = n_cmp('lt', it, bind(getf(sym('D'), s.r.d_edges), s.e.vlen), False)
        nonempty = n_cmp('gt', bind(getf(sym('D'), s.r.d_edges), s.e.vlen), n_num(0), False)
        s.A('pairs:while', 'all pairs of edges are looked at', n_and(nonempty, cond), n_and(nonempty, go))
        g = G(s.r, s.e, d)
        me = some(edge(it))
        va, vb = g.v0(me), g.v0(g.twin(me))
        V = g.vec('vertices')
        at = lambda v: bindn([V, getf(getv(v, 'Some', '0'), '0')], s.e.vidx)
        near = n_and(n_and(is_some(va), is_some(vb)), u('near', at(va), at(vb)))
        # the edges around the vertex that goes
        dr, before_r = s.D(inner)
        s.A('join:start', 'the edges when the vertices of a pair are joined', getf(before_r, s.r.d_edges), getf(d, s.r.d_edges))
        (x, x0), x1 = s.one(s.numbers(inner), 'the loop around a vertex')
        twin = g.twin(me)
        s.A('join:first', 'the first edge around the vertex that goes', x0, g.rot_next(twin))
        q = G(s.r, s.e, dr)
        mu = getf(dr, s.r.d_edges)
        for n in ('id', 'cell', 'twin', 'next', 'prev', 'color'):
            s.law.keep(mu.leaf, getattr(s.r, 'e_' + n), getf(d, s.r.d_edges).leaf)
        cond_r, after_r = single(inner)
        more = n_not(same_edge(x, twin))
        s.A('join:while', 'the edges around the vertex that goes are all looked at', cond_r, more)
        q1 = q.copy()
        q1.put('edges', 'vertex0', x, va)
        s.A('join:edge', 'an edge around the vertex that goes', getf(after_r[DG], s.r.d_edges), ite(more, q1.vec('edges'), getf(after_r[DG], s.r.d_edges)))
        s.A('join:next', 'the next edge around the vertex that goes', x1, ite(more, q.rot_next(x), x1))
        # the pair goes
        h = q.copy()
        for a in (me, twin):
            p, n = q.prev(a), q.next(a)
            h.put('edges', 'next', p, n)
            h.put('edges', 'prev', n, p)
        linked = TRUE
        for a in (me, twin):
            linked = n_and(linked, n_and(is_some(g.prev(a)), is_some(g.next(a))))
        # the pair stays
        k = g.copy()
        e1, e2 = some(edge(last)), some(edge(n_add(last, n_num(1))))
        k.move('edges', last, it, EIDX)
        k.move('edges', n_add(last, n_num(1)), n_add(it, n_num(1)), EIDX)
        k.put('edges', 'twin', e1, e2)
        k.put('edges', 'twin', e2, e1)

        def mend(a, b):
            if_ = is_some(k.prev(a))
            m = k.copy()
            m.put('edges', 'next', m.prev(a), a)
            m.put('edges', 'prev', m.next(b), b)
            k.D = ite(if_, m.D, k.D)
        mend(e1, e2)
        mend(e2, e1)
        stay = ite(n_cmp('eq', it, last, False), getf(d, s.r.d_edges), k.vec('edges'))
        got = getf(after[DG], s.r.d_edges)
        go = n_and(nonempty, go)
        # the loop around the vertex has ended when its result is used
        s.A('pairs:edges', 'the edges after one more pair', got, ite(n_and(go, n_or(n_not(near), n_and(linked, n_not(more)))), ite(near, h.vec('edges'), stay), got))
        s.A('pairs:last', 'the place of the next pair', last1, ite(go, ite(near, last, n_add(last, n_num(2))), last1))
        # what is left behind the last place is dropped
        cut = s.loops[i + 2]
        reach = n_and(nonempty, n_not(n_cmp('lt', it, bind(getf(sym('D'), s.r.d_edges), s.e.vlen), False)))
        dc = s.cut('edges', cut, d, last, reach)
        s.now = ite(nonempty, dc, sym('D'))
        s.reach = ite(nonempty, n_and(reach, s.over), TRUE)
        return i + 3

    def cut(s, kind, lp, d, last, reach):
        fld_ = getattr(s.r, 'd_' + kind)
        num = s.numbers(lp) if len(lp.backs) == 1 else None
        dc, before = s.D(lp)
        (y, y0), y1 = s.one(num, 'the loop that drops the rest')
        cond, after = single(lp)
        s.A(kind + ':cut:from', 'the rest is dropped from the end', y0, bind(getf(before, fld_), s.e.vlen) if kind == 'vertices' else bind(getf(sym('D'), fld_), s.e.vlen))
        go = n_cmp('lt', last, y, False)
        s.A(kind + ':cut:while', 'the rest is dropped down to the last place', n_and(reach, cond), n_and(reach, go))
        s.A(kind + ':cut:one', 'one more dropped element', getf(after[DG], fld_), ite(n_and(reach, go), u('vrem', getf(dc, fld_), n_sub(y, n_num(1))), getf(after[DG], fld_)))
        s.A(kind + ':cut:next', 'the next element dropped', y1, n_sub(y, n_num(1)))
        s.A(kind + ':cut:start', 'the elements before the rest is dropped', ite(reach, getf(before, fld_), UNIT), ite(reach, getf(d, fld_), UNIT))
        s.over = n_not(go)
        return dc

    def one(s, xs, what):
        if not xs or len(xs) != 1:
            raise Private(what)
        return xs[0]

    def goes(s, key, what, cond, reach, go):
        s.A(key, what, n_and(reach, cond), n_and(reach, go))

    def steps(s, key, what, got, reach, want):
        s.A(key, what, got, ite(reach, want, got))

    def whole(s, lp, after=None):
        """(diagram at the head, at entry, after one iteration), with the parts
        the loop leaves alone noted"""
        d, before = s.D(lp)
        after = single(lp)[1][DG] if after is None else after
        for k in ('d_edges', 'd_vertices', 'd_cells'):
            name = getattr(s.r, k)
            cur = getf(d, name)
            if cur is not getf(before, name) and same_under_dc(getf(after, name), cur):
                s.law.keep(cur.leaf.a[0], name, getf(before, name))
        return d, before, after

    def moves(s, x):
        """a counter that every iteration advances by the same amount"""
        (y, y0), y1 = x
        return y1.leaf is not None and const_of(terms.padd(y1.leaf, y.leaf, -1)) not in (None, 0)

    def count(s, key, lp, first, step):
        """the counters of a loop; they are one number"""
        num = s.numbers(lp)
        out = [x for x in num if s.moves(x)]
        rest = [x for x in num if not s.moves(x)]
        if not out:
            raise Private('the counter of a loop')
        for n, ((y, y0), y1) in enumerate(out):
            s.A('%s:first:%d' % (key, n), 'where the counter starts', y0, n_num(first))
            s.A('%s:step:%d' % (key, n), 'how the counter goes on', y1, n_add(y, n_num(step)))
        y = [y for (y, y0), y1 in out]
        return y[0], {x.leaf: y[0] for x in y[1:]}, rest

    def incident(s, i):
        """cells and vertices learn one of their edges"""
        lp = s.loops[i]
        d, before, after = s.whole(lp)
        y, sub, rest = s.count('incident', lp, 0, 1)
        if rest:
            raise Private('what the loop over the edges changes')
        sb = lambda x: substitute(x, sub)
        s.A('incident:start', 'the diagram before the incident edges are noted', before, s.now)
        go = n_cmp('lt', y, bind(getf(s.now, s.r.d_edges), s.e.vlen), False)
        s.goes('incident:while', 'all edges are looked at', sb(single(lp)[0]), s.reach, go)
        reach = n_and(s.reach, go)
        g = G(s.r, s.e, d)
        me = some(edge(y))
        c, v = g.get('edges', 'cell', me), g.v0(me)
        q = g.copy()
        q.put('cells', 'inc', c, me)
        q.D = ite(is_some(g.get('cells', 'inc', c)), g.D, q.D)
        q.put('vertices', 'inc', v, me)
        for k in ('edges', 'vertices', 'cells'):
            got = getf(sb(after), getattr(s.r, 'd_' + k))
            s.steps('incident:' + k, 'the %s after one more edge' % k, got, reach, q.vec(k))
        s.now = d
        s.reach = n_and(s.reach, n_not(go))
        return i + 1

    def vertices(s, i):
        """vertices without edges go, the others move up"""
        lp, inner, cut = s.loops[i:i + 3]
        d, before, after = s.whole(lp)
        num = s.numbers(lp)
        it = [x for x in num if s.moves(x)]
        opt = lambda v: any(t.op == 'S' and t.a[0] == OPTION for t in leafset(v))
        last = [(y, y0, y1) for (y, y0), y1 in num if opt(y0)]
        nxt = [(y, y0, y1) for (y, y0), y1 in num if not opt(y0) and not s.moves(((y, y0), y1))]
        if not (len(it) == len(nxt) == len(last) == 1 and len(num) == 3):
            raise Private('the places of the loop over the vertices')
        ((it, it0), it1), (p, p0, p1), (last, last0, last1) = it[0], nxt[0], last[0]
        s.A('vertices:from', 'the first vertex', it0, n_num(0))
        s.A('vertices:step', 'the next vertex', it1, n_add(it, n_num(1)))
        g0 = G(s.r, s.e, s.now)
        n = g0.len('vertices')
        nonempty = n_cmp('gt', n, n_num(0), False)
        reach = n_and(s.reach, nonempty)
        s.steps('vertices:start', 'the diagram before unused vertices are dropped', before, reach, s.now)
        s.steps('vertices:first', 'the first place for a vertex', last0, reach, some(struct(VIDX, (('0', n_num(0)),))))
        s.steps('vertices:second', 'the second place for a vertex', p0, reach, n_num(1))
        go = n_cmp('lt', it, n, False)
        on = n_and(n_and(reach, is_some(last)), go)
        g = G(s.r, s.e, d)
        me = some(struct(VIDX, (('0', it),)))
        inc = g.get('vertices', 'inc', me)
        to = getf(getv(last, 'Some', '0'), '0')
        stays = n_cmp('eq', it, to, False)
        m = g.copy()
        m.move('vertices', to, it, VIDX)
        # the edges around a vertex that moves
        di, before_i, after_i = s.whole(inner)
        (x, x0), x1 = s.one(s.numbers(inner), 'the loop around a vertex that moves')
        moves = n_and(n_and(on, is_some(inc)), n_not(stays))
        for k in ('edges', 'vertices', 'cells'):
            s.steps('move:' + k, 'the %s when a vertex has moved' % k, getf(before_i, getattr(s.r, 'd_' + k)), moves, m.vec(k))
        s.steps('move:first', 'the first edge of a vertex that moves', x0, moves, inc)
        q = G(s.r, s.e, di)
        old = q.vec('edges')
        for k in ('id', 'cell', 'twin', 'next', 'prev', 'color'):
            s.law.keep(old.leaf, getattr(s.r, 'e_' + k), getf(d, s.r.d_edges).leaf)
        q1 = q.copy()
        q1.put('edges', 'vertex0', x, last)
        s.steps('move:edge', 'an edge of a vertex that moves', getf(after_i, s.r.d_edges), moves, q1.vec('edges'))
        s.steps('move:next', 'the next edge of a vertex that moves', x1, moves, q.rot_next(x))
        around = same_edge(q.rot_next(x), inc)
        s.goes('move:while', 'all edges of a vertex that moves are looked at', single(inner)[0], moves, n_not(around))
        for k in ('edges', 'vertices', 'cells'):
            got = getf(after, getattr(s.r, 'd_' + k))
            want = ite(is_some(inc), ite(stays, g.vec(k), ite(around, q1.vec(k), got)), g.vec(k))
            s.steps('vertices:' + k, 'the %s after one more vertex' % k, got, on, want)
        settled = n_or(n_or(stays, around), n_not(is_some(inc)))
        on = n_and(on, settled)
        s.goes('vertices:while', 'all vertices are looked at', single(lp)[0], n_and(n_and(reach, is_some(last)), n_or(n_not(go), settled)), go)
        s.steps('vertices:last', 'the place of the next vertex', last1, on, ite(is_some(inc), ite(n_cmp('lt', p, n, False), some(struct(VIDX, (('0', p),))), none()), last))
        s.steps('vertices:next', 'the place after that', p1, on, ite(is_some(inc), ite(n_cmp('lt', p, n, False), n_add(p, n_num(1)), p1), p))
        over = n_and(reach, n_not(go))
        dc = s.cut('vertices', cut, d, to, n_and(over, is_some(last)))
        s.now = ite(nonempty, ite(is_some(last), dc, d), s.now)
        s.reach = ite(nonempty, n_and(over, ite(is_some(last), s.over, TRUE)), s.reach)
        return i + 3

    def lines(s, i):
        """without vertices the edges are lines: two by two"""
        lp = s.loops[i]
        d, before, after = s.whole(lp)
        y, sub, rest = s.count('lines', lp, 3, 2)
        if len(rest) != 2:
            raise Private('the places of the loop over lines')
        sb = lambda x: substitute(x, sub)
        cond = sb(single(lp)[0])
        ats = {a.a[0] for a in atoms_in(cond)}
        rest.sort(key=lambda x: x[0][0].leaf not in ats)
        ((nx, nx0), nx1), ((e1, e10), e11) = rest
        g0 = G(s.r, s.e, s.now)
        n = g0.len('edges')
        s.sizes += [(n_sub(n_num(0), x).leaf, '<=') for x in leaves_of(g0.len('vertices'))]
        s.none = n_cmp('eq', g0.len('vertices'), n_num(0), False)
        reach = n_and(n_and(s.reach, s.none), n_cmp('gt', n, n_num(0), False))
        s.lined = reach
        h = g0.copy()
        zero = some(edge(n_num(0)))
        h.put('edges', 'next', zero, zero)
        h.put('edges', 'prev', zero, zero)
        s.steps('lines:start', 'the edges after the first line edge', getf(before, s.r.d_edges), reach, h.vec('edges'))
        at = lambda k, wrap: ite(n_cmp('lt', k, n, False), some(wrap(k)), none())
        s.steps('lines:first', 'the edge the first pair starts with', e10, reach, at(n_num(1), edge))
        s.steps('lines:second', 'the other edge of the first pair', nx0, n_and(reach, n_cmp('gt', n, n_num(1), False)), at(n_num(2), lambda k: k))
        s.goes('lines:while', 'all pairs of line edges are looked at', cond, reach, is_some(nx))
        reach = n_and(reach, is_some(nx))
        q = G(s.r, s.e, d)
        e2 = some(edge(getv(nx, 'Some', '0')))
        for a, b in ((e1, e2), (e2, e1)):
            q.put('edges', 'next', a, b)
            q.put('edges', 'prev', a, b)
        s.steps('lines:edges', 'the edges after one more pair', getf(sb(after), s.r.d_edges), n_and(reach, is_some(e1)), q.vec('edges'))
        s.steps('lines:next1', 'the first edge of the next pair', sb(e11), reach, at(y, edge))
        s.steps('lines:next2', 'the second edge of the next pair', sb(nx1), n_and(reach, n_cmp('lt', y, n, False)), at(n_add(y, n_num(1)), lambda k: k))
        t = G(s.r, s.e, d)
        t.put('edges', 'next', e1, e1)
        t.put('edges', 'prev', e1, e1)
        over = n_and(s.lined, n_not(is_some(nx)))
        s.steps('lines:end', 'the edges after the last line edge', sb(getf(s.st[DG], s.r.d_edges)), over, t.vec('edges'))
        return i + 1

    def close(s, i):
        """the rays of an open cell follow each other"""
        if len(s.loops) != i + 3:
            raise Private('the loops that close the cells')
        lp, left, right = s.loops[i:i + 3]
        cond, after = FALSE, None
        for c, st in lp.backs:
            after = st if after is None else {k: ite(c, st[k], after[k]) for k in after if k in st}
            cond = n_or(cond, c)
        d, before, after_d = s.whole(lp, after[DG])
        num = [(head(lp, root, p), walk(after[root], p)) for root, p in lp.havoc if root is not DG]
        (y, y0), y1 = s.one(num, 'the counter of the cells')
        s.A('close:first', 'the first cell looked at', y0, n_num(0))
        g0 = G(s.r, s.e, s.now)
        reach = n_and(s.reach, n_not(s.none))
        s.steps('close:start', 'the diagram before the cells are closed', before, reach, s.now)
        go = n_cmp('lt', y, g0.len('cells'), False)
        g = G(s.r, s.e, d)
        inc = g.get('cells', 'inc', some(struct(CIDX, (('0', y),))))
        (x, x0), x1 = s.one(s.numbers(left), 'the loop to the left')
        (z, z0), z1 = s.one(s.numbers(right), 'the loop to the right')
        on = n_and(n_and(reach, go), is_some(inc))
        pm = g.prev(x)
        s.steps('left:first', 'where the way to the left starts', x0, on, inc)
        s.goes('left:while', 'the way to the left ends at an edge without predecessor or where it started', single(left)[0], on, n_and(is_some(pm), n_not(same_edge(pm, inc))))
        s.steps('left:next', 'the next edge to the left', x1, n_and(on, is_some(pm)), pm)
        is_open = n_and(on, n_not(is_some(pm)))
        s.steps('right:first', 'where the way to the right starts', z0, is_open, inc)
        s.goes('right:while', 'the way to the right ends at an edge without successor', single(right)[0], is_open, is_some(g.next(z)))
        s.steps('right:next', 'the next edge to the right', z1, n_and(is_open, is_some(g.next(z))), g.next(z))
        q = g.copy()
        q.put('edges', 'prev', x, z)
        q.put('edges', 'next', z, x)
        got = getf(after_d, s.r.d_edges)
        full = ite(same_edge(pm, inc), ite(is_some(g.prev(pm)), g.vec('edges'), got), got)
        want = ite(is_some(inc), ite(is_some(pm), full, ite(is_some(g.next(z)), got, q.vec('edges'))), g.vec('edges'))
        s.steps('close:edges', 'the edges after one more cell', got, n_and(reach, go), want)
        again = n_or(n_not(is_some(inc)), ite(is_some(pm), n_and(same_edge(pm, inc), is_some(g.prev(pm))), n_not(is_some(g.next(z)))))
        s.goes('close:while', 'all cells are looked at', cond, n_and(reach, n_or(n_not(go), again)), go)
        s.steps('close:next', 'the next cell', y1, n_and(n_and(reach, go), again), n_add(y, n_num(1)))
        for k in ('edges', 'vertices', 'cells'):
            s.steps('end:' + k, 'the %s at the end' % k, getf(s.st[DG], getattr(s.r, 'd_' + k)), n_and(reach, n_not(go)), g.vec(k))
        return i + 3


def leaves_of(n):
    return [L(t) for t in leafset(n) if t is not BOT.leaf]


def same_edge(a, b):
    """two optional indices are the same"""
    x, y = [getf(getv(o, 'Some', '0'), '0') for o in (a, b)]
    return ite(is_some(a), ite(is_some(b), n_cmp('eq', x, y, False), FALSE), n_not(is_some(b)))
