"""User colours and internal flags do not disturb each other.

The colour functions are summarised and compared bit by bit: which bit of the
stored word each result bit is, and that nothing else of the element and of
the diagram changes.  The exterior colouring is summarised for one edge, its
recursive call being one opaque step."""
from diag import *
import bits
from bits import word, blast

RULE = 'bit-level equality of value numbers: stored colour word, flags, frame of every colour function; one step of the exterior colouring'
FREE = 27          # bits of a user colour that can be stored
R = None


def run(chk):
    global R
    R = roles(chk)
    cols = {R.e_color, R.v_color, R.c_color}
    bits.unknown_word = lambda t: t.op == 'f' and t.a[1] in cols or t.op == 'sym' and t.a[0] == 'c'
    for adt, nm, col in ((EDGE, 'edge', R.e_color), (VERTEX, 'vertex', R.v_color)):
        chk.part(nm, element, chk, adt, nm, col)
    chk.part('flags', flags, chk)
    chk.part('cell', cell, chk)
    chk.part('diagram', diagram, chk)
    chk.part('exterior', exterior, chk)
    chk.part('exterior:step', step, chk)


def same_word(chk, key, f, n, want, what):
    """every leaf of n is a word with these bits"""
    for t in leafset(n):
        if t is BOT.leaf:
            continue
        w = word(t)
        bad = [i for i in range(bits.W) if w[i] is not want[i]]
        chk.ob(key, not bad, '%s: %s has bits %s wrong: %s' % (what, chk.loc(f), bad, show(t)[:300]))


def element(chk, adt, nm, col):
    s = sym('self_')
    old = word(getf(s, col).leaf)
    c = word(sym('c').leaf)
    keep = 32 - FREE
    f = chk.method(adt, 'get_color')
    r, st, e = chk.summ(f, [s], ['self_'])
    same_word(chk, nm + ':get', f, r, old[keep:] + [FALSE] * keep, 'the colour of %s is the stored word without its lowest five bits' % nm)
    for m, want in (('set_color', c), ('or_color', [n_or(a, b) for a, b in zip(c, old[keep:] + [FALSE] * keep)])):
        f = chk.method(adt, m)
        r, st, e = chk.summ(f, [s, sym('c')], ['self_', 'c'])
        p = post(st, 'self_')
        same_word(chk, '%s:%s' % (nm, m), f, getf(p, col), old[:keep] + want[:FREE], '%s of %s stores the colour above the five internal bits, which stay' % (m, nm))
        for fd in field_names(chk.facts, adt):
            if fd != col:
                chk.equal('%s:%s:%s' % (nm, m, fd), f, getf(p, fd), getf(s, fd), '%s of %s changes nothing but the colour' % (m, nm))
        for x in e.panics:
            chk.ob('%s:%s:panic' % (nm, m), simplify_dc(x['guard']) is FALSE, '%s can panic' % m)
        chk.count('element functions')


def low_only(n):
    """the bits of unknown words a decision depends on"""
    return {(t.a[0], t.a[1]) for t in subterms_of(n) if t.op == 'bitof'}


def subterms_of(n):
    out = set()
    for a in atoms_in(n):
        out |= set(subterms(a).values())
    return out


def flags(chk):
    for adt, ms, col in ((EDGE, ('is_linear', 'is_curved', 'is_primary', 'is_secondary'), R.e_color), (VERTEX, ('is_site_point',), R.v_color)):
        vals = {}
        for m in ms:
            f = chk.method(adt, m)
            r, st, e = chk.summ(f, [sym('self_')], ['self_'])
            r = vals[m] = blast(r)
            w = word(getf(sym('self_'), col).leaf)
            dep = [i for i in range(bits.W) if depends(r, w[i])]
            chk.ob('flag:%s' % m, len(dep) == 1 and dep[0] < 32 - FREE and not others(r, w), '%s is one of the five internal bits: it depends on bits %s' % (m, dep))
            chk.count('flags')
        if adt is EDGE:
            f = chk.method(adt, 'is_curved')
            chk.ob('flag:curved', vals['is_curved'] is n_not(vals['is_linear']), 'an edge is curved exactly if it is not linear')
            chk.ob('flag:secondary', vals['is_secondary'] is n_not(vals['is_primary']), 'an edge is secondary exactly if it is not primary')
            chk.ob('flag:different', vals['is_linear'] is not vals['is_primary'], 'linear and primary are different bits')


def depends(n, bit):
    """does the decision n ask about this bit?"""
    return any(a.op == 'bv' and a.a[0] is bit.leaf for a in atoms_in(n)) or n is bit


def others(n, w):
    ls = {b.leaf for b in w}
    return [a for a in atoms_in(n) if not (a.op == 'bv' and a.a[0] in ls)]


CATS = {0: 'SinglePoint', 1: 'SegmentStart', 2: 'SegmentEnd', 8: 'Segment', 9: 'Segment'}


def cell(chk):
    s = sym('self_')
    w = word(getf(s, R.c_color).leaf)
    def is_low(k):
        r = TRUE
        for i in range(5):
            r = n_and(r, w[i] if k >> i & 1 else n_not(w[i]))
        return r
    f = chk.method(CELL, 'source_category')
    cat, st, e = chk.summ(f, [s], ['self_'])
    cat = blast(cat)
    enumk = CORE + '::diagram::SourceCategory'
    for k, name in CATS.items():
        chk.equal('category:%d' % k, f, ite(is_low(k), cat, BOT), ite(is_low(k), enum(enumk, name, []), BOT), 'the category of a cell whose internal bits are %d' % k)
    for m, yes in (('contains_point', (0, 1, 2)), ('contains_segment', (8, 9)), ('contains_segment_startpoint', (1,)), ('contains_segment_endpoint', (2,))):
        f = chk.method(CELL, m)
        r, st, e = chk.summ(f, [s], ['self_'])
        r = blast(r)
        for k in CATS:
            chk.equal('%s:%d' % (m, k), f, ite(is_low(k), r, BOT), ite(is_low(k), B(k in yes), BOT), '%s for a cell whose internal bits are %d' % (m, k))
        chk.count('cell functions')
    f = chk.method(CELL, 'source_index_2')
    r, st, e = chk.summ(f, [s], ['self_'])
    chk.equal('source_index_2', f, blast(getf(r, '1')), cat, 'the category that comes with the source index')
    chk.equal('source_index_2:index', f, getf(r, '0'), getf(s, R.c_src), 'the source index that comes with the category')
    f = chk.method(CELL, 'is_degenerate')
    r, st, e = chk.summ(f, [s], ['self_'])
    chk.equal('is_degenerate', f, r, n_not(is_some(getf(s, R.c_inc))), 'a cell without edge is degenerate')


class St:
    """states of the diagram as functions of earlier states"""

    def __init__(s, chk, **kw):
        s.chk, s.c, s.kw = chk, {}, kw

    def __call__(s, name, d, *args):
        """(result, next state) of the method on the diagram value d"""
        k = (name, d.id) + tuple(a.id for a in args)
        if k not in s.c:
            f = s.chk.method(D, name)
            ns = ['self_'] + ['a%d' % i for i in range(len(args))]
            r, st, e = s.chk.summ(f, [d] + list(args), ns, **s.kw)
            s.c[k] = r, st.get(T('O', 'self_'), d)
        return s.c[k]


def element_fn(chk, adt, m):
    f = chk.method(adt, m)
    def g(v, c):
        r, st, e = chk.summ(f, [v, c], ['self_', 'c'])
        return post(st, 'self_')
    return g


def diagram(chk):
    """the functions of the diagram act on the element with this id alone"""
    v = View(R, 'D')
    for m, w, vec, adt in (('edge_set_color', 'set_color', R.d_edges, EDGE), ('edge_or_color', 'or_color', R.d_edges, EDGE), ('vertex_set_color', 'set_color', R.d_vertices, VERTEX), ('vertex_or_color', 'or_color', R.d_vertices, VERTEX)):
        f = chk.method(D, m)
        i, c = sym('id'), sym('c')
        r, st, e = chk.summ(f, [None, i, c], ['self_', 'id', 'c'])
        s = sym('self_')
        cont = getf(s, vec)
        k = raw(i)
        old = bindn([cont, k], ENG.vidx)
        new = element_fn(chk, adt, w)(old, c)
        want = models_vset(cont, k, new)
        known = n_cmp('lt', k, bind(cont, ENG.vlen), False)
        p = post(st, 'self_')
        chk.equal('diagram:%s' % m, f, ite(known, getf(p, vec), BOT), ite(known, want, BOT), '%s changes the colour of the element with this id only' % m)
        for fd in field_names(chk.facts, D):
            if fd != vec:
                chk.equal('diagram:%s:%s' % (m, fd), f, ite(known, getf(p, fd), BOT), ite(known, getf(s, fd), BOT), '%s leaves the other parts of the diagram alone' % m)
        rt = f.ty(f.body['locals'][0]['ty'])
        if rt[0] == 'adt' and rt[1] == RESULT:
            chk.equal('diagram:%s:ok' % m, f, is_ok(r), known, '%s succeeds exactly for ids of the diagram' % m)
        chk.count('diagram functions')
    for m, cont, adt in (('edge_get_color', v.E, EDGE), ('vertex_get_color', v.V, VERTEX)):
        f = chk.method(D, m)
        optional = f.ty(f.body['locals'][2]['ty'])[1] == OPTION
        i = some(sym('id')) if optional else sym('id')
        r, st, e = chk.summ(f, [None, i], ['self_', 'id'])
        g = value_acc(chk, 'get_color', adt)
        el = v.get(cont, sym('id'))
        val = getv(r, 'Some', '0') if f.ty(f.body['locals'][0]['ty'])[1] == OPTION else getv(r, 'Ok', '0')
        chk.equal('diagram:%s' % m, f, ite(is_some(el), val, BOT), ite(is_some(el), g(getv(el, 'Some', '0')), BOT), '%s reads the colour of the element with this id' % m)
        chk.count('diagram functions')


def models_vset(cont, k, x):
    return bindn([cont, k], lambda b, i: L(T('vupd', b, i, x)))


def recursive(chk):
    """the function color_exterior_edges hands its edges to"""
    f = chk.method(D, 'color_exterior_edges')
    out = []
    for g in chk.facts.fns.values():
        if g.kind == 'AssocFn' and g.spath.startswith(CORE + '::diagram::') and g is not f and calls(chk, g, g.key) and calls(chk, f, g.key):
            out.append(g)
    if len(out) != 1:
        raise Private('the recursive colouring of exterior edges: %d' % len(out))
    return f, out[0]


def calls(chk, f, key):
    own = [f] + [g for k, g in chk.facts.fns.items() if k.startswith(f.key + '::{closure')]
    return any(b['term'].get('f', {}).get('fn', {}).get('key') == key for h in own for b in h.body['blocks'] if b['term']['k'] == 'call')


def shape(chk, g):
    """(position of the edge, of the colour) among the arguments"""
    tys = [g.ty(l['ty']) for l in g.body['locals'][1:g.body['argc'] + 1]]
    if len(tys) != 3 or tys[0][0] != 'ref' or ('prim', 'u32') not in tys:
        raise Private('arguments of ' + g.spath)
    c = tys.index(('prim', 'u32'))
    e = 3 - c
    t = tys[e]
    if t[0] == 'adt' and t[1] == OPTION and t[2][0][0] == 'adt' and t[2][0][1] == EIDX:
        return e, c, True
    if t[0] == 'adt' and t[1] == EIDX:
        return e, c, False
    raise Private('arguments of ' + g.spath)


def exterior(chk):
    f, g = recursive(chk)
    ei, ci, optional = shape(chk, g)
    seen = []

    def h(c, *a):
        seen.append((c.base, a[ei], a[ci]))
        return UNIT
    r, st, e = chk.summ(f, [None, sym('c')], ['self_', 'c'], overrides={g.key: h})
    if not seen:
        raise Unsupported('no colouring step')
    storable = FALSE
    for b in word(sym('c').leaf)[:FREE]:
        storable = n_or(storable, b)
    lps = [lp for lp in e.loops]
    if len(lps) != 1:
        raise Unsupported('%d loops' % len(lps))
    lp = lps[0]
    chk.count('loops')
    for i, (base, ee, cc) in enumerate(seen):
        b = blast(base)
        chk.ob('exterior:storable', simplify_dc(n_and(b, n_not(storable))) is FALSE,
               'edges are coloured only if the colour has a bit that can be stored (a coloured edge is not visited again); found a step when %s' % shown(simplify_dc(n_and(b, n_not(storable))), 300))
        chk.ob('exterior:colour', cc is sym('c'), 'the given colour is used: %s' % shown(cc, 100))
    chk.equal('exterior:always', f, blast(lp.guard), storable, 'every edge is visited if the colour can be stored')
    # one visit: position p of the edges, from the first to the last
    v = View(R, 'D')
    ln = bind(v.E, ENG.vlen)
    for root, path in lp.havoc:
        p = mu_sym(lp, root, path)
        if root not in lp.entry:
            continue
        nx = simplify_dc(cases([(gg, walk(b[root], path)) for gg, b in lp.backs]))
        if nx is L(terms.padd(p, terms.ONE)):
            break
    else:
        raise Unsupported('position of the edge')
    chk.equal('exterior:first', f, simplify_dc(ite(lp.guard, walk(lp.entry[root], path), BOT)), simplify_dc(ite(lp.guard, n_num(0), BOT)), 'the first edge is visited first')
    inside = n_cmp('lt', L(p), ln, False)
    go = FALSE
    for gg, b in lp.backs:
        go = n_or(go, gg)
    lim = lambda n: ite(storable, blast(n), BOT)
    chk.equal('exterior:all', f, lim(go), lim(inside), 'the visit goes on to the last edge')
    el = getf(bindn([v.E, L(p)], ENG.vidx), R.e_id)
    base, ee, cc = seen[-1]
    eid = getv(ee, 'Some', '0') if optional else ee
    own = lambda n: same_id(n, p, raw(el).leaf)
    i = struct(EIDX, (('0', L(p)),))
    tw = v.twin(i)
    k = n_and(inside, ite(is_some(tw), v.known_edge(getv(tw, 'Some', '0')), TRUE))
    inf = n_not(n_and(is_some(v.v0(i)), is_some(v.v1(i))))
    chk.equal('exterior:infinite', f, ite(k, own(lim(base)), BOT), ite(k, own(lim(inf)), BOT), 'the colouring starts at exactly the edges without one of the two vertices')
    on = lambda n: ite(n_and(k, inf), own(lim(n)), BOT)
    chk.equal('exterior:edge', f, on(raw(eid)), on(L(p)), 'the colouring starts at the visited edge')


def same_id(n, p, own):
    """the edge at position p has the id p"""
    cache, tc = {}, {}

    def term(t):
        if t is own:
            return p
        if t.op in ('idx', 'f', 'v', 'bitof', 'len'):
            r = tc.get(t)
            if r is None:
                a = tuple(term(x) if isinstance(x, terms.Term) else x for x in t.a)
                r = tc[t] = t if a == t.a else T(t.op, *a)
            return r
        if t.op == 'poly':
            out = terms.ZERO
            for mono, k in t.a[0]:
                m = terms.num(k)
                for a, e in mono:
                    m = terms.pmul(m, terms.ppow(term(terms._tlist[a]), e))
                out = terms.padd(out, m)
            return out
        return t

    def go(n):
        if n.leaf is not None:
            if n is BOT or n is TRUE or n is FALSE or not isinstance(n.leaf, terms.Term):
                return n
            return L(term(n.leaf))
        r = cache.get(n.id)
        if r is None:
            at = n.atom
            ch = [go(c) for c in n.ch]
            if at.op == 'sgn':
                r = atom_sgn(term(at.a[0]), at, ch)
            elif at.op == 'disc':
                t = term(at.a[0])
                r = case(at if t is at.a[0] else T('disc', t, *at.a[1:]), ch)
            else:
                r = case(at, ch)
            cache[n.id] = r
        return r
    return go(n)


def atom_sgn(t, at, ch):
    if t is at.a[0]:
        return case(at, ch)
    return n_sign(L(t), False, *ch[:3])


def step(chk):
    f, g = recursive(chk)
    ei, ci, optional = shape(chk, g)
    eid = sym('e')
    v = View(R, 'D')
    # an edge is not its own twin
    two = {raw(eid).leaf, raw(getv(getf(L(T('idx', v.E.leaf, raw(eid).leaf)), R.e_twin), 'Some', '0')).leaf}
    apart = lambda i, j: i is not j and {i, j} == two
    S = St(chk, distinct=apart)
    seen = []

    def h(c, *a):
        seen.append((c.base, a[0], a[ei], a[ci]))
        return UNIT
    args = [None, None, None]
    args[ei] = some(eid) if optional else eid
    args[ci] = sym('c')
    names = ['self_', None, None]
    names[ei], names[ci] = 'e', 'c'
    r, st, e = chk.summ(g, args, names, overrides={g.key: h}, distinct=apart)
    s, c = sym('self_'), sym('c')
    okv = lambda r: ite(is_ok(r), getv(r, 'Ok', '0'), none())
    val = lambda r: getv(r, 'Ok', '0')
    # the specification, in terms of the public functions
    known = n_and(v.known_edge(eid), n_and(is_some(v.twin(eid)), v.known_edge(getv(v.twin(eid), 'Some', '0'))))
    col = val(S('edge_get_color', s, eid)[0])
    done = op_and(col, c)
    known = n_and(known, n_not(n_cmp('eq', raw(eid), raw(getv(v.twin(eid), 'Some', '0')), False)))
    v0, v1 = v.v0(eid), v.v1(eid)
    v1i = getv(v1, 'Some', '0')
    vk = n_and(is_some(v1), n_cmp('lt', raw(v1i), bind(v.V, ENG.vlen), False))
    known = n_and(known, n_or(n_not(is_some(v1)), vk))
    d1 = S('edge_or_color', s, eid, c)[1]
    d2 = S('edge_or_color', d1, getv(v.twin(eid), 'Some', '0'), c)[1]
    d3 = S('vertex_set_color', d2, v1i, c)[1]
    el = getv(v.get(v.E, eid), 'Some', '0')
    prim = value_acc(chk, 'is_primary', EDGE)(el)
    site = value_acc(chk, 'is_site_point', VERTEX)(bindn([v.V, raw(v1i)], ENG.vidx))
    deadend = n_and(is_some(v0), n_not(is_some(v1)))
    spread = n_and(is_some(v1), n_and(n_not(site), prim))
    want = ite(done, s, ite(deadend, d1, ite(spread, d3, d2)))
    lim = lambda n: simplify_dc(blast(ite(known, n, BOT)))
    p = post(st, 'self_')
    for fd in field_names(chk.facts, D):
        a, b = lim(exhausted(purify(getf(p, fd)))), lim(purify(getf(want, fd)))
        chk.ob('step:%s' % fd, same_words(a, b), 'one step of the exterior colouring: %s becomes %s, required %s' % (fd, shown(a, 700), shown(b, 700)))
    if len(e.loops) != 1:
        raise Unsupported('%d loops' % len(e.loops))
    lp = e.loops[0]
    goes = ite(done, FALSE, ite(deadend, FALSE, spread))
    a, b = lim(lp.guard), lim(goes)
    chk.ob('step:spread', a is b, 'the colouring spreads over the end vertex exactly if the edge is primary and the vertex is not a site: it spreads when %s, required %s' % (shown(a, 500), shown(b, 500)))
    for base, dd, ee, cc in seen:
        chk.ob('step:colour', cc is c, 'the spreading uses the same colour')
    # the edges it spreads to: the rotation around the end vertex, once
    inc = getf(bindn([v.V, raw(v1i)], ENG.vidx), R.v_inc)
    var = loop_vars(lp, seen[-1][2] if optional else some(seen[-1][2]))
    if var is None:
        raise Unsupported('edges of the spreading loop')
    m, first, nxt, back = var
    here = blast(n_and(known, n_and(goes, is_some(inc))))
    on = lambda n: ite(here, blast(n), BOT)
    chk.equal('step:first', g, on(first), on(inc), 'the spreading begins with the incident edge of the end vertex')
    mi = getv(m, 'Some', '0')
    visit = lambda n: on(ite(is_some(m), n, BOT))
    around = []
    after = View(R, 'D')
    after.E, after.V, after.C = (getf(d3, x) for x in (R.d_edges, R.d_vertices, R.d_cells))
    for rot in (after.rot_next, after.rot_prev):
        nx = rot(mi)
        nxi = getv(nx, 'Some', '0')
        around.append(ite(n_and(is_some(nx), n_not(n_cmp('eq', raw(nxi), raw(getv(inc, 'Some', '0')), False))), nx, none()))
    a = visit(nxt)
    chk.ob('step:around', any(same_under_dc(a, visit(w)) for w in around), 'the spreading goes on with the next edge around the vertex until the first edge comes again: %s, required %s' % (shown(a, 600), shown(visit(around[0]), 600)))
    chk.equal('step:all', g, truth(visit(back)), visit(TRUE), 'no edge around the vertex ends the spreading')
    chk.equal('step:handed', g, truth(visit(seen[-1][0])), visit(TRUE), 'every edge around the vertex is handed to the colouring')


def truth(n):
    return bind(n, lambda t: L(t) if t.op in ('bool', 'bot') else ite(L(t), TRUE, FALSE))


def loop_vars(lp, x):
    """(value, first value, next value, goes on) of the loop variable x"""
    back = FALSE
    for gg, b in lp.backs:
        back = n_or(back, gg)
    for root, path in lp.havoc:
        m = L(mu_sym(lp, root, path))
        if root not in lp.entry or not (m is x or simplify_dc(ite(is_some(m), x, BOT)) is simplify_dc(ite(is_some(m), m, BOT))):
            continue
        return m, walk(lp.entry[root], path), cases([(gg, walk(b[root], path)) for gg, b in lp.backs]), back
    return None


def exhausted(n, cache=None):
    """the value after the loop has visited everything: its iterator is at the end"""
    cache = {} if cache is None else cache
    r = cache.get(n.id)
    if r is None:
        if n.leaf is not None:
            r = n
        else:
            ch = [exhausted(c, cache) for c in n.ch]
            if n.atom.op == 'disc' and any(t.op == 'mu' for t in subterms(n.atom).values()) and ch[0] is not BOT:
                r = ch[0]
            else:
                r = case(n.atom, ch)
        cache[n.id] = r
    return r


def op_and(a, b):
    """a & b != 0"""
    return bindn([purify(a), purify(b)], lambda x, y: n_not(bits.nothing([n_and(p, q) for p, q in zip(word(x), word(y))])))


def same_words(a, b):
    """the same decisions, and leaves that are equal up to equal words"""
    if a is b:
        return True
    if (a.leaf is None) != (b.leaf is None):
        return False
    if a.leaf is None:
        return a.atom is b.atom and all(same_words(x, y) for x, y in zip(a.ch, b.ch))
    return same_terms(a.leaf, b.leaf)


def same_terms(x, y):
    if x is y:
        return True
    if isinstance(x, Node) and isinstance(y, Node):
        return same_words(blast(x), blast(y))
    if isinstance(x, Node) and x.leaf is not None:
        x = x.leaf
    if isinstance(y, Node) and y.leaf is not None:
        y = y.leaf
    if not isinstance(x, terms.Term) or not isinstance(y, terms.Term):
        return x == y
    if bits.is_word(x) or bits.is_word(y):
        try:
            return all(p is q for p, q in zip(word(x), word(y)))
        except Unsupported:
            return False
    return x.op == y.op and len(x.a) == len(y.a) and all(same_args(p, q) for p, q in zip(x.a, y.a))


def same_args(p, q):
    if isinstance(p, tuple) and isinstance(q, tuple):
        return len(p) == len(q) and all(same_args(u, w) for u, w in zip(p, q))
    return same_terms(p, q)
