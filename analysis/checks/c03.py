"""A new pair of neighbouring sites gets its bisector and its cells.

The function that inserts the edge between two sites is summarised over an
arbitrary diagram with the making of a cell opaque; the making of a cell is
judged by itself: the loop that fills gaps by one iteration, the rest by its
summary."""
from c04 import *
from c05 import single
from gvn import Engine

RULE = 'elements of the diagram after the insertion == specified elements, path by path'


def cell_makers(chk):
    """functions of the diagram that append a cell"""
    out = []
    for g in chk.facts.fns.values():
        if g.kind != 'AssocFn' or not g.spath.startswith(D + '::') or g.body is None or g.body['argc'] != 4:
            continue
        t = [g.ty(g.body['locals'][i + 1]['ty']) for i in range(4)]
        if t[0][0] == 'ref' and [x[1] if x[0] == 'adt' else x[0] for x in t[1:]] == [CIDX, t[2][0], CORE + '::diagram::ColorBits'] and t[2][0] not in ('adt', 'ref'):
            out.append(g)
    if len(out) != 1:
        raise Private('the function that makes a cell')
    return out[0]


def run(chk):
    r = roles(chk)
    mk = cell_makers(chk)
    chk.part('cell', one_cell, chk, r, mk)
    chk.part('pair', pair, chk, r, mk)
    chk.part('single', single_site, chk, r, mk)


def want_cell(chk, r, new, i, src, cat):
    cc = field_names(chk.facts, CORE + '::diagram::ColorBits')[0]
    return {'id': (getf(new, r.c_id), i), 'source': (getf(new, r.c_src), src), 'edge': (getf(new, r.c_inc), none()),
            'category': (getf(new, r.c_color), getf(cat, cc))}


def one_cell(chk, r, f):
    res, st, e = chk.summ(f, None, ['D', 'i', 'src', 'cat'])
    i, src, cat = sym('i'), sym('src'), sym('cat')
    D0, D1 = sym('D'), st[T('O', 'D')]
    A = lambda k, what, got, want: chk.part('cell:' + k, agree, chk, f, 'cell:' + k, what, got, [want], domain([]), None, e)
    now = getf(D0, r.d_cells)
    if e.loops:
        if len(e.loops) != 1 or len(e.loops[0].havoc) != 1:
            raise Private('the loop that fills the gap before a cell')
        lp = e.loops[0]
        root, p = lp.havoc[0]
        if root is not T('O', 'D') or tuple(p) != (('f', r.d_cells),):
            raise Private('what the loop before a cell changes')
        chk.ob('cell:kept', walk(lp.entry[root], p) is now, 'the gap before a new cell is filled behind the cells there are')
        now = L(mu_sym(lp, root, p))
        cond, s = single(lp)
        ln = bind(now, e.vlen)
        go = n_cmp('lt', ln, getf(i, '0'), False)
        A('gap:while', 'a gap is filled while there are fewer cells than the index of the new one', cond, go)
        after = walk(s[root], p)
        A('gap:one', 'cells after one more filler', bind(after, e.vlen), ite(go, n_add(ln, n_num(1)), bind(after, e.vlen)))
        k = sym('k')
        A('gap:others', 'the cells before a filler', bindn([after, k], lambda b, q: far(e, b, q)), bindn([now, k], lambda b, q: far(e, b, q)))
        # no filler passes for the cell of a site
        fill = bindn([after, ln], e.vidx)
        chk.part('cell:gap:filler', lambda: chk.ob('cell:gap:filler', not_a_cell(getf(getf(fill, r.c_id), '0')), 'a filler has an id that no cell has'))
    got = getf(D1, r.d_cells)
    ln = bind(now, e.vlen)
    A('number', 'the number of cells', bind(got, e.vlen), n_add(ln, n_num(1)))
    k = sym('k')
    A('others', 'the cells there were', bindn([got, k], lambda b, q: far(e, b, q)), bindn([now, k], lambda b, q: far(e, b, q)))
    for nm, (g, w) in want_cell(chk, r, bindn([got, ln], e.vidx), i, src, cat).items():
        A(nm, nm + ' of a new cell', g, w)
    A('result', 'the returned cell', res, i)
    for nm, fl in (('edges', r.d_edges), ('vertices', r.d_vertices)):
        A(nm, 'the ' + nm, getf(D1, fl), getf(D0, fl))


def far(e, b, q):
    """what is at an index before anything appended"""
    return _Reader().vidx(b, q)


class _Reader(Engine):
    def __init__(s): pass
    distinct = staticmethod(lambda i, j: True)


def not_a_cell(v):
    c = const_of(v.leaf) if v.leaf is not None else None
    return c is not None and c >= 2 ** 31


def pair(chk, r, mk):
    f = inserters(chk)[0]
    O = {mk.key: lambda c, d, i, s, k: (c.wr(d, setf(c.rd(d), r.d_cells, u('mkcell', getf(c.rd(d), r.d_cells), *[deepval(c, x) for x in (i, s, k)]))), deepval(c, i))[1]}
    names = ['D', 'a', 'c']
    res, st, e = chk.summ(f, None, names, distinct=lambda i, j: i is not j, inrange=lambda b, i: True, overrides=O)
    D0, a, c = [sym(n) for n in names]
    D1 = st[T('O', 'D')]
    E = Edges(chk, r, e, D0, D1)
    two = Two(chk, a, c)
    n = bind(E.before, e.vlen)
    n1 = n_add(n, n_num(1))
    other = sym('other')
    count = bind(getf(D0, r.d_cells), e.vlen)
    assume = domain([], [n_cmp('lt', count, n_num(0), False)])
    check_edges(chk, f, e, E, {'the edge of the first site': (n, fresh(n, two.cells[0], two, twin=some(edge(n1)))),
                               'the edge of the second site': (n1, fresh(n1, two.cells[1], two, twin=some(edge(n)))),
                               'any other edge': (other, E.read(E.old(other)))}, assume)
    A = lambda k, what, got, want: chk.part('pair:' + k, agree, chk, f, 'pair:' + k, what, got, [want], assume, None, e)
    A('edges', 'the number of edges', bind(E.after, e.vlen), n_add(n, n_num(2)))
    A('vertices', 'the vertices', getf(D1, r.d_vertices), getf(D0, r.d_vertices))
    if res.leaf is None or res.leaf.op != 'S':
        raise Private('the result of an insertion')
    A('result', 'the returned edges', res, L(T('S', res.leaf.a[0], res.leaf.a[1], res.leaf.a[2], (('0', edge(n)), ('1', edge(n1))))))
    acc = lambda k, s: value_acc(chk, k)(s)
    made = lambda cs, s: u('mkcell', cs, cell(acc('sorted_index', s)), acc('initial_index', s), acc('source_category', s))
    C0 = getf(D0, r.d_cells)
    empty = n_cmp('eq', count, n_num(0), False)
    A('cells', 'the cells', getf(D1, r.d_cells), ite(empty, made(made(C0, a), c), made(C0, c)))


def single_site(chk, r, mk):
    O = {mk.key: lambda c, d, i, s, k: (c.wr(d, setf(c.rd(d), r.d_cells, u('mkcell', getf(c.rd(d), r.d_cells), *[deepval(c, x) for x in (i, s, k)]))), deepval(c, i))[1]}
    fs = [g for g in chk.facts.fns.values() if g.kind == 'AssocFn' and g.spath.startswith(D + '::') and g.body is not None and g.body['argc'] == 2
          and g.ty(g.body['locals'][2]['ty'])[0] == 'ref' and g.ty(g.body['locals'][2]['ty'])[-1][:2] == ('adt', SITE)]
    if len(fs) != 1:
        raise Private('the function that enters a single site')
    f = fs[0]
    res, st, e = chk.summ(f, None, ['D', 'a'], overrides=O)
    D0, D1, a = sym('D'), st[T('O', 'D')], st.get(T('O', 'a')) or sym('a')
    acc = lambda k: value_acc(chk, k)(a)
    A = lambda k, what, got, want: chk.part('single:' + k, agree, chk, f, 'single:' + k, what, got, [want], domain([]), None, e)
    A('cells', 'the cells', getf(D1, r.d_cells), u('mkcell', getf(D0, r.d_cells), cell(acc('sorted_index')), acc('initial_index'), acc('source_category')))
    for nm, fl in (('edges', r.d_edges), ('vertices', r.d_vertices)):
        A(nm, 'the ' + nm, getf(D1, fl), getf(D0, fl))
