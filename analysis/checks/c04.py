"""A new vertex of the diagram joins three edges.

The function that inserts the edge of a circle event is summarised over an
arbitrary diagram (pairwise different edges, all of them known); every element
of the resulting diagram is compared, path by path, with the required one."""
from diag import *
from paths import *
from sweep import *

RULE = 'elements of the diagram after the insertion == specified elements, path by path'


class Two:
    """the two sites of a bisector"""

    def __init__(s, chk, a, b):
        acc = lambda n: value_acc(chk, n)
        seg, p0, p1 = acc('is_segment'), acc('point0'), acc('point1')
        sa, sb = seg(a), seg(b)
        same = lambda p, q: n_and(n_cmp('eq', getf(p, 'x'), getf(q, 'x'), False), n_cmp('eq', getf(p, 'y'), getf(q, 'y'), False))
        ends = lambda x, p: n_not(n_or(same(p0(x), p), same(p1(x), p)))
        s.primary = ite(sa, ite(sb, TRUE, ends(a, p0(b))), ite(sb, ends(b, p0(a)), TRUE))
        s.linear = ite(s.primary, ite(sa, sb, n_not(sb)), TRUE)
        s.cells = [acc('sorted_index')(x) for x in (a, b)]


class Edges:
    """the edges of a diagram before and after, one at a time"""

    def __init__(s, chk, r, e, D0, D1):
        s.chk, s.r, s.e = chk, r, e
        s.before, s.after = getf(D0, r.d_edges), getf(D1, r.d_edges)
        s.user = value_acc(chk, 'get_color', EDGE)
        s.linear, s.primary = value_acc(chk, 'is_linear', EDGE), value_acc(chk, 'is_primary', EDGE)
        s.names = {'id': r.e_id, 'cell': r.e_cell, 'vertex0': r.e_vertex0, 'twin': r.e_twin, 'next': r.e_next, 'prev': r.e_prev}

    def at(s, v, i): return bindn([v, i], s.e.vidx)
    def old(s, i): return s.at(s.before, i)
    def new(s, i): return s.at(s.after, i)

    def read(s, x):
        d = {k: getf(x, f) for k, f in s.names.items()}
        d.update(color=s.user(x), linear=s.linear(x), primary=s.primary(x))
        return d


def edge(i): return struct(EIDX, (('0', i),))
def cell(i): return struct(CIDX, (('0', i),))


def fresh(i, c, two, **kw):
    d = dict(id=edge(i), cell=some(cell(c)), vertex0=none(), twin=none(), next=none(), prev=none(), color=n_num(0), linear=two.linear, primary=two.primary)
    d.update(kw)
    return d


def check_edges(chk, f, e, E, wants, assume):
    """wants: name -> (index, required contents)"""
    for nm, (i, want) in wants.items():
        got = E.read(E.new(i))
        for k in want:
            chk.part('%s:%s' % (nm, k), agree, chk, f, '%s:%s' % (nm, k), '%s of %s' % (k, nm), got[k], [want[k]], assume, None, e)


def run(chk):
    r = roles(chk)
    f = inserters(chk)[1]
    names = ['D', 'a', 'c', 'event', 'e12', 'e23']
    res, st, e = chk.summ(f, None, names, distinct=lambda i, j: i is not j, inrange=lambda b, i: True)
    ref = lambda k: f.ty(f.body['locals'][k + 1]['ty'])[0] == 'ref'
    D0, a, c, ev, x12, x23 = [sym(n) for n in names]
    D1 = st[T('O', 'D')]
    E = Edges(chk, r, e, D0, D1)
    two = Two(chk, a, c)
    i12, i23 = getf(x12, '0'), getf(x23, '0')
    n = bind(E.before, e.vlen)
    n1 = n_add(n, n_num(1))
    t12o, t23o = [getf(E.old(i), r.e_twin) for i in (i12, i23)]
    assume = domain([is_some(t12o), is_some(t23o)])
    t12, t23 = [getv(t, 'Some', '0') for t in (t12o, t23o)]
    vl = bind(getf(D0, r.d_vertices), e.vlen)
    v = some(struct(VIDX, (('0', vl),)))
    keep = lambda i, **kw: (i, {**E.read(E.old(i)), **kw})
    other = sym('other')
    wants = {
        'the edge (A,B)': keep(i12, vertex0=v, prev=some(edge(n))),
        'the edge (B,C)': keep(i23, vertex0=v, prev=t12o),
        'the twin of (A,B)': keep(getf(t12, '0'), next=some(edge(i23))),
        'the twin of (B,C)': keep(getf(t23, '0'), next=some(edge(n1))),
        'the new edge of A': (n, fresh(n, two.cells[0], two, twin=some(edge(n1)), next=some(edge(i12)))),
        'the new edge of C': (n1, fresh(n1, two.cells[1], two, twin=some(edge(n)), vertex0=v, prev=t23o)),
        'any other edge': keep(other),
    }
    wants['the edge (A,B)'][1]['twin'] = t12o
    check_edges(chk, f, e, E, wants, assume)
    A = lambda k, what, got, want: chk.part(k, agree, chk, f, k, what, got, [want], assume, None, e)
    A('edges', 'the number of edges', bind(E.after, e.vlen), n_add(n, n_num(2)))
    A('cells', 'the cells', getf(D1, r.d_cells), getf(D0, r.d_cells))
    A('result', 'the returned edges', res, L(T('S', res.leaf.a[0], res.leaf.a[1], res.leaf.a[2], (('0', edge(n)), ('1', edge(n1))))))
    V0, V1 = getf(D0, r.d_vertices), getf(D1, r.d_vertices)
    A('vertices', 'the number of vertices', bind(V1, e.vlen), n_add(vl, n_num(1)))
    A('vertices:kept', 'any other vertex', bindn([V1, other], e.vidx), bindn([V0, other], e.vidx))
    nv = bindn([V1, vl], e.vidx)
    cacc = lambda k: value_acc(chk, k, CE)(ev)
    A('vertex:id', 'the id of the new vertex', getf(nv, r.v_id), struct(VIDX, (('0', vl),)))
    A('vertex:x', 'x of the new vertex', getf(nv, r.v_x), cacc('x'))
    A('vertex:y', 'y of the new vertex', getf(nv, r.v_y), cacc('y'))
    A('vertex:edge', 'the incident edge of the new vertex', getf(nv, r.v_inc), none())
    A('vertex:site', 'is_site_point() of the new vertex', value_acc(chk, 'is_site_point', VERTEX)(nv), cacc('is_site_point'))
    A('vertex:color', 'the colour of the new vertex', value_acc(chk, 'get_color', VERTEX)(nv), n_num(0))
