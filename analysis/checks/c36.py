"""The lists of a diagram are its elements, in the order of their ids.

The accessors of the three lists, their iterators and lengths, and the
operations on whole lists are summarised; the hull of the vertices is one pass
over all of them."""
from diag import *
from sweep import *
from c23 import AABB

RULE = 'summary of every operation on a whole list == all elements, from the first to the last'


def run(chk):
    r = roles(chk)
    me = sym('self_')
    lists = (('cells', r.d_cells, 'cell_iter', 'num_cells'), ('vertices', r.d_vertices, 'vertex_iter', 'num_vertices'), ('edges', r.d_edges, 'edge_iter', 'num_edges'))
    for name, field, it, num in lists:
        chk.part(it, iterator, chk, it, getf(me, field), name)
        f = chk.method(D, num)
        got, st, e = chk.summ(f, None, ['self_'])
        chk.equal(num, f, got, bind(getf(me, field), e.vlen), '%s() is the number of %s' % (num, name))
    for what in ('new', 'default'):
        f = chk.method(D, 'new') if what == 'new' else chk.method(D, 'default', 'core::default::Default')
        chk.part(what, empty, chk, what, f, lists)
    chk.part('clear', clear, chk, lists)
    chk.part('aabb', hull_of_all, chk, r)


def iterator(chk, it, vec, name):
    f = chk.method(D, it)
    got, st, e = chk.summ(f, None, ['self_'])
    x = simplify_dc(got)
    if x.leaf is None or x.leaf.op != 'S':
        raise Unsupported('iterator %s' % shown(got, 100))
    parts = dict(x.leaf.a[3])
    if set(parts) != {'r', 'pos', 'end'}:
        raise Unsupported('iterator %s' % shown(got, 100))
    at = bind(parts['r'], lambda t: e.read_ref(st, L(t)))
    chk.equal(it, f, at, vec, '%s() runs over the %s' % (it, name))
    chk.equal(it + ':from', f, parts['pos'], n_num(0), '%s() starts at the first' % it)
    chk.equal(it + ':to', f, parts['end'], bind(vec, e.vlen), '%s() ends after the last' % it)


def empty(chk, what, f, lists):
    argc = f.body['argc']
    got, st, e = chk.summ(f, None, ['n%d' % i for i in range(argc)])
    for name, field, it, num in lists:
        chk.equal('%s:%s' % (what, name), f, bind(getf(got, field), e.vlen), n_num(0), 'a new diagram has no %s' % name)


def clear(chk, lists):
    f = chk.method(D, 'clear')
    got, st, e = chk.summ(f, None, ['self_'])
    v = post(st, 'self_')
    for name, field, it, num in lists:
        chk.equal('clear:' + name, f, bind(getf(v, field), e.vlen), n_num(0), 'a cleared diagram has no %s' % name)


def hull_of_all(chk, r):
    f = chk.method(D, 'vertices_get_aabb')
    up = {}
    for n in ('update_vertex', 'update_coordinate'):
        g = chk.method(AABB, n)
        up[n] = g

    def grow(c, b, x, y):
        c.wr(b, u('grow', c.rd(b), deepval(c, x), deepval(c, y)))
        return UNIT
    res, st, e = chk.summ(f, None, ['self_'], overrides={up['update_vertex'].key: grow})
    x = simplify_dc(res)
    # the loop changes the box, or its only changing part
    part = []
    while x.leaf is not None and x.leaf.op == 'S' and len(x.leaf.a[3]) == 1:
        part.append(x.leaf.a[3][0][0])
        x = x.leaf.a[3][0][1]
    if x.leaf is None or x.leaf.op != 'mu':
        raise Unsupported('hull %s' % shown(res, 100))
    m = map_loop(e, x.leaf)
    if m.pos is None:
        raise Unsupported('loop guard %s' % shown(m.guard, 200))
    vs = getf(sym('self_'), r.d_vertices)
    v = bindn([vs, L(m.pos)], e.vidx)
    d, st2, e2 = chk.summ(chk.method(AABB, 'default', 'core::default::Default'))
    chk.equal('aabb:start', f, m.entry, fld(d, *part), 'the hull of all vertices starts empty')
    chk.equal('aabb:from', f, m.first, n_num(0), 'the hull begins with the first vertex')
    chk.equal('aabb:to', f, m.bound, bind(vs, e.vlen), 'the hull ends with the last vertex')
    want = fld(u('grow', simplify_dc(res), getf(v, r.v_x), getf(v, r.v_y)), *part)
    chk.equal('aabb:each', f, ite(m.guard, m.next, BOT), ite(m.guard, want, BOT), 'the hull grows by the position of each vertex')
