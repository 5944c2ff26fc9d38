"""Roles of the diagram types, inferred from their public accessors."""
from rules import *

D = CORE + '::diagram::Diagram'
SD = CORE + '::sync_diagram::SyncDiagram'
EDGE = CORE + '::diagram::Edge'
CELL = CORE + '::diagram::Cell'
VERTEX = CORE + '::diagram::Vertex'
EIDX = CORE + '::diagram::EdgeIndex'
VIDX = CORE + '::diagram::VertexIndex'
CIDX = CORE + '::diagram::CellIndex'


class Roles:
    pass


def roles(chk):
    r = Roles()
    m = chk.method
    r.d_edges = role_field(chk, m(D, 'edges'))
    r.d_vertices = role_field(chk, m(D, 'vertices'))
    r.d_cells = role_field(chk, m(D, 'cells'))
    r.s_edges = role_field(chk, m(SD, 'edges'))
    r.s_vertices = role_field(chk, m(SD, 'vertices'))
    r.s_cells = role_field(chk, m(SD, 'cells'))
    r.e_id = role_field(chk, m(EDGE, 'id'))
    r.e_twin = role_field(chk, m(EDGE, 'twin'))
    r.e_cell = role_field(chk, m(EDGE, 'cell'))
    r.e_vertex0 = role_field(chk, m(EDGE, 'vertex0'))
    f = m(EDGE, 'next')
    r.e_next = only_disc_field(chk, f)
    r.e_prev = role_field(chk, m(EDGE, 'prev'))
    r.e_color = role_field(chk, m(EDGE, 'get_color'))
    r.v_id = role_field(chk, m(VERTEX, 'get_id'))
    r.v_x = role_field(chk, m(VERTEX, 'x'))
    r.v_y = role_field(chk, m(VERTEX, 'y'))
    r.v_inc = role_field(chk, m(VERTEX, 'get_incident_edge'))
    r.v_color = role_field(chk, m(VERTEX, 'get_color'))
    r.c_id = role_field(chk, m(CELL, 'id'))
    r.c_src = role_field(chk, m(CELL, 'source_index'))
    r.c_inc = role_field(chk, m(CELL, 'get_incident_edge'))
    r.c_color = role_field(chk, m(CELL, 'source_category'))
    es = [r.e_id, r.e_twin, r.e_cell, r.e_vertex0, r.e_next, r.e_prev, r.e_color]
    chk.ob('roles:edge', len(set(es)) == len(es), 'the public edge accessors (id, twin, cell, vertex0, next, prev, colour) read pairwise different fields: %s' % es)
    vs = [r.v_id, r.v_x, r.v_y, r.v_inc, r.v_color]
    chk.ob('roles:vertex', len(set(vs)) == len(vs), 'the vertex accessors (id, x, y, incident edge, colour) read pairwise different fields: %s' % vs)
    cs = [r.c_id, r.c_src, r.c_inc, r.c_color]
    chk.ob('roles:cell', len(set(cs)) == len(cs), 'the cell accessors (id, source index, incident edge, category) read pairwise different fields: %s' % cs)
    ds = [r.d_edges, r.d_vertices, r.d_cells]
    chk.ob('roles:diagram', len(set(ds)) == 3 and len({r.s_edges, r.s_vertices, r.s_cells}) == 3, 'edges(), vertices() and cells() return different collections')
    return r


def only_disc_field(chk, f):
    """field whose Option-ness decides the Result of accessor f"""
    res, st, e = chk.summ(f, argnames=['self_'])
    names = set()
    for at in atoms_in(res):
        if at.op == 'disc' and at.a[0].op == 'f':
            names.add(at.a[0].a[1])
    if len(names) != 1:
        raise Missing('accessor %s depends on %s' % (f.spath, sorted(names)))
    return names.pop()


def idx(adt, n):
    """index newtype around a number Node"""
    return L(T('sym', n))


def raw(i):
    return getf(i, '0')


class View:
    """the link structure of a symbolic diagram: lookups written as specs"""

    def __init__(s, r, which, self_name='self_'):
        s.r = r
        base = sym(self_name)
        s.E = getf(base, r.d_edges if which == 'D' else r.s_edges)
        s.V = getf(base, r.d_vertices if which == 'D' else r.s_vertices)
        s.C = getf(base, r.d_cells if which == 'D' else r.s_cells)

    def get(s, vec, i):
        """Option<element> for index newtype i"""
        k = raw(i)
        ln = bind(vec, ENG.vlen)
        return ite(n_cmp('lt', k, ln, False), some(bindn([vec, k], ENG.vidx)), none())

    def andthen(s, o, f):
        return ite(is_some(o), f(getv(o, 'Some', '0')), none())

    def link(s, name, i):
        """Option-valued link `name` of edge i (None when i is unknown)"""
        return s.andthen(s.get(s.E, i), lambda e: getf(e, getattr(s.r, 'e_' + name)))

    def twin(s, i): return s.link('twin', i)
    def next(s, i): return s.link('next', i)
    def prev(s, i): return s.link('prev', i)
    def v0(s, i): return s.link('vertex0', i)
    def v1(s, i): return s.andthen(s.twin(i), s.v0)
    def rot_next(s, i): return s.andthen(s.prev(i), s.twin)
    def rot_prev(s, i): return s.andthen(s.twin(i), s.next)
    def known_edge(s, i): return is_some(s.get(s.E, i))


class _E:

    distinct = staticmethod(lambda i, j: False)
    vlen = staticmethod(lambda b: Engine.vlen(_E, b))
    vidx = staticmethod(lambda b, i: Engine.vidx(_E, b, i))


ENG = _E
