"""Navigation queries are the defined compositions of the stored links.

Every public navigation query of Diagram and SyncDiagram is summarised by
global value numbering (callees inlined) and its value number compared with
the composition of links that defines it: vertex1 = vertex0 of the twin,
rot_next = twin of prev, rot_prev = next of twin, finite = both ends present.
Both representations are compared with the same specification, so they agree
with each other."""
from diag import *

RULE = 'value number of each query == value number of its defining link composition, for an arbitrary link structure'


def run(chk):
    r = roles(chk)
    i = sym('e')
    for which, adt in (('D', D), ('S', SD)):
        v = View(r, which)
        known = v.known_edge(i)
        o = lambda x: x

        def q(name, want, optarg=False, proj=okpart, assume=None):
            f = chk.method(adt, name)
            arg = some(i) if optarg else i
            res, st, e = chk.summ(f, [None, arg], ['self_'])
            chk.count('queries')
            chk.equal('%s::%s' % (adt.split('::')[-1], name), f, proj(res), want, 'link composition of ' + name, assume)
        twin_known = v.known_edge(getv(v.twin(i), 'Some', '0'))
        q('edge_get_twin', v.twin(i))
        q('edge_get_next', v.next(i))
        if which == 'S':
            q('edge_get_prev', v.prev(i))
        # vertex0: Ok(option) for known edges
        both = n_and(is_some(v.v0(i)), is_some(v.v1(i)))
        # on edges whose links are in range; what happens elsewhere is C07
        out = L(T('outside'))
        def qd(name, want, domain, optarg=False):
            f = chk.method(adt, name)
            res, st, e = chk.summ(f, [None, some(i) if optarg else i], ['self_'])
            chk.count('queries')
            chk.equal('%s::%s' % (adt.split('::')[-1], name), f, ite(domain, okpart(res), out), ite(domain, some(want), out), 'value of %s on linked edges' % name)
        linked = n_and(known, is_some(v.andthen(v.twin(i), lambda t: v.get(v.E, t))))
        qd('edge_get_vertex0', v.v0(i), known)
        qd('edge_get_vertex1', v.v1(i), linked)
        qd('edge_is_finite', both, linked)
        qd('edge_is_infinite', n_not(both), linked)
        q('edge_rot_next', v.rot_next(i))
        if which == 'D':
            q('edge_rot_prev', v.rot_prev(i), True, lambda x: x)
            f = chk.method(adt, 'edge_rot_prev')
            res, st, e = chk.summ(f, [None, none()], ['self_'])
            chk.equal('Diagram::edge_rot_prev(None)', f, res, none(), 'rot_prev of no edge')
            q('edge_get_cell', v.link('cell', i))
        else:
            q('edge_rot_prev', v.rot_prev(i))
    # the edge's own accessors
    s = sym('self_')
    for name, role in (('twin', r.e_twin), ('next', r.e_next), ('prev', r.e_prev), ('cell', r.e_cell)):
        f = chk.method(EDGE, name)
        res, st, e = chk.summ(f, argnames=['self_'])
        chk.count('queries')
        chk.equal('Edge::' + name, f, okpart(res), getf(s, role), 'accessor ' + name)
    f = chk.method(EDGE, 'vertex0')
    res, st, e = chk.summ(f, argnames=['self_'])
    chk.equal('Edge::vertex0', f, res, getf(s, r.e_vertex0), 'accessor vertex0')
    chk.floor('queries', 18)
