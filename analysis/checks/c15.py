"""A circle event merges two arcs of the beach line as the sweep requires.

process_circle_event is summarised over a model of the beach line (list
positions, keys, node data), the event queue, the heap of end points and the
diagram whose operations are uninterpreted; so is the function that computes a
circle event.  On every path of the domain (an active event on top of the
queue, its node and the node before it in the beach line) the resulting state
must be that of the specified sequence of steps."""
from paths import *

RULE = 'summary of the event over an uninterpreted beach line, queue and diagram == specified transition, path by path'


def law(p, t):
    """laws of a list: what removing one position does to the others"""
    if t.op in ('prev', 'next', 'isok', 'athead') and t.a[0].op == 'rem':
        l, x = t.a[0].a
        before, after = T('prev', l, x), T('next', l, x)
        if t.op == 'athead' and t.a[1] is before:
            return T('athead', l, before)
        if t.op == 'prev' and t.a[1] is before:
            return T('prev', l, before)
        if t.op == 'next' and t.a[1] is before:
            return after
        if t.op == 'isok' and t.a[1] is after:
            return T('isok', l, after)
    if t.op == 'next' and t.a[1].op == 'prev' and t.a[1].a[0] is t.a[0]:
        return t.a[1].a[1]
    return t


def run(chk):
    chk.part('node', part_laws, chk)
    O = circles(chk, overrides(chk))
    P = Parts(chk)
    f, r, st, e = sweep(chk, 'process_circle_event', ['b', 'D'], O=O)
    b = sym('b')
    Bq = role_of(chk, CQ)
    q0 = getf(b, Bq)
    ev = u('qtop', q0)
    bli = value_acc(chk, 'beach_line_index', CE)(ev)
    last = getf(getv(bli, 'Some', '0'), '0')
    first = u('prev', sym('$list'), last)
    s0 = Sim(P)
    have = [is_some(bli), is_some(value_acc(chk, 'get_index', CE)(ev)), is_some(s0.data(last)), is_some(s0.data(first)),
            u('qactive', q0, getv(value_acc(chk, 'get_index', CE)(ev), 'Some', '0'))]
    lack = [u('qempty', q0), u('lempty', u('rem', sym('$list'), last)), n_cmp('eq', first, last, False)]
    assume = domain(have, lack)

    wants = []
    for c1 in (0, 1):
        for c2 in (0, 1):
            m = Sim(P)
            m.Q = q0
            s1, s3 = m.left(first), m.right(last)
            flip = n_and(n_and(n_not(P.is_segment(s1)), P.is_segment(s3)), same_point(P.point1(s3), P.point0(s1)))
            s3 = ite(flip, P.inverse(s3), s3)
            b1, b2 = P.edge(getv(m.data(first), 'Some', '0')), P.edge(getv(m.data(last), 'Some', '0'))
            a = (sym('D'), s1, s3, ev, b1, b2)
            dia, e0 = u('ins5', *a), struct(EIDX, (('0', u('ins5e', n_num(0), *a)),))
            m.K = vset(m.K, first, P.set_right(m.key(first), s3))
            m.D = vset(m.D, first, some(P.set_edge(getv(m.data(first), 'Some', '0'), e0)))
            nxt = m.next(last)
            m.L = u('rem', m.L, last)
            m.Q = u('qpop', m.Q)

            def at_left(k):
                k.drop_circle(first, c1)
                k.activate(k.left(k.prev(first)), s1, s3, first)
            m.when(n_not(u('athead', m.L, first)), at_left)

            def at_right(k):
                k.drop_circle(nxt, c2)
                k.activate(s1, s3, k.right(nxt), nxt)
            m.when(u('isok', m.L, nxt), at_right)
            wants.append((m.K, m.L, m.Q, dia, m.D, ite(m.fine, ok(UNIT), r)))
    got = (st[KEY], st[LIST], getf(st[T('O', 'b')], Bq), st[T('O', 'D')], st[DATA], r)
    NAMES = ('the keys of the beach line', 'the positions of the beach line', 'the queue of circle events', 'the diagram', 'the node data of the beach line', 'the result')
    for i, nm in enumerate(NAMES):
        agree(chk, f, 'merge:%d' % i, nm + ' after a circle event', got[i], [w[i] for w in wants], assume, law, e)


def same_point(p, q):
    return n_and(n_cmp('eq', getf(p, 'x'), getf(q, 'x'), False), n_cmp('eq', getf(p, 'y'), getf(q, 'y'), False))
