"""Edge iterators start at the given edge, follow one link, stop at the start.

The state of an iterator is found by shape: the value its constructor makes for
start edge s is a struct with one field holding Some(s) (the position) and the
others fixed.  For an arbitrary state (start s, position c) one call of next()
must yield c and move to link(c), or to the end when there is no such link or it
is s again; the end yields nothing and stays the end.  With the constructor this
is an induction over the number of calls, for every link structure."""
from diag import *

RULE = 'one-step summary of next() on an arbitrary iterator state == follow the link, stop at the start edge'


def run(chk):
    r = roles(chk)
    v, w = View(r, 'D'), View(r, 'S')
    m = chk.method
    chk.part('rot_next', one, chk, 'Diagram::edge_rot_next_iterator', m(D, 'edge_rot_next_iterator'), 'EdgeRotNextIterator', True, v.rot_next, CORE + '::diagram')
    chk.part('rot_prev', one, chk, 'Diagram::edge_rot_prev_iterator', m(D, 'edge_rot_prev_iterator'), 'EdgeRotPrevIterator', True, v.rot_prev, CORE + '::diagram')
    chk.part('sync_rot_next', one, chk, 'SyncDiagram::edge_rot_next_iterator', m(SD, 'edge_rot_next_iterator'), 'EdgeRotNextIterator', False, w.rot_next, CORE + '::sync_diagram')
    chk.part('cell', cell, chk, r, v)
    chk.floor('iterators', 4)


def leaf_of(n, what):
    n = simplify_dc(n)
    if n.leaf is None or n.leaf.op != 'S' or n.leaf.a[2]:
        raise Unsupported('state of the iterator of %s: %s' % (what, shown(n, 200)))
    return n


def position_field(state, s):
    """field of the state that holds Some(s)"""
    names = [k for k, x in state.leaf.a[3] if x is some(s)]
    if len(names) != 1:
        raise Unsupported('position of the iterator: %s' % shown(state, 200))
    return names[0]


def next_fn(chk, state):
    adt = state.leaf.a[0]
    c = chk.traitfn('core::iter::Iterator', 'next', lambda t: t[0] == 'adt' and t[1] == adt) or [f for (tr, n), fs in chk.facts.implfn.items() if n == 'next' and tr.endswith('Iterator') for f in fs if f.ty(f.d['impl_self'])[0] == 'adt' and f.ty(f.d['impl_self'])[1] == adt]
    if len(c) != 1:
        raise Missing('Iterator for ' + adt)
    return c[0]


def step(chk, key, state, pos, link):
    """the one-step law on the states reachable from `state`"""
    f = next_fn(chk, state)
    c = sym('cur')
    D0 = T('O', 'self_')

    def call(val):
        st = {}
        st[D0] = sym('self_')
        root = T('O', 'iter')
        st[root] = val
        e = Engine(chk.facts)
        res = e.call_fn(f, {}, [mkref(root)], st, TRUE)
        chk.functions.add(f.spath)
        for k in e.visited:
            if k in chk.facts.fns:
                chk.functions.add(chk.facts.fns[k].spath)
        return res, st[root], e
    g = setf(state, pos, some(c))
    res, after, e = call(g)
    for p in e.panics:
        chk.ob(key + ':panic', simplify_dc(p['guard']) is FALSE, '%s: next() can panic when %s' % (key, shown(p['guard'], 200)))
    chk.equal(key + ':yield', f, res, some(c), 'next() yields the current edge')
    lk = link(c)
    start = sym('start')
    n = getv(lk, 'Some', '0')
    want = ite(is_some(lk), ite(n_cmp('eq', raw(n), raw(start), False), none(), some(n)), none())
    wst = bind(purify(want), lambda t: setf(state, pos, L(t)))
    chk.equal(key + ':advance', f, norm(getf(after, pos)), norm(want), 'next() moves along the link and stops at the start edge')
    others = [k for k, _ in state.leaf.a[3] if k != pos]
    for k in others:
        chk.equal(key + ':keep:' + k, f, getf(after, k), getf(state, k), 'the rest of the iterator is fixed')
    res, after, e = call(setf(state, pos, none()))
    chk.equal(key + ':end', f, res, none(), 'an iterator at its end yields nothing')
    chk.equal(key + ':stays', f, getf(after, pos), none(), 'an iterator at its end stays there')
    chk.count('iterators')


def norm(n):
    return purify(n)


def one(chk, key, f, tyname, opt, link, mod):
    s = sym('start')
    res, st, e = chk.summ(f, [None, some(s) if opt else s], ['self_'])
    state = leaf_of(res, key)
    pos = position_field(state, s)
    step(chk, key, state, pos, link)
    if opt:
        res, st, e = chk.summ(f, [None, none()], ['self_'])
        empty = leaf_of(res, key)
        chk.equal(key + ':none', f, getf(empty, pos), none(), 'the iterator of no edge is empty')


def cell(chk, r, v):
    f = chk.method(D, 'cell_edge_iterator')
    c = sym('cell')
    res, st, e = chk.summ(f, [None, c], ['self_'])
    inc = v.andthen(v.get(v.C, c), lambda x: getf(x, r.c_inc))
    # the state made for an incident edge s
    s = getv(inc, 'Some', '0')
    full = leaf_under(res, is_some(inc))
    names = []
    for k in [k for k, _ in full.leaf.a[3]]:
        x = ite(is_some(inc), getf(res, k), BOT)
        if same_under_dc(x, ite(is_some(inc), inc, BOT)):
            names.append(k)
    if len(names) != 1:
        # an optional edge that is not the incident edge
        cand = [k for k, t in fields_of(chk, full.leaf.a[0]) if t[0] == 'adt' and t[1] == OPTION]
        if len(cand) == 1:
            chk.equal('cell_edge_iterator:start', f, getf(res, cand[0]), inc, 'the iterator of a cell starts at its incident edge')
            return
        raise Unsupported('position of the cell iterator: %s' % shown(full, 200))
    pos = names[0]
    chk.equal('cell_edge_iterator:start', f, getf(res, pos), inc, 'the iterator of a cell starts at its incident edge')
    # which field remembers the start: the one equal to the incident edge itself
    st2 = []
    for k, x in full.leaf.a[3]:
        y = getf(res, k)
        if k == pos or not all(t.op != 'S' or t.a[0] == EIDX for t in leafset(y)) or any(t.op == 'ref' for t in leafset(y)):
            continue
        y = ite(is_some(inc), raw(y), BOT)
        if same_under_dc(purify(y), purify(ite(is_some(inc), raw(s), BOT))):
            st2.append(k)
    if len(st2) != 1:
        raise Unsupported('start of the cell iterator')
    base = setf(setf(full, pos, some(sym('start'))), st2[0], sym('start'))
    step(chk, 'Diagram::cell_edge_iterator', base, pos, v.next)


def fields_of(chk, adt):
    a = chk.facts.adts[adt]
    return [(x['name'], chk.facts.ty(a['crate'], x['ty'])) for x in a['variants'][0]['fields']]


def leaf_under(n, g):
    n = simplify_dc(ite(g, n, BOT))
    ls = [t for t in leafset(n) if t.op != 'bot']
    if len(ls) != 1 or ls[0].op != 'S':
        raise Unsupported('state of the cell iterator: %s' % shown(n, 200))
    return L(ls[0])
