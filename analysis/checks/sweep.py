"""A model of what the sweep works on, for the engine: the beach-line list (a
library type), the queue of circle events, the heap of end points and the
diagram, each a state that its operations change in an uninterpreted way.

The beach line is one list with three roots: $list (which positions there are,
in which order), $key and $data (what is stored at a position).  Different
position terms are different positions."""
from builder_roles import *
from gvn import subst

LIST, KEY, DATA = T('O', '$list'), T('O', '$key'), T('O', '$data')
CQ = CORE + '::circle_event::CircleEventQueue'
CE = CORE + '::circle_event::CircleEvent'
BLI = CORE + '::beach_line::BeachLineIndex'
CEI = CORE + '::circle_event::CircleEventIndex'


def u(name, *args):
    """uninterpreted value of Nodes"""
    return bindn([purify(a) for a in args], lambda *ts: L(T(name, *[unpk(t) for t in ts])))


def state(st, root):
    v = st.get(root)
    return sym(root.a[0]) if v is None else v


def vidx(v, i):
    return bindn([purify(v), purify(i)], lambda b, k: Engine.vidx(MODEL, b, k))


class MODEL:
    distinct = staticmethod(lambda i, j: i is not j)
    vidx = staticmethod(lambda b, i: Engine.vidx(MODEL, b, i))
    vset = staticmethod(lambda b, i, x: Engine.vset(MODEL, b, i, x))


def vset(v, i, x):
    return bindn([purify(v), purify(i)], lambda b, k: MODEL.vset(b, k, x))


def mkpit(p):
    return struct('$PIT', (('$pos', p),))


def overrides(chk):
    O = {}
    n = 'cpp_map::LinkedList::'
    p = 'cpp_map::PIterator::'

    def at(c, r):
        return getf(c.rd(r), '$pos')

    def ls(c):
        return state(c.st, LIST)
    O[p + 'new_2'] = lambda c, l, i: mkpit(i)
    O[p + 'lower_bound'] = lambda c, l, k: ok(mkpit(u('lb', ls(c), state(c.st, KEY), k)))
    O[p + 'get_k'] = lambda c, r: ok(vidx(state(c.st, KEY), at(c, r)))
    O[p + 'get_v'] = lambda c, r: ok(u('noderef', at(c, r)))
    O[p + 'is_ok'] = lambda c, r: ok(u('isok', ls(c), at(c, r)))
    O[p + 'is_at_head'] = lambda c, r: ok(u('athead', ls(c), at(c, r)))
    O[p + 'is_at_tail'] = lambda c, r: ok(u('attail', ls(c), at(c, r)))
    O[p + 'current'] = lambda c, r: at(c, r)
    O['std::clone::Clone::clone', 'cpp_map::PIterator'] = lambda c, r: c.rd(r)

    def move(op):
        def h(c, r):
            c.wr(r, mkpit(u(op, ls(c), at(c, r))))
            return ok(UNIT)
        return h
    O[p + 'prev'] = move('prev')
    O[p + 'next'] = move('next')

    def replace_key(c, r, k):
        c.st[KEY] = vset(state(c.st, KEY), at(c, r), k)
        return ok(UNIT)
    O[p + 'replace_key'] = replace_key

    def remove(c, r):
        c.st[LIST] = u('rem', ls(c), at(c, r))
        return ok(UNIT)
    O[p + 'remove_current'] = remove

    def insert(c, r, k, v, hint):
        l, ks = ls(c), state(c.st, KEY)
        new = u('newpos', l, k, hint)
        c.st[LIST] = u('ins', l, k, hint)
        c.st[KEY] = vset(ks, new, k)
        c.st[DATA] = vset(state(c.st, DATA), new, v)
        return ok(new)
    O[n + 'ordered_insert_pos'] = insert
    O[n + 'ordered_insert'] = lambda c, r, k, v: insert(c, r, k, v, L(T('sym', '$nohint')))
    O[n + 'tail'] = lambda c, r: u('tail', ls(c))
    O[n + 'head'] = lambda c, r: u('head', ls(c))
    O[n + 'is_empty'] = lambda c, r: u('lempty', ls(c))
    O[n + 'len'] = lambda c, r: u('llen', ls(c))

    def clear(c, r):
        c.st[LIST] = L(T('sym', '$cleared'))
        return UNIT
    O[n + 'clear'] = clear
    O[n + 'get'] = lambda c, r, i: ok(tuple2(ref_to(c, vidx(state(c.st, KEY), i)), ref_to(c, u('noderef', i))))
    O[n + 'get_k'] = lambda c, r, i: ok(ref_to(c, vidx(state(c.st, KEY), i)))
    O[n + 'get_v'] = lambda c, r, i: ok(ref_to(c, u('noderef', i)))

    def node(f, plain):
        """Cell operations on the data of a list node"""
        def h(c, r, *a):
            v = c.rd(r)
            ts = [t for t in leafset(v) if t is not BOT.leaf]
            if not ts or any(t.op != 'noderef' for t in ts):
                return NotImplemented
            i = bind(v, lambda t: L(t.a[0]) if t.op == 'noderef' else L(t))
            return f(c, i, *a)
        return h
    get = lambda c, i: vidx(state(c.st, DATA), i)

    def put(c, i, x):
        old = get(c, i)
        c.st[DATA] = vset(state(c.st, DATA), i, x)
        return old

    def put_(c, i, x):
        put(c, i, x)
        return UNIT
    O['std::cell::Cell::get'] = node(get, 1)
    O['std::cell::Cell::set'] = node(put_, 1)
    O['std::cell::Cell::replace'] = node(put, 1)
    O['std::cell::Cell::take'] = node(lambda c, i: put(c, i, none()), 1)

    # the heap of end points
    h = 'std::collections::BinaryHeap::'

    def top_of(op, empty):
        def g(c, r):
            q = c.rd(r)
            return ite(u(empty, q), none(), some(ref_to(c, u(op, q))))
        return g
    O[h + 'is_empty'] = lambda c, r: u('hempty', c.rd(r))
    O[h + 'peek'] = top_of('htop', 'hempty')

    def pop(c, r):
        q = c.rd(r)
        e = u('hempty', q)
        c.wr(r, ite(e, q, u('hrest', q)))
        return ite(e, none(), some(u('htop', q)))
    O[h + 'pop'] = pop

    def push(c, r, x):
        c.wr(r, u('hpush', c.rd(r), x))
        return UNIT
    O[h + 'push'] = push

    # the queue of circle events
    def m(name):
        return chk.method(CQ, name).key
    O[m('is_empty')] = lambda c, r: u('qempty', c.rd(r))
    O[m('peek')] = top_of('qtop', 'qempty')

    def top(c, r):
        return ok(O[m('peek')](c, r))
    O[m('top')] = top
    O[m('is_active')] = lambda c, r, i: u('qactive', c.rd(r), i)

    def change(op, ret=UNIT):
        def g(c, r, *a):
            c.wr(r, u(op, c.rd(r), *a))
            return ret
        return g
    O[m('pop_and_destroy')] = change('qpop', ok(UNIT))
    O[m('pop_inactive_at_top')] = change('qclean', ok(UNIT))

    def deact(c, r, o):
        q = c.rd(r)
        c.wr(r, deactivated(q, o))
        return UNIT
    O[m('deactivate')] = deact

    def qpush(c, r, e):
        q = c.rd(r)
        c.wr(r, u('qpush', q, e))
        return struct(CEI, (('0', u('qid', q, e)),))
    O[m('associate_and_push')] = qpush

    # the diagram
    ins2, ins5 = inserters(chk)

    def edges(op):
        def g(c, r, *a):
            d = c.rd(r)
            a = [deepval(c, x) for x in a]
            c.wr(r, u(op, d, *a))
            return tuple2(*[struct(EIDX, (('0', u(op + 'e', n_num(k), d, *a)),)) for k in (0, 1)])
        return g
    O[ins2.key] = edges('ins2')
    O[ins5.key] = edges('ins5')
    return O


def deactivated(q, o):
    return ite(is_some(o), u('qoff', q, getv(o, 'Some', '0')), q)


def deepval(c, x):
    while x.leaf is not None and x.leaf.op == 'ref':
        x = c.rd(x)
    return x


def tuple2(a, b):
    return struct('tuple', (('0', a), ('1', b)))


def ref_to(c, v):
    root = T('tmp', 'sweep', c.fr.id, c.fr.bb, c.fr.nc)
    c.fr.nc += 1
    c.st[root] = v
    return mkref(root)


def inserters(chk):
    """the two functions of the diagram that make a pair of half-edges"""
    out = []
    for g in chk.facts.fns.values():
        if g.kind != 'AssocFn' or not g.spath.startswith(CORE + '::diagram::') or g.body is None:
            continue
        rt = g.ty(g.body['locals'][0]['ty'])
        if rt[0] == 'tuple' and len(rt[1]) == 2 and all(t[0] == 'adt' and t[1] == EIDX for t in rt[1]):
            out.append(g)
    out.sort(key=lambda g: g.body['argc'])
    if len(out) != 2 or [g.body['argc'] for g in out] != [3, 6]:
        raise Private('the functions that insert edges: %s' % [g.spath for g in out])
    return out


# ------------------------------------------------------------------ analysis
def circles(chk, O):
    """the circle computation is one opaque function of three sites and a node"""
    fs = [g for g in chk.facts.fns.values() if g.name == 'circle_formation' and g.body is not None]
    if len(fs) != 1 or fs[0].body['argc'] != 4:
        raise Private('circle_formation')
    O[fs[0].key] = lambda c, a, b, d, n: u('circ', *[deepval(c, x) for x in (a, b, d, n)])
    return O


ROOTS = {LIST: '$list', KEY: '$key', DATA: '$data'}


def sweep(chk, name, argnames, args=None, O=None):
    """the summary of a method of the builder over the model"""
    f = chk.method(BUILDER, name)
    pre = {k: sym(v) for k, v in ROOTS.items()}
    r, st, e = chk.summ(f, args, argnames, overrides=O, st0=pre)
    return f, r, st, e


class Parts:
    """the private types of the sweep, by their accessors"""

    def __init__(s, chk):
        nk, nd = CORE + '::beach_line::BeachLineNodeKey', CORE + '::beach_line::BeachLineNodeData'
        s.chk, s.nk, s.nd = chk, nk, nd
        s.left, s.right = value_acc(chk, 'left_site', nk), value_acc(chk, 'right_site', nk)
        s.circle, s.edge = value_acc(chk, 'get_circle_event_id', nd), value_acc(chk, 'edge_id', nd)
        s.is_segment = value_acc(chk, 'is_segment')
        s.point0, s.point1 = value_acc(chk, 'point0'), value_acc(chk, 'point1')

    def make(s, adt, name, *a):
        f = s.chk.method(adt, name)
        r, st, e = s.chk.summ(f, list(a), ['a%d' % i for i in range(len(a))])
        if e.panics:
            raise Unsupported('panicking ' + name)
        return r

    def change(s, adt, name, v, *a):
        """the object after obj.name(a)"""
        f = s.chk.method(adt, name)
        root = T('O', 'obj')
        pre = {root: v}
        args = [mkref(root)]
        for i, x in enumerate(a):
            if f.ty(f.body['locals'][i + 2]['ty'])[0] == 'ref':
                rt = T('O', 'arg%d' % i)
                pre[rt] = x
                args.append(mkref(rt))
            else:
                args.append(x)
        r, st, e = s.chk.summ(f, args, ['obj'] + ['a%d' % i for i in range(len(a))], st0=pre)
        return st[root]

    def key(s, a, b): return s.make(s.nk, 'new_2', a, b)
    def key1(s, a): return s.make(s.nk, 'new_1', a)
    def set_right(s, k, b): return s.change(s.nk, 'set_right_site', k, b)
    def data(s, e): return s.make(s.nd, 'new_1', e)
    def set_edge(s, d, e): return s.change(s.nd, 'set_edge_id', d, e)
    def set_circle(s, d, c): return s.change(s.nd, 'set_circle_event_id', d, c)
    def inverse(s, x): return s.change(SITE, 'inverse', x)


class Sim:
    """a state the specification works on"""

    def __init__(s, P):
        s.P = P
        s.L, s.K, s.D = sym('$list'), sym('$key'), sym('$data')
        s.fine = TRUE      # every node that gets a circle event has data

    def key(s, p): return vidx(s.K, p)
    def data(s, p): return vidx(s.D, p)
    def left(s, p): return s.P.left(s.key(p))
    def right(s, p): return s.P.right(s.key(p))
    def prev(s, p): return u('prev', s.L, p)
    def next(s, p): return u('next', s.L, p)

    def insert(s, k, v, hint):
        l, s.L = s.L, u('ins', s.L, k, hint)
        new = u('newpos', l, k, hint)
        s.K, s.D = vset(s.K, new, k), vset(s.D, new, v)
        return new

    def when(s, cond, steps):
        """steps(state) happen on this condition"""
        k = type(s)(s.P)
        k.__dict__.update(s.__dict__)
        steps(k)
        for x in s.__dict__:
            if x != 'P' and k.__dict__[x] is not s.__dict__[x]:
                s.__dict__[x] = ite(cond, k.__dict__[x], s.__dict__[x])

    def drop_circle(s, p, clear):
        """the circle event waiting at a position no longer counts"""
        d = s.data(p)
        some_ = getv(d, 'Some', '0')
        c = ite(is_some(d), s.P.circle(some_), none())
        s.Q = deactivated(s.Q, c)
        if clear:
            s.D = ite(is_some(d), vset(s.D, p, some(s.P.set_circle(some_, none()))), s.D)

    def activate(s, a, b, c, p):
        ev = u('circ', a, b, c, struct(BLI, (('0', p),)))
        e = getv(ev, 'Some', '0')
        d = s.data(p)
        yes, has = is_some(ev), is_some(d)
        s.fine = n_and(s.fine, n_or(n_not(yes), has))
        q = s.Q
        s.Q = ite(yes, u('qpush', q, e), q)
        idv = struct(CEI, (('0', u('qid', q, e)),))
        s.D = ite(n_and(yes, has), vset(s.D, p, some(s.P.set_circle(getv(d, 'Some', '0'), some(idv)))), s.D)


def part_laws(chk):
    """what the accessors of a node and of a reversed site give back"""
    P = Parts(chk)
    a, b, k, d, e, c = [sym(n) for n in ('a', 'b', 'k', 'd', 'e', 'c')]
    e0, c0 = struct(EIDX, (('0', sym('e')),)), some(sym('c'))
    names = ('initial_index', 'sorted_index', 'is_segment', 'source_category', 'point0', 'point1', 'is_inverse')
    accs = {n: value_acc(chk, n) for n in names}

    def law(key, what, got, want, adt=P.nk, name='new_2'):
        chk.part('node:' + key, chk.equal, 'node:' + key, chk.method(adt, name), got, want, what)

    def site(key, what, got, want):
        if got is not want:
            got, want = [struct('site', [(n, accs[n](v)) for n in names]) for v in (got, want)]
        law(key, what, got, want)
    site('pair:left', 'left site of the key (A,B)', P.left(P.key(a, b)), a)
    site('pair:right', 'right site of the key (A,B)', P.right(P.key(a, b)), b)
    site('one:left', 'left site of the key of one site', P.left(P.key1(a)), a)
    site('one:right', 'right site of the key of one site', P.right(P.key1(a)), a)
    site('right:left', 'left site after a change of the right site', P.left(P.set_right(k, b)), P.left(k))
    site('right:right', 'right site after a change of the right site', P.right(P.set_right(k, b)), b)
    law('data:edge', 'edge of new node data', P.edge(P.data(e0)), e0)
    law('data:circle', 'circle event of new node data', P.circle(P.data(e0)), none())
    law('edge:edge', 'edge after a change of the edge', P.edge(P.set_edge(d, e0)), e0)
    law('edge:circle', 'circle event after a change of the edge', P.circle(P.set_edge(d, e0)), P.circle(d))
    law('circle:circle', 'circle event after it was noted', P.circle(P.set_circle(d, c0)), c0)
    law('circle:edge', 'edge after a circle event was noted', P.edge(P.set_circle(d, c0)), P.edge(d))
    end = [struct(CORE + '::geometry::Point', [('x', sym(n + '.x')), ('y', sym(n + '.y'))]) for n in 'pq']
    seg = P.make(SITE, 'new', enum(CORE + '::site_event::Site', 'Segment', [('0', end[0]), ('1', end[1])]), sym('i'))
    seg = P.change(SITE, 'set_sorted_index', seg, sym('n'))
    CB = CORE + '::diagram::ColorBits'
    for n in range(0, 16):
        x = P.change(SITE, 'or_source_category', seg, struct(CB, [(field_names(chk.facts, CB)[0], n_num(n))]))
        law('category:%d' % n, 'source_category() after a category was added', accs['source_category'](x), struct(CB, [(field_names(chk.facts, CB)[0], n_num(n))]), SITE, 'or_source_category')
        y = P.inverse(x)
        for k, g, old in (('once', y, x), ('twice', P.inverse(y), y)):
            for nm, want in (('point0', P.point1(old)), ('point1', P.point0(old)), ('is_inverse', n_not(accs['is_inverse'](old)))) + \
                    tuple((nm, accs[nm](old)) for nm in ('initial_index', 'sorted_index', 'is_segment', 'source_category')):
                law('inverse:%d:%s:%s' % (n, k, nm), '%s() of a site reversed %s' % (nm, k), accs[nm](g), want, SITE, 'inverse')
