"""A site event enters the beach line as the sweep requires.

process_site_event is summarised over the model of C15.  Its three loops are
judged by one arbitrary iteration each, and by what they start from and what
is done with their results: the end of segments that end at the site, the run
of segments that start at the same point, and the insertion of each event."""
from paths import *
from c15 import law, same_point

RULE = 'one iteration of each loop and the code around them == specified transition, path by path'
EPP = CORE + '::end_point::EndPointPair'
VEC = 'alloc::vec::Vec'


def sites_field(chk):
    a = chk.facts.adts[BUILDER]
    out = [x['name'] for x in a['variants'][0]['fields']
           if (lambda t: t[0] == 'adt' and t[1] == VEC and t[2][0][:2] == ('adt', SITE))(chk.facts.ty(a['crate'], x['ty']))]
    if len(out) != 1:
        raise Private('the list of sites of the builder')
    return out[0]


def heap_field(chk):
    a = chk.facts.adts[BUILDER]
    out = [x['name'] for x in a['variants'][0]['fields']
           if (lambda t: t[0] == 'adt' and t[1].endswith('::BinaryHeap'))(chk.facts.ty(a['crate'], x['ty']))]
    if len(out) != 1:
        raise Private('the heap of end points of the builder')
    return out[0]


def head(lp, root, path=()):
    """(symbol at the loop head, value at loop entry) of a place; the place
    need not change in the loop"""
    entry = lp.entry.get(root)
    for r, p in lp.havoc:
        if r is root and tuple(p) == tuple(path):
            return L(mu_sym(lp, r, p)), None if entry is None else walk(entry, p)
    v = None if entry is None else walk(entry, path)
    return v, v


class Arc(Sim):
    def arc(s, a1, a2, ev, pos):
        """insert_new_arc"""
        P = s.P
        seg = P.is_segment(ev)
        a = (s.G, a2, ev)
        e0, e1 = [struct(EIDX, (('0', u('ins2e', n_num(i), *a)),)) for i in (0, 1)]
        s.G = u('ins2', *a)
        s.insert(P.key(ite(seg, P.inverse(ev), ev), a2), some(P.data(e1)), pos)

        def temporary(k):
            t = k.insert(P.key(ev, P.inverse(ev)), none(), L(T('sym', '$nohint')))
            k.H = u('hpush', k.H, P.make(EPP, 'new', P.point1(ev), struct(BLI, (('0', t),))))
        s.when(seg, temporary)
        return s.insert(P.key(a1, ev), some(P.data(e0)), pos)


def field_path(*names): return tuple(('f', n) for n in names)


def run(chk):
    chk.part('node', part_laws, chk)
    O = circles(chk, overrides(chk))
    P = Parts(chk)
    f, r, st, e = sweep(chk, 'process_site_event', ['b', 'it', 'D'], O=O)
    b, it, B = sym('b'), sym('it'), T('O', 'b')
    Qf, Hf, Sf = role_of(chk, CQ), heap_field(chk), sites_field(chk)
    sites = getf(b, Sf)
    ev = vidx(sites, it)
    seg = P.is_segment(ev)
    own = lambda lp: {(root, tuple(p)) for root, p in lp.havoc}
    hp, qp = (B, field_path(Hf)), (B, field_path(Qf))
    main = [lp for lp in e.loops if (KEY, ()) in own(lp)]
    ends = [lp for lp in e.loops if (KEY, ()) not in own(lp) and (LIST, ()) in own(lp)]
    runs = [lp for lp in e.loops if not any(k.op == 'O' for k, _ in own(lp))]
    if len(main) != 1 or len(ends) > 1 or len(runs) > 1 or len(e.loops) != len(main) + len(ends) + len(runs):
        raise Private('the loops of process_site_event')
    main = main[0]
    valid = n_cmp('lt', it, u1('len', sites), False)
    if ends:
        ends = ends[0]
        if own(ends) != {(LIST, ()), hp}:
            raise Private('what the loop over end points changes')
        chk.part('ends', end_points, chk, f, P, ends, B, Hf, ev, valid, e)
    else:
        x = foreign(main.entry[LIST].leaf) if LIST in main.entry and main.entry[LIST].leaf is not None else []
        if x:
            raise Private('the loop over end points')
        chk.ob('ends:loop', False, '%s removes at most a fixed number of temporary bisectors at a site, any number of segments may end there' % chk.loc(f))
    if runs:
        last = chk.part('runs', same_start, chk, f, P, runs[0], it, sites, ev, valid, e)
    else:
        cond, i = single(main)[0], head(main, T('O', 'it'))[0]
        diff = []
        fixed = n_not(n_cmp('eq', i, n_add(it, n_num(1)), False))
        every_path([('x', n_or(fixed, cond), [n_or(fixed, FALSE)])], domain([valid]), lambda *a: diff.append(a), law=law)
        if diff:
            raise Private('the loop over a run of segments')
        chk.ob('run:loop', False, '%s never handles more than one event, all segments that start at the same point are handled together' % chk.loc(f))
        last = None
    if ends and last is not None:
        chk.part('main', main_loop, chk, f, P, main, ends, last, B, (Qf, Hf, Sf), it, ev, seg, valid, e, r, st)


def u1(op, x): return bind(purify(x), lambda t: L(T(op, t)))


def single(lp):
    if len(lp.backs) != 1:
        raise Private('a loop with several ends')
    return lp.backs[0]


def end_points(chk, f, P, lp, B, Hf, ev, valid, e):
    """the temporary bisectors of the segments that end here are removed"""
    l, l0 = head(lp, LIST)
    h, h0 = head(lp, B, field_path(Hf))
    cond, s = single(lp)
    seg = P.is_segment(ev)
    top = u('htop', h)
    site, idx = value_acc(chk, 'site', EPP)(top), value_acc(chk, 'beachline_index', EPP)(top)
    go = n_and(n_not(u('hempty', h)), same_point(site, P.point0(ev)))
    dom = domain([valid, n_not(seg)])
    agree(chk, f, 'ends:while', 'removal of temporary bisectors goes on', cond, [go], dom, law, e)
    agree(chk, f, 'ends:list', 'the beach line after removing a temporary bisector', s[LIST], [ite(go, u('rem', l, getf(idx, '0')), s[LIST])], dom, law, e)
    h1 = walk(s[B], field_path(Hf))
    agree(chk, f, 'ends:heap', 'the end points after removing a temporary bisector', h1, [ite(go, u('hrest', h), h1)], dom, law, e)
    chk.ob('ends:start', l0 is sym('$list') and h0 is getf(sym('b'), Hf), 'the removal starts from the beach line and the end points as they are')
    chk.part('ends:when', agree, chk, f, 'ends:when', 'temporary bisectors are looked for at points only', lp.guard, [n_and(valid, n_not(seg))], domain([valid]), law, e)


def same_start(chk, f, P, lp, it, sites, ev, valid, e):
    """the events handled together: the site and, if it is a segment, the
    segments right after it that start at the same point"""
    cond, s = single(lp)
    count, cached = [], []
    for root, p in lp.havoc:
        x, x0 = head(lp, root, p)
        x1 = walk(s[root], p)
        (count if x1 is n_add(x, n_num(1)) else cached).append((x, x0, x1))
    if len(count) != 1:
        raise Private('the counter of the run of segments')
    j, j0, j1 = count[0]
    chk.ob('run:start', j0 is n_add(it, n_num(1)), '%s: the run of segments is looked for from position %s on, required: from the event after the site' % (chk.loc(f), shown(j0, 200)))
    sub, read = {}, lambda x: e.read_ref(dict(lp.entry), x)
    for y, y0, y1 in cached:
        # y holds f(j): it starts as f(j0) and becomes f(j + 1)
        fj = substitute(y1, {j.leaf: n_sub(j, n_num(1))}, read)
        if substitute(fj, {j.leaf: j0}, read) is not y0:
            raise Private('a value the loop over a run of segments carries')
        sub[y.leaf] = fj
    cond, j1 = substitute(cond, sub, read), substitute(j1, sub, read)
    cur = vidx(sites, j)
    go = n_and(n_cmp('lt', j, u1('len', sites), False), n_and(P.is_segment(cur), same_point(P.point0(cur), P.point0(ev))))
    dom = domain([valid, P.is_segment(ev)])
    agree(chk, f, 'run:while', 'the run of segments goes on', cond, [go], dom, law, e)
    agree(chk, f, 'run:step', 'the run of segments advances by', j1, [ite(go, n_add(j, n_num(1)), j1)], dom, law, e)
    return j


def main_loop(chk, f, P, lp, ends, last, B, names, it, ev, seg, valid, e, r, st):
    Qf, Hf, Sf = names
    IT, DG = T('O', 'it'), T('O', 'D')
    places = {'L': (LIST, ()), 'K': (KEY, ()), 'D': (DATA, ()), 'G': (DG, ()), 'I': (IT, ()), 'Q': (B, field_path(Qf)), 'H': (B, field_path(Hf))}
    rest = [(root, p) for root, p in lp.havoc if (root, tuple(p)) not in [(a, tuple(q)) for a, q in places.values()]]
    if len(rest) != 1:
        raise Private('what the loop over the events carries: ' + ', '.join('%s%s' % x for x in rest))
    H = {k: head(lp, *v) for k, v in places.items()}
    pos, pos0 = head(lp, *rest[0])
    lA, _ = head(ends, LIST)
    hA, _ = head(ends, B, field_path(Hf))
    dom = domain([valid])
    l0, h0 = ite(seg, sym('$list'), lA), ite(seg, getf(sym('b'), Hf), hA)
    ent = lambda k, want, what: agree(chk, f, 'start:' + k, what, want[0], [ite(lp.guard, want[1], want[0])], dom, law, e)
    ent('list', (H['L'][1], l0), 'the beach line the events are inserted into')
    ent('heap', (H['H'][1], h0), 'the end points when the events are inserted')
    ent('pos', (pos0, u('lb', l0, sym('$key'), P.key1(ev))), 'the place found for the first event')
    ent('event', (H['I'][1], it), 'the first event inserted')
    chk.ob('start:rest', H['K'][1] is sym('$key') and H['D'][1] is sym('$data') and H['G'][1] is sym('D') and H['Q'][1] is getf(sym('b'), Qf),
           'nothing else has changed when the events are inserted')
    i = H['I'][0]
    cond, s = single(lp)
    end = ite(seg, last, n_add(it, n_num(1)))
    more = n_not(n_cmp('eq', i, end, False))
    sites = getf(sym('b'), Sf)
    inside = n_cmp('lt', i, u1('len', sites), False)
    x = vidx(sites, i)
    wants = []
    for clear in (1, 0):
        m = Arc(P)
        m.L, m.K, m.D, m.G, m.Q, m.H = [H[k][0] for k in 'LKDGQH']
        m.pos = pos

        def behind(k):
            t = u('tail', k.L)
            a, before = k.right(t), k.left(t)
            new = k.arc(a, a, x, pos)
            k.activate(before, a, x, new)
            k.pos = new

        def front(k):
            a, after = k.left(pos), k.right(pos)
            new = k.arc(a, a, x, pos)
            k.activate(ite(P.is_segment(x), P.inverse(x), x), a, after, pos)
            k.pos = new

        def between(k):
            a2, after = k.left(pos), k.right(pos)
            k.drop_circle(pos, clear)
            t = k.prev(pos)
            a1, before = k.right(t), k.left(t)
            new = k.arc(a1, a2, x, pos)
            k.activate(before, a1, x, new)
            k.activate(ite(P.is_segment(x), P.inverse(x), x), a2, after, pos)
            k.pos = new

        def either(k):
            h = u('athead', H['L'][0], pos)
            k.when(h, front)
            k.when(n_not(h), between)
        okc = u('isok', H['L'][0], pos)
        m.when(n_not(okc), behind)
        m.when(okc, either)
        m.I = n_add(i, n_num(1))
        wants.append(m)
    here = n_and(lp.guard, wants[0].fine)
    go = n_and(lp.guard, n_and(more, wants[0].fine))
    WHAT = dict(L='the positions of the beach line', K='the keys of the beach line', D='the node data of the beach line', G='the diagram', I='the event to come',
                Q='the queue of circle events', H='the end points')
    stop = n_and(lp.guard, n_not(more))
    # points are inserted alone, segments together with those that share their
    # first end; the events come one after the other, so none is behind the last
    for kind, yes, no, end1 in (('segments', [valid, seg], [], last), ('points', [valid], [seg], n_add(it, n_num(1)))):
        inv = domain(yes + [inside, n_cmp('le', i, end1, False)], no)
        say = lambda k, what, got, want: chk.part(k, agree, chk, f, k + ':' + kind, what + ' (%s)' % kind, got, want, inv, law, e)
        say('each:while', 'the events are inserted one after the other', cond, [ite(here, more, cond)])
        for k, w in WHAT.items():
            got = walk(s[places[k][0]], places[k][1])
            say('each:' + k, w + ' after inserting an event', got, [ite(go, m.__dict__[k], got) for m in wants])
        got = walk(s[rest[0][0]], rest[0][1])
        say('each:pos', 'the place for the next event', got, [ite(go, m.pos, got) for m in wants])
        # afterwards
        for k, w in WHAT.items():
            got = walk(st[places[k][0]], places[k][1])
            say('after:' + k, w + ' after the last event', got, [ite(stop, H[k][0], got)])
        say('after:ok', 'the result after the last event', r, [ite(stop, ok(UNIT), r)])
