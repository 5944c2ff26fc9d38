"""The sweep takes the events in order and skips cancelled ones.

The queue of circle events is summarised with its ordered set, its table and
its bit vector uninterpreted (bits by their defining laws); the main loop and
the start of the sweep with the handling of one event uninterpreted."""
from paths import *
from c05 import sites_field, Arc, head, single, field_path, u1
from c15 import law, same_point

RULE = 'summaries of the queue operations, of the start and of one round of the sweep == specified transition, path by path'
VOB = 'vob::Vob'


def cell(op): return lambda c, r, *a: u(op, c.rd(r), *[deepval(c, x) for x in a])


def queue_model(O):
    b = 'std::collections::BTreeSet::'
    O[b + 'is_empty'] = cell('bempty')
    O[b + 'len'] = cell('blen')
    first = lambda c, s, wrap: ite(u('bempty', s), none(), some(wrap(u('bfirst', s))))
    O[b + 'first'] = lambda c, r: first(c, c.rd(r), lambda x: ref_to(c, x))

    def pop(c, r):
        s = c.rd(r)
        c.wr(r, ite(u('bempty', s), s, u('brem', s, u('bfirst', s))))
        return first(c, s, lambda x: x)
    O[b + 'pop_first'] = pop
    O[b + 'iter'] = lambda c, r: struct('$BIT', (('$set', c.rd(r)),))

    def step(c, r):
        v = c.rd(r)
        t = v.leaf
        if t is None or not (t.op == 'S' and t.a[0] == '$BIT' or t.op == 'pk' and t.a[0].op == 'S' and t.a[0].a[0] == '$BIT'):
            return NotImplemented
        s = getf(v, '$set')
        c.wr(r, struct('$BIT', (('$set', u('brem', s, u('bfirst', s))),)))
        return first(c, s, lambda x: ref_to(c, x))
    O['std::iter::Iterator::next', 'alloc::collections::btree::set::Iter'] = step

    def change(op, ret):
        def h(c, r, *a):
            old = c.rd(r)
            a = [deepval(c, x) for x in a]
            c.wr(r, u(op, old, *a))
            return u(ret, old, *a)
        return h
    O[b + 'insert'] = change('bins', 'bnew')
    O[b + 'remove'] = change('brem', 'bhad')
    for n in ('ahash::AHashMap::', 'std::collections::HashMap::'):
        O[n + 'insert'] = change('mins', 'mold')
        O[n + 'remove'] = change('mrem', 'mold')
        O[n + 'len'] = cell('mlen')
    v = 'vob::Vob::'
    O['std::mem::size_of'] = lambda c: L(T('sym', '$size'))
    O[v + 'len'] = lambda c, r: vlen(c.rd(r))
    O[v + 'get'] = lambda c, r, i: vget(c.rd(r), i)

    def resize(c, r, n, x):
        c.wr(r, u('vres', c.rd(r), n, x))
        return UNIT
    O[v + 'resize'] = resize

    def setbit(c, r, i, x):
        old = c.rd(r)
        c.wr(r, u('vbit', old, i, x))
        return u('vwas', old, i)
    O[v + 'set'] = setbit
    O[v + 'new_with_storage_type'] = lambda c, n: L(T('vnew'))
    return O


def vlen(v):
    def f(t):
        if t.op == 'vres':
            return L(t.a[1])
        if t.op == 'vbit':
            return vlen(L(t.a[0]))
        if t.op == 'vnew':
            return n_num(0)
        return L(T('len', t))
    return bind(v, f)


def vget(v, i):
    """the bits of a vector after growing it and after setting a bit"""
    def f(t):
        if t.op == 'vres':
            o = L(t.a[0])
            return ite(n_cmp('lt', i, L(t.a[1]), False), some(ite(n_cmp('lt', i, vlen(o), False), getv(vget(o, i), 'Some', '0'), L(t.a[2]))), none())
        if t.op == 'vbit':
            o = L(t.a[0])
            inside = n_cmp('lt', i, vlen(o), False)
            return ite(inside, some(ite(n_cmp('eq', i, L(t.a[1]), False), L(t.a[2]), getv(vget(o, i), 'Some', '0'))), none())
        if t.op == 'vnew':
            return none()
        return ite(n_cmp('lt', i, L(T('len', t)), False), some(u('vat', L(t), i)), none())
    return bind(v, f)


def sane(base):
    """both sets of the queue have the same number of events; sizes are positive"""
    size = L(T('sym', '$size')).leaf

    def f(a):
        i = base(a)
        if i is None and a.op == 'sgn':
            t = a.a[0] if isinstance(a.a[0], terms.Term) else None
            ops = {x.op for x in subterms(L(t)).values()} if t is not None else ()
            if 'mlen' in ops and 'blen' in ops:
                return 1
            if t is size:
                return 2
        return i
    return f


FACTS = [(terms.pmul(T('sym', '$size'), terms.num(-1)), '<')]


def field_of(chk, adt, pred, what):
    a = chk.facts.adts[adt]
    out = [x['name'] for x in a['variants'][0]['fields'] if pred(chk.facts.ty(a['crate'], x['ty']))]
    if len(out) != 1:
        raise Private(what)
    return out[0]


def run(chk):
    chk.part('queue', queue, chk)
    chk.part('round', sweep_round, chk)
    chk.part('start', start, chk)
    chk.part('two', first_two, chk)
    chk.part('line', first_line, chk)


def queue(chk):
    O = queue_model({})
    ordf = field_of(chk, CQ, lambda t: t[0] == 'adt' and t[1].endswith('::BTreeSet'), 'the ordered set of events')
    off = field_of(chk, CQ, lambda t: t[0] == 'adt' and t[1] == VOB, 'the marks of cancelled events')
    nxt = field_of(chk, CQ, lambda t: t[0] == 'adt' and t[1] == CEI, 'the next event number')
    q = sym('q')
    S, N, V = getf(q, ordf), getf(q, nxt), getf(q, off)
    index = value_acc(chk, 'get_index', CE)
    first = u('bfirst', S)
    id0 = getv(index(first), 'Some', '0')

    def call(name, *args, obj=None):
        f = chk.method(CQ, name)
        a = [obj] + list(args)
        r, st, e = chk.summ(f, a, ['q'] + ['a%d' % i for i in range(len(args))], overrides=O)
        return f, r, st.get(T('O', 'q')), st, e

    def active(i, obj=None):
        return call('is_active', i, obj=obj)[1]
    some_ = [n_not(u('bempty', S)), is_some(index(first))]
    dom, full = sane(domain([])), sane(domain(some_))
    f, r, _, st, e = call('is_empty')
    agree(chk, f, 'queue:empty', 'whether the queue is empty', r, [u('bempty', S)], dom, law, facts=FACTS)
    f, r, _, st, e = call('peek')
    agree(chk, f, 'queue:peek', 'the event shown', opt_value(e, st, r), [ite(u('bempty', S), none(), some(first))], dom, law, facts=FACTS)
    f, r, _, st, e = call('top')
    live = active(id0)
    got = result_value(e, st, r)
    agree(chk, f, 'queue:top', 'the event on top', got, [ite(u('bempty', S), ok(none()), ite(n_and(is_some(index(first)), live), ok(some(first)), got))], dom, law, facts=FACTS)
    # a new event gets a number of its own
    ce = sym('ce')
    f, r, q1, st, e = call('associate_and_push', ce)
    put = Parts(chk).change(CE, 'set_index', ce, N)
    agree(chk, f, 'push:id', 'the number of a new event', getf(r, '0'), [getf(N, '0')], dom, law, facts=FACTS)
    agree(chk, f, 'push:next', 'the number after it', getf(getf(q1, nxt), '0'), [n_add(getf(N, '0'), n_num(1))], dom, law, facts=FACTS)
    agree(chk, f, 'push:set', 'the waiting events after adding one', getf(q1, ordf), [u('bins', S, put)], dom, law, facts=FACTS)
    got = index(put)
    agree(chk, f, 'push:index', 'the number kept in the event', got, [some(N)], dom, law, facts=FACTS)
    j = struct(CEI, (('0', sym('j')),))
    agree(chk, f, 'push:marks', 'which events are cancelled after adding one', active(j, q1), [active(j)], dom, law, facts=FACTS)
    # removing the top
    f, r, q1, st, e = call('pop_and_destroy')
    agree(chk, f, 'pop:set', 'the waiting events after removing the first', getf(q1, ordf), [u('brem', S, first)], full, law, facts=FACTS)
    agree(chk, f, 'pop:next', 'the next number after removing an event', getf(q1, nxt), [N], full, law, facts=FACTS)
    same = n_cmp('eq', sym('j'), getf(id0, '0'), False)
    agree(chk, f, 'pop:marks', 'which other events are cancelled after removing one', ite(same, TRUE, active(j, q1)), [ite(same, TRUE, active(j))], full, law, facts=FACTS)
    agree(chk, f, 'pop:ok', 'the result of removing an event', r, [ok(UNIT)], full, law, facts=FACTS)
    # cancelling
    f, r, q1, st, e = call('deactivate', some(j))
    i = struct(CEI, (('0', sym('i')),))
    agree(chk, f, 'off:marks', 'which events count after cancelling one', active(i, q1), [ite(n_cmp('eq', sym('i'), sym('j'), False), FALSE, active(i))], dom, law, facts=FACTS)
    for nm, fl in (('set', ordf), ('next', nxt)):
        agree(chk, f, 'off:' + nm, 'the waiting events after cancelling one', getf(q1, fl), [getf(q, fl)], dom, law, facts=FACTS)
    f, r, q1, st, e = call('deactivate', none())
    agree(chk, f, 'off:none', 'the queue after cancelling nothing', active(i, q1), [active(i)], dom, law, facts=FACTS)
    g = chk.traitfn('core::default::Default', 'default', lambda t: t[:2] == ('adt', CQ))[0]
    r, st, e = chk.summ(g, [], [], overrides=O)
    agree(chk, g, 'new:active', 'no event of a new queue is cancelled', active(i, r), [TRUE], dom, law, facts=FACTS)
    # cancelled events at the top go away
    f, r, q1, st, e = call('pop_inactive_at_top')
    lps = [lp for lp in e.loops if any(k is T('O', 'q') for k, _ in lp.havoc)]
    if not e.loops and not foreign(q1.leaf if q1.leaf is not None else T('x')):
        return chk.ob('clean:loop', False, '%s removes at most a fixed number of cancelled events' % chk.loc(f))
    if len(lps) != 1 or len(e.loops) != 1:
        raise Private('the loop over cancelled events')
    lp = lps[0]
    Q = T('O', 'q')
    s, s0 = head(lp, Q, field_path(ordf))
    v, v0 = head(lp, Q, field_path(off))
    conds = [c for c, _ in lp.backs]
    cur = setf(setf(q, ordf, s), off, v)
    top = u('bfirst', s)
    here = [n_not(u('bempty', s)), is_some(index(top))]
    cond = conds[0]
    for c in conds[1:]:
        cond = n_or(cond, c)
    go = n_and(n_not(u('bempty', s)), n_not(active(getv(index(top), 'Some', '0'), cur)))
    have = is_some(index(top))
    agree(chk, f, 'clean:while', 'cancelled events are removed', cond, [ite(n_or(u('bempty', s), have), go, cond)], dom, law, facts=FACTS)
    for k, (c, x) in enumerate(lp.backs):
        s1 = walk(x[Q], field_path(ordf))
        agree(chk, f, 'clean:step%d' % k, 'what is removed', s1, [ite(c, u('brem', s, top), s1)], dom, law, facts=FACTS)
    chk.ob('clean:start', s0 is S and v0 is V, 'the removal of cancelled events starts from the queue as it is')
    stop = n_and(n_or(u('bempty', s), have), n_not(go))
    got = getf(q1, ordf)
    agree(chk, f, 'clean:end', 'the waiting events afterwards', got, [ite(stop, s, got)], dom, law, facts=FACTS)
    agree(chk, f, 'clean:ok', 'the result of the removal', r, [ite(stop, ok(UNIT), r)], dom, law, facts=FACTS)


def opt_value(e, st, r):
    """an optional reference as an optional value"""
    return ite(is_some(r), some(deep(e, st, getv(r, 'Some', '0'))), none())


def result_value(e, st, r):
    isok_ = case_of(r, 'Ok')
    return ite(isok_, ok(opt_value(e, st, getv(r, 'Ok', '0'))), r)


def deep(e, st, x):
    for _ in range(3):
        if not any(t.op == 'ref' for t in leafset(x)):
            return x
        x = e.read_ref(st, x)
    return x


def case_of(r, name):
    def f(t):
        if t.op == 'S':
            return TRUE if t.a[1] == name else FALSE
        return case(T('disc', t, ('Ok', 'Err')), [TRUE, FALSE] if name == 'Ok' else [FALSE, TRUE])
    return bind(r, f)


def handlers(chk, names):
    """the methods of the builder that handle one event (or start the sweep),
    each an unknown change of what it is given"""
    O = {}
    for nm in names:
        f = chk.method(BUILDER, nm)
        muts = [k for k in range(f.body['argc']) if (lambda t: t[0] == 'ref' and t[1])(f.ty(f.body['locals'][k + 1]['ty']))]
        rt = f.ty(f.body['locals'][0]['ty'])

        def h(c, *a, nm=nm, muts=muts, rt=rt):
            vals = [deepval(c, x) for x in a]
            for k in muts:
                c.wr(a[k], u('%s_%d' % (nm, k), *vals))
            return ok(UNIT) if rt[0] == 'adt' and rt[1] == RESULT else u(nm + '_r', *vals)
        O[f.key] = h
    return O


def diagram_model(chk, O):
    D_ = CORE + '::diagram::Diagram'
    O[chk.method(D_, 'new').key] = lambda c, n: L(T('sym', 'D0'))

    def fin(c, r):
        c.wr(r, u('finish', c.rd(r)))
        return UNIT
    O[chk.method(D_, 'finish').key] = fin
    return O


def applied(names, nm, k, *vals): return u('%s_%d' % (nm, k), *vals)


def sweep_round(chk):
    """the main loop: the next event is the site event unless the first circle
    event comes before it"""
    names = ('init_sites_queue', 'init_beach_line', 'process_site_event', 'process_circle_event')
    O = overrides(chk)
    O.update(handlers(chk, names))
    diagram_model(chk, O)
    cmp_ = [g for g in chk.facts.fns.values() if g.name == 'event_comparison_bif' and g.body is not None]
    if len(cmp_) != 1:
        raise Private('event_comparison_bif')
    O[cmp_[0].key] = lambda c, a, b: u('sitefirst', deepval(c, a), deepval(c, b))
    b = sym('b')
    f = chk.method(BUILDER, 'build')
    pre = {k: sym(v) for k, v in ROOTS.items()}
    r, st, e = chk.summ(f, [b], ['b'], overrides=O, st0=pre)
    Qf, Sf, Lf = role_of(chk, CQ), sites_field(chk), role_of(chk, CORE + '::beach_line::BeachLine')
    if len(e.loops) != 1:
        raise Private('the main loop')
    lp = e.loops[0]
    cond, s = single(lp)
    # what the loop carries, by what it starts from
    b1 = u('init_sites_queue_0', b)
    it1, D1 = u('init_sites_queue_r', b), sym('D0')
    vals = (b1, it1, D1)
    start_ = {k: u('init_beach_line_%d' % i, *vals) for i, k in enumerate('BID')}
    place = {}
    for root, v in lp.entry.items():
        for k in 'BID':
            if v is start_[k]:
                place.setdefault(k, root)
    if set(place) != set('BID'):
        x = [v for root, v in lp.entry.items() if any(t.op.startswith(('init_', 'process_')) for n in leafset(v) for t in subterms(L(n)).values())]
        return chk.ob('round:start', False, '%s: the sweep starts from %s; the sites are to be prepared and the beach line to be set up, once each, in that order' % (chk.loc(f), '; '.join(shown(v, 200) for v in x)))
    own = {(root, tuple(p)) for root, p in lp.havoc}
    roots = {root for root, p in own}
    if not set(place.values()) <= roots or roots - set(place.values()) - set(ROOTS):
        raise Private('what the main loop carries')
    H = {k: lp.head[place[k]] for k in 'BID'}
    B, I, D = H['B'], H['I'], H['D']
    Q, sites = getf(B, Qf), getf(B, Sf)
    n = u1('len', sites)
    left = n_not(n_cmp('eq', I, n, False))
    empty = u('qempty', Q)
    # the position never passes the end of the list
    dom, facts = domain([]), [(n_sub(I, n).leaf, '<=')]
    agree(chk, f, 'round:while', 'the sweep goes on', cond, [n_or(n_not(empty), left)], dom, law, facts=facts)
    site = ite(empty, TRUE, ite(left, u('sitefirst', vidx(sites, I), u('qtop', Q)), FALSE))
    sv = (B, I, D)
    cv = (B, D)
    B1 = ite(site, u('process_site_event_0', *sv), u('process_circle_event_0', *cv))
    I1 = ite(site, u('process_site_event_1', *sv), I)
    D1 = ite(site, u('process_site_event_2', *sv), u('process_circle_event_1', *cv))
    B1 = setf(B1, Qf, u('qclean', getf(B1, Qf)))
    for k, want, what in (('B', B1, 'the builder'), ('I', I1, 'the position in the list of sites'), ('D', D1, 'the diagram')):
        got = s[place[k]]
        agree(chk, f, 'round:' + k, what + ' after one event', got, [ite(cond, want, got)], dom, law, facts=facts)
    fin = n_not(cond)
    agree(chk, f, 'round:result', 'the diagram handed out', r, [ite(fin, ok(u('finish', D)), r)], dom, law, facts=facts)


def start(chk):
    """which sites the beach line starts with: the run of sites straight above
    the first one, at least two; a single site makes a single cell"""
    names = ('init_beach_line_default', 'init_beach_line_collinear_sites')
    O = handlers(chk, names)
    one = [g for g in chk.facts.fns.values() if g.spath.startswith(CORE + '::diagram::') and g.name == 'process_single_site_' and g.body is not None]
    if len(one) != 1:
        raise Private('process_single_site_')

    def alone(c, r, x):
        c.wr(r, u('alone', c.rd(r), deepval(c, x)))
        return UNIT
    O[one[0].key] = alone
    P = Parts(chk)
    f = chk.method(BUILDER, 'init_beach_line')
    b, it, D, Z = sym('b'), n_num(0), sym('D'), n_num(0)
    r, st, e = chk.summ(f, [b, it, D], ['b', 'it', 'D'], overrides=O)
    sites = getf(b, sites_field(chk))
    n = u1('len', sites)
    if len(e.loops) != 1:
        raise Private('the loop over the first sites')
    lp = e.loops[0]
    cond, s = single(lp)
    IT = T('O', 'it')
    count = [(head(lp, root, p), walk(s[root], p), root) for root, p in lp.havoc]
    main = [x for x in count if x[2] is IT]
    if len(main) != 1:
        raise Private('the position in the list of sites')
    (i, i0), i1, _ = main[0]
    sub = {}
    for (y, y0), y1, root in count:
        if root is not IT:
            if y1 is not n_add(y, n_num(1)):
                raise Private('what the loop over the first sites carries')
            sub[y.leaf] = n_add(y0, n_sub(i, i0))       # counts along
    cond = substitute(cond, sub)
    x = vidx(sites, i)
    p0, p1 = P.point0, P.point1
    px = lambda v: getf(v, 'x')
    upright = n_or(n_not(P.is_segment(x)), n_cmp('eq', px(p0(x)), px(p1(x)), False))
    many = n_cmp('gt', n, n_num(1), False)
    go = n_and(n_cmp('lt', i, n, False), n_and(n_cmp('eq', px(p0(x)), px(p0(vidx(sites, Z))), False), upright))
    facts = [(n_sub(n_num(1), n).leaf, '<')]
    dom = domain([many])
    A = lambda *a: agree(chk, f, *a, dom, law, facts=facts)
    A('first:while', 'the run of first sites goes on', cond, [go])
    A('first:step', 'the run of first sites advances to', i1, [ite(go, n_add(i, n_num(1)), i1)])
    stop = n_and(lp.guard, n_not(go))
    two = n_cmp('eq', i, n_num(1), False)
    names_ = {'b': ('_0', '_0'), 'it': ('_1', None), 'D': ('_2', '_2')}
    vals = (b, i, D)
    for k, what in (('b', 'the builder'), ('it', 'the position in the list of sites'), ('D', 'the diagram')):
        dflt, line = [u(nm + q, *vals) if q else i for nm, q in zip(names, names_[k])]
        got = substitute(st[T('O', k)], sub)
        A('first:' + k, what + ' after the start with two or more sites', got, [ite(stop, ite(two, dflt, line), got)])
    res = substitute(r, sub)
    A('first:ok', 'the result of the start', res, [ite(stop, ok(UNIT), res)])
    for size, want in ((0, (b, Z, D)), (1, (b, n_num(1), u('alone', D, vidx(sites, Z))))):
        d1 = domain([n_cmp('eq', n, n_num(size), False)])
        for k, w in zip(('b', 'it', 'D'), want):
            agree(chk, f, 'few%d:%s' % (size, k), 'the start with %d sites' % size, st[T('O', k)], [w], d1, zero(n, size))
        agree(chk, f, 'few%d:ok' % size, 'the start with %d sites' % size, r, [ok(UNIT)], d1, zero(n, size))


def zero(n, k):
    """the number of sites is k"""
    def f(p, t):
        return terms.num(k) if t is n.leaf else law(p, t)
    return f


def first_two(chk):
    """two sites: the second is inserted under the first"""
    O = overrides(chk)
    P = Parts(chk)
    f, r, st, e = sweep(chk, 'init_beach_line_default', ['b', 'it', 'D'], O=O)
    b, it = sym('b'), sym('it')
    sites = getf(b, sites_field(chk))
    from c05 import heap_field
    Hf = heap_field(chk)
    m = Arc(P)
    m.G, m.Q, m.H = sym('D'), getf(b, role_of(chk, CQ)), getf(b, Hf)
    a, x = vidx(sites, n_sub(it, n_num(1))), vidx(sites, it)
    m.arc(a, a, x, u('tail', m.L))
    dom = domain([n_cmp('lt', it, u1('len', sites), False), n_cmp('gt', it, n_num(0), False)])
    facts = [(terms.padd(it.leaf, u1('len', sites).leaf, -1), '<'), (terms.pmul(it.leaf, terms.num(-1)), '<')]
    for k, got, want, what in (('list', st[LIST], m.L, 'the positions of the beach line'), ('keys', st[KEY], m.K, 'the keys of the beach line'),
                               ('data', st[DATA], m.D, 'the node data of the beach line'), ('diagram', st[T('O', 'D')], m.G, 'the diagram'),
                               ('heap', getf(st[T('O', 'b')], Hf), m.H, 'the end points'), ('it', st[T('O', 'it')], n_add(it, n_num(1)), 'the event to come'),
                               ('ok', r, ok(UNIT), 'the result')):
        agree(chk, f, 'two:' + k, what + ' after the first two sites', got, [want], dom, law, facts=facts)


def first_line(chk):
    """collinear first sites: one bisector between each site and the next"""
    O = overrides(chk)
    P = Parts(chk)
    f, r, st, e = sweep(chk, 'init_beach_line_collinear_sites', ['b', 'it', 'D'], O=O)
    b, it = sym('b'), sym('it')
    sites = getf(b, sites_field(chk))
    if len(e.loops) != 1:
        raise Private('the loop over the collinear sites')
    lp = e.loops[0]
    cond, s = single(lp)
    DG = T('O', 'D')
    known = {LIST, KEY, DATA, DG}
    count = [(head(lp, root, p), walk(s[root], p)) for root, p in lp.havoc if root not in known]
    if not {(k, ()) for k in known} <= {(root, tuple(p)) for root, p in lp.havoc}:
        raise Private('what the loop over the collinear sites changes')
    step = [n_sub(y1, y) for (y, y0), y1 in count]
    if any(d.leaf is None or terms.const_of(d.leaf) is None for d in step):
        raise Private('the counter of the collinear sites')
    base = [y for v in (n_num(1), n_num(0)) for ((y, y0), y1), d in zip(count, step) if y0 is v and d is n_num(1)]
    if not base:
        raise Private('the counter of the collinear sites')
    j, j0 = [h for h, y1 in count if h[0] is base[0]][0]
    sub = {y.leaf: n_add(y0, n_mul(d, n_sub(j, j0))) for ((y, y0), y1), d in zip(count, step) if y is not j}
    m = Sim(P)
    m.L, m.K, m.D, m.G = [head(lp, k)[0] for k in (LIST, KEY, DATA, DG)]
    j2 = j if j0 is n_num(1) else n_add(j, n_num(1))
    a, x = vidx(sites, n_sub(j2, n_num(1))), vidx(sites, j2)
    e0 = struct(EIDX, (('0', u('ins2e', n_num(0), m.G, a, x)),))
    m.insert(P.key(a, x), some(P.data(e0)), u('tail', m.L))
    m.G = u('ins2', m.G, a, x)
    n = u1('len', sites)
    dom = domain([n_cmp('lt', j2, n, False)])
    facts = [(terms.padd(j2.leaf, n.leaf, -1), '<'), (n_sub(n_num(1), j2).leaf, '<='), (n_sub(j2, it).leaf, '<=')]
    go = n_not(n_cmp('eq', j2, it, False))
    goes = substitute(cond, sub)
    A = lambda k, what, got, want: agree(chk, f, 'line:' + k, what, got, [want], dom, law, facts=facts)
    A('while', 'the collinear sites are handled until the event to come', goes, go)
    for k, root, want, what in (('list', LIST, m.L, 'the positions of the beach line'), ('keys', KEY, m.K, 'the keys of the beach line'),
                                ('data', DATA, m.D, 'the node data of the beach line'), ('diagram', DG, m.G, 'the diagram')):
        got = substitute(s[root], sub)
        A(k, what + ' after one more collinear site', got, ite(go, want, got))
    init = [head(lp, k)[1] for k in (LIST, KEY, DATA, DG)]
    chk.ob('line:start', init == [sym('$list'), sym('$key'), sym('$data'), sym('D')], 'the collinear sites start with the beach line and the diagram as they are')
    for k, root in (('list', LIST), ('keys', KEY), ('data', DATA), ('diagram', DG)):
        got = substitute(st[root], sub)
        A('end:' + k, 'the state after the collinear sites', got, ite(go, got, head(lp, root)[0]))
