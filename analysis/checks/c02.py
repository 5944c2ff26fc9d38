"""Bookkeeping of the input.

The per-iteration summaries of the two builder loops are compared with the
specification: what one input object adds to the site list, and how the running
object number changes.  Sites are compared by their accessors."""
from builder_roles import *

RULE = 'per-iteration summary of the insertion loop: site list gains exactly the specified sites (as a bag), object number + 1'


def bag_of(field, vec_sym, acc):
    """site list value -> canonical bag of observed sites added to vec_sym"""
    def f(t):
        xs = []
        while t.op == 'vpush':
            xs.append(t.a[1])
            t = t.a[0]
        if t is not vec_sym:
            raise Unsupported('site list is not extended by pushes: %s' % show(t)[:200])
        ns = [purify(acc(x)) for x in xs]
        return bindn([L(vec_sym)] + ns, lambda v, *ts: L(T('bag', v, *sorted((unpk(x) for x in ts), key=lambda x: x.id))))
    return bind(field, f)


def run(chk):
    names = ['initial_index', 'source_category', 'is_segment', 'point0', 'point1', 'is_inverse', 'sorted_index']
    accs = {n: value_acc(chk, n) for n in names}

    def acc(x):
        return struct('site', [(n, accs[n](x)) for n in names])
    CB = CORE + '::diagram::ColorBits'
    catfield = field_names(chk.facts, CB)[0]
    P = CORE + '::geometry::Point'
    LINE = CORE + '::geometry::Line'

    def spec(idx, cat, seg, a, b):
        return struct('site', [('initial_index', idx), ('source_category', struct(CB, [(catfield, n_num(cat))])), ('is_segment', B(seg)),
                               ('point0', a), ('point1', b), ('is_inverse', FALSE), ('sorted_index', n_num(0))])
    for name in ('with_vertices', 'with_segments'):
        chk.part(name, one, chk, name, acc, spec, P, LINE)
    # numbering starts at zero with an empty site list
    df = chk.method(BUILDER, 'default', 'core::default::Default')
    chk.part('fresh', fresh, chk, df)


def fresh(chk, df):
    rd, _, _ = chk.summ(df)
    nm = index_field(chk)
    chk.ob('fresh:number', getf(rd, nm) is n_num(0), 'the first object of a new builder has number 0, not %s' % shown(getf(rd, nm), 100))
    sf = site_field(chk)
    ln = simplify_dc(bind(getf(rd, sf), ENG.vlen))
    chk.ob('fresh:sites', ln is n_num(0), 'a new builder has no sites')


def site_field(chk):
    """the field of the builder that holds the sites: the Vec<SiteEvent>"""
    a = chk.facts.adts[BUILDER]
    out = []
    for f in a['variants'][0]['fields']:
        t = chk.facts.ty(a['crate'], f['ty'])
        if t[0] == 'adt' and t[1] == 'alloc::vec::Vec' and t[2][0][0] == 'adt' and t[2][0][1] == SITE:
            out.append(f['name'])
    if len(out) != 1:
        raise Private('the list of sites of the builder')
    return out[0]


def index_field(chk):
    a = chk.facts.adts[BUILDER]
    out = []
    for f in a['variants'][0]['fields']:
        t = chk.facts.ty(a['crate'], f['ty'])
        if t == ('prim', 'usize'):
            out.append(f['name'])
    if len(out) != 1:
        raise Private('the running object number of the builder')
    return out[0]


def one(chk, name, acc, spec, P, LINE):
    f = chk.method(BUILDER, name)
    chk.count('loops')
    self_sym = T('sym', 'self_')
    res, st, e = chk.summ(f, [sym('self_'), sym('inp')], ['self_', 'inp'])
    sf, nf = site_field(chk), index_field(chk)
    lps = []
    for lp in e.loops:
        for r in root_of(lp.head, self_sym):
            if any(root is r for root, path in lp.havoc):
                lps.append((lp, r))
                break
    if len(lps) != 1:
        raise Unsupported('%d insertion loops' % len(lps))
    lp, r = lps[0]
    # the element of this iteration
    h = lp.head[r]
    vec, idx = getf(h, sf), getf(h, nf)
    guard = FALSE
    for g, b in lp.backs:
        guard = n_or(guard, g)
    guard = simplify_dc(guard)
    nxt = [a.a[0] for a in atoms_in(guard) if a.op == 'disc' and a.a[0].op == 'next']
    if len(set(nxt)) != 1:
        raise Unsupported('%d sources of input objects' % len(set(nxt)))
    full = n_and(lp.guard, is_some(L(nxt[0])))
    chk.equal(name + ':every-object', f, guard, full, 'an iteration for every input object')
    raw_el = T('v', nxt[0], 'Some', '0')
    conv = [t for t in subterms(lp.backs[0][1][r]).values() if t.op == 'into' and raw_el in t.a]
    if len(conv) != 1:
        raise Unsupported('conversion of the input object: %d' % len(conv))
    el = L(conv[0])
    if name == 'with_vertices':
        want = [spec(idx, 0, False, el, el)]
        wbag = bindn([vec] + [purify(x) for x in want], lambda v, *ts: L(T('bag', v, *sorted((unpk(t) for t in ts), key=lambda t: t.id))))
    else:
        a, b = getf(el, 'start'), getf(el, 'end')
        ax, ay, bx, by = getf(a, 'x'), getf(a, 'y'), getf(b, 'x'), getf(b, 'y')
        same = n_and(n_cmp('eq', ax, bx, False), n_cmp('eq', ay, by, False))
        fwd = n_or(n_cmp('lt', ax, bx, False), n_and(n_cmp('eq', ax, bx, False), n_cmp('lt', ay, by, False)))
        single = [spec(idx, 0, False, a, a)]
        three = [spec(idx, 1, False, a, a), spec(idx, 2, False, b, b), ite(fwd, spec(idx, 8, True, a, b), spec(idx, 9, True, b, a))]
        mkb = lambda want: bindn([vec] + [purify(x) for x in want], lambda v, *ts: L(T('bag', v, *sorted((unpk(t) for t in ts), key=lambda t: t.id))))
        wbag = ite(same, mkb(single), mkb(three))
    cond = is_some(L(nxt[0]))
    for k, (g, b) in enumerate(lp.backs):
        s = b[r]
        got = ite(n_and(cond, g), bag_of(getf(s, sf), vec.leaf, acc), BOT)
        chk.equal('%s:sites:%d' % (name, k), f, got, ite(n_and(cond, g), wbag, BOT), 'sites added for one input object')
        gi = ite(n_and(cond, g), getf(s, nf), BOT)
        chk.equal('%s:number:%d' % (name, k), f, gi, ite(n_and(cond, g), n_add(idx, n_num(1)), BOT), 'the object number advances by one per input object')
    # before and after the loop nothing else changes the list or the number
    ent = lp.entry[r]
    chk.equal(name + ':entry', f, struct('p', [('a', getf(ent, sf)), ('b', getf(ent, nf))]), struct('p', [('a', getf(sym('self_'), sf)), ('b', getf(sym('self_'), nf))]), 'the loop starts from the builder as given')
    okb = getv(res, 'Ok', '0')
    chk.equal(name + ':exit', f, ite(is_ok(res), struct('p', [('a', getf(okb, sf)), ('b', getf(okb, nf))]), BOT), struct('p', [('a', vec), ('b', idx)]), 'the result is the builder after the last object')
    # the objects come from the argument, in order, from the first: the loop
    # starts on the iterator made from the argument and moves by one each time
    src = nxt[0].a[0]
    if src.op != 'mu':
        raise Unsupported('source of the objects: %s' % show(src)[:100])
    roots = [(root, path) for root, path in lp.havoc if lp.head.get(root) is not None and any(t is src for t in subterms(lp.head[root]).values())]
    if len(roots) != 1:
        raise Unsupported('iterator of the insertion loop')
    root, path = roots[0]
    ent, hd = lp.entry[root], lp.head[root]
    for e in path:
        ent, hd = getf(ent, e[1]), getf(hd, e[1])
    want = L(T('call', 'std::iter::IntoIterator::into_iter', T('sym', 'inp')))
    if any(t.op == 'call' and t is not want.leaf for t in subterms(ent).values()):
        raise Unsupported('source of the objects: %s' % shown(ent, 200))
    chk.equal(name + ':source', f, ent, want, 'the loop runs over the given objects from the first')
    for k, (g, b) in enumerate(lp.backs):
        bk = b[root]
        for e in path:
            bk = getf(bk, e[1])
        chk.equal('%s:advance:%d' % (name, k), f, ite(n_and(full, g), bk, BOT), ite(n_and(full, g), L(T('rest', src)), BOT), 'each object is taken once')
