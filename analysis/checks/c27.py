"""The input reader returns the listed points and segments, in order.

The function that reads one line and the loop over the lines are summarised
separately.  A line: number of fields, parse of each field, place of each
number.  The loop: entry, one line in each of the four phases (which are
identified by the transitions between them), what ends it, and what is
returned, compared with the specified reader path by path."""
import itertools
from diag import *
from paths import *
from sweep import *
from c05 import u1

RULE = 'summary of one line and one iteration == specified line and step of the reader'
PT, LN = CORE + '::geometry::Point', CORE + '::geometry::Line'


def parts(chk):
    F = chk.facts
    buf = [f for f in F.fns.values() if f.spath == CORE + '::file_reader::read_boost_input_buffer']
    path = [f for f in F.fns.values() if f.spath == CORE + '::file_reader::read_boost_input_file']
    if len(buf) != 1 or len(path) != 1:
        raise Missing('read_boost_input_buffer, read_boost_input_file')
    data = []
    for f in F.fns.values():
        if f.body is not None and f.spath.startswith(CORE + '::file_reader::') and f.kind == 'Fn' and f.body['argc'] == 1 and f not in buf + path:
            t = f.ty(f.body['locals'][0]['ty'])
            a = f.ty(f.body['locals'][1]['ty'])
            if t[0] == 'adt' and t[1] == OPTION and t[2][0][0] == 'adt' and a[0] == 'ref' and a[-1] == ('prim', 'str'):
                data.append((f, t[2][0][1]))
    if len(data) != 1:
        raise Private('the function that reads a line')
    return buf[0], path[0], data[0]


def kinds(chk, adt):
    """variant of the line data that holds a number, a point, a line"""
    a = chk.facts.adts[adt]
    out = {}
    for v in a['variants']:
        ts = [chk.facts.ty(a['crate'], x['ty']) for x in v['fields']]
        if len(ts) != 1:
            raise Private('the data of a line')
        k = {('prim', 'usize'): 'number'}.get(ts[0]) or ({PT: 'point', LN: 'line'}.get(ts[0][1]) if ts[0][0] == 'adt' else None)
        if k is None or k in out:
            raise Private('the data of a line')
        out[k] = (v['name'], v['fields'][0]['name'])
    if len(out) != 3:
        raise Private('the data of a line')
    return out, [v['name'] for v in a['variants']]


def run(chk):
    buf, path, (data, adt) = parts(chk)
    K, V = kinds(chk, adt)
    chk.part('line', line, chk, data, adt, K)
    chk.part('loop', loop, chk, buf, data, adt, K, V)
    chk.part('file', by_path, chk, path, buf)


def line(chk, f, adt, K):
    """the fields of a line and what they make"""
    seps, other = [], []

    def split(c, s, pat):
        seps.append((deepval(c, s), deepval(c, pat)))
        return u('splitted')
    O = {'core::str::<impl str>::split': split, 'std::iter::Iterator::collect': lambda c, s: u('words', deepval(c, s)),
         'core::str::<impl str>::parse': lambda c, s: u('parse', deepval(c, s), L(T('type', str(c.gargs[0][-1]))))}
    for name in ('split_whitespace', 'split_ascii_whitespace', 'split_terminator', 'split_inclusive', 'rsplit'):
        O['core::str::<impl str>::' + name] = lambda c, *a, name=name: (other.append(name), u('splitted'))[1]
    got, st, e = chk.summ(f, None, ['a'], overrides=O)
    if other and not seps:
        return chk.ob('line:separator', False, '%s: a line is split by %s' % (chk.loc(f), other[0]))
    if len(seps) != 1:
        raise Private('how a line is split')
    chk.ob('line:separator', seps[0][0] is sym('a') and seps[0][1] is n_num(32), '%s: a line is split at its spaces' % chk.loc(f))
    w = u('words', u('splitted'))
    n = bind(w, e.vlen)
    read = lambda i, ty: u('parse', bind(bindn([w, n_num(i)], e.vidx), lambda t: L(T('deref', t))), L(T('type', ty)))
    good = lambda x: is_variant(x, RESV, 'Ok')
    val = lambda x: getv(x, 'Ok', '0')

    def made(k, idx, ty, build):
        xs = [read(i, ty) for i in range(idx)]
        c = TRUE
        for x in xs:
            c = n_and(c, good(x))
        return ite(c, some(enum(adt, K[k][0], ((K[k][1], build([val(x) for x in xs])),))), none())
    pt = lambda x, y: struct(PT, (('x', x), ('y', y)))
    number = made('number', 1, 'usize', lambda v: v[0])
    point = made('point', 2, 'i32', lambda v: pt(num(v[0]), num(v[1])))
    seg = made('line', 4, 'i32', lambda v: struct(LN, (('start', pt(num(v[0]), num(v[1]))), ('end', pt(num(v[2]), num(v[3]))))))
    is_n = lambda k: n_cmp('eq', n, n_num(k), False)
    want = ite(is_n(1), number, ite(is_n(2), point, ite(is_n(4), seg, none())))
    agree(chk, f, 'line', 'what a line says', got, [want], domain([]), None, e)


def num(x):
    """an i32 as coordinate"""
    return bind(x, lambda t: getv(L(T('numcast', 'i32', 'num', t)), 'Some', '0'))


def loop(chk, f, data, adt, K, V):
    O = {data.key: lambda c, a: u('data', deepval(c, a))}
    res, st, e = chk.summ(f, None, ['a'], overrides=O)
    if len(e.loops) != 1:
        raise Private('the loop over the lines')
    lp = e.loops[0]
    cond, after = FALSE, None
    for c, s in lp.backs:
        after = s if after is None else {k: ite(c, s[k], after[k]) for k in after if k in s}
        cond = n_or(cond, c)
    P = [(L(mu_sym(lp, root, p)), walk(lp.entry[root], p), walk(after[root], p)) for root, p in lp.havoc]
    it = [x for x in P if simplify_dc(x[2]).leaf is not None and simplify_dc(x[2]).leaf.op == 'rest']
    if len(it) != 1:
        raise Private('the iterator over the lines')
    x = u1('next', it[0][0])
    chk.ob('loop:lines', shown(it[0][1], 200) == 'lines(a)', '%s: the lines of the input are read from the first on: %s' % (chk.loc(f), shown(it[0][1], 100)))
    chk.ob('loop:next', simplify_dc(it[0][2]) is u1('rest', it[0][0]), '%s: one line after the other' % chk.loc(f))
    text = getv(x, 'Some', '0')
    io = n_and(is_some(x), n_not(is_ok(text)))
    d = u('data', getv(text, 'Ok', '0'))
    has = n_and(n_and(is_some(x), is_ok(text)), is_some(d))
    dv = getv(d, 'Some', '0')
    # the constructs of the loop: two lists, two numbers, the phase
    vec = [y for y in P if y[1].leaf is not None and y[1].leaf.op == 'vnew']
    cnt = [y for y in P if y[1] is n_num(0)]
    enums = [y for y in P if y not in it + vec + cnt]
    if len(enums) != 1 or enums[0][1].leaf is None or enums[0][1].leaf.op != 'S' or enums[0][1].leaf.a[3] or len(vec) > 2:
        raise Private('the phase of the reader')
    ph = enums[0]
    ptype = ph[1].leaf.a[0]
    names = [v['name'] for v in chk.facts.adts[ptype]['variants']]
    if len(names) != 4:
        raise Private('the phases of the reader')
    p0 = ph[1].leaf.a[1]
    rest = [x for x in names if x != p0]
    # what the loop does not change keeps its first value
    vec += [(L(T('vnew')),) * 3] * (2 - len(vec))
    cnt += [(n_num(0),) * 3] * (2 - len(cnt))
    alternatives = [(a, b, c) for c in itertools.permutations(rest) for a in itertools.permutations(cnt, 2) for b in itertools.permutations(vec)]
    chk.best(alternatives, lambda alt: step(chk, f, e, res, cond, x, dv, has, io, ph, ptype, names, p0, K, V, *alt))


def step(chk, f, e, res, cond, x, dv, has, io, ph, ptype, names, p0, K, V, numbers, lists, phases):
    """the specified step with an assignment of the roles"""
    (np_, nl_), (pts, lns), (p1, l0, l1) = numbers, lists, phases
    is_k = lambda k: is_variant(dv, V, K[k][0])
    val = lambda k: getv(dv, *K[k])
    at = lambda name: is_variant(ph[0], names, name)
    n = val('number')
    zero = n_cmp('eq', n, n_num(0), False)
    lenp, lenl = bind(pts[0], e.vlen), bind(lns[0], e.vlen)
    fewer = lambda a, b: n_cmp('lt', a, b, False)
    okp = n_and(n_and(at(p1), is_k('point')), fewer(lenp, np_[0]))
    okl = n_and(n_and(at(l1), is_k('line')), fewer(lenl, nl_[0]))
    okn = n_and(is_k('number'), n_or(at(p0), at(l0)))
    lastl = n_not(fewer(n_add(lenl, n_num(1)), nl_[0]))
    lastp = n_not(fewer(n_add(lenp, n_num(1)), np_[0]))
    fits = n_and(has, n_or(okn, n_or(okp, okl)))
    # a phase of points that has them all is not reached; integers: nothing
    # lies between a number and its successor
    dom = n_or(n_not(at(p1)), fewer(lenp, np_[0]))
    between = lambda a, b: n_and(fewer(a, b), fewer(b, n_add(a, n_num(1))))
    dom = n_and(dom, n_not(n_or(between(lenp, np_[0]), between(lenl, nl_[0]))))
    go = n_and(fits, n_not(n_and(okl, lastl)))
    A = lambda key, what, got, want: agree(chk, f, 'loop:' + key, what, got, [ite(dom, want, got)], domain([]), None, e)
    A('while', 'reading goes on exactly after a line that fits, up to the last segment', ite(n_and(okl, lastl), FALSE, cond), go)
    on = lambda want, got: ite(go, want, got)
    push = lambda y, v: bind(y[0], lambda t: L(T('vpush', t, v)))
    mkph = lambda name: enum(ptype, name, ())
    A('points', 'the points', pts[2], on(ite(okp, push(pts, val('point')), pts[0]), pts[2]))
    A('segments', 'the segments', lns[2], on(ite(okl, push(lns, val('line')), lns[0]), lns[2]))
    A('number of points', 'the announced number of points', np_[2], on(ite(at(p0), n, np_[0]), np_[2]))
    A('number of segments', 'the announced number of segments', nl_[2], on(ite(at(l0), n, nl_[0]), nl_[2]))
    want = ite(at(p0), ite(zero, mkph(l0), mkph(p1)), ite(at(p1), ite(lastp, mkph(l0), mkph(p1)), mkph(l1)))
    named = lambda x: ite(is_variant(x, names, p0), mkph(p0), ite(is_variant(x, names, p1), mkph(p1), ite(is_variant(x, names, l0), mkph(l0), mkph(l1))))
    A('phase', 'what is expected next', on(named(ph[2]), mkph(l1)), on(want, mkph(l1)))
    out = getv(res, 'Ok', '0')
    got_p, got_l = getf(out, '0'), getf(out, '1')
    fail = is_variant(res, RESV, 'Err')
    A('error', 'an error of the input is returned, and nothing else', ite(go, FALSE, fail), ite(go, FALSE, io))
    stop = n_and(n_not(go), n_not(io))
    A('result:points', 'the points returned', ite(stop, got_p, UNIT), ite(stop, pts[0], UNIT))
    A('result:segments', 'the segments returned', ite(stop, got_l, UNIT), ite(stop, ite(n_and(has, okl), push(lns, val('line')), lns[0]), UNIT))


def by_path(chk, f, buf):
    """a path: must be a file; it is opened and read"""
    O = {buf.key: lambda c, x: u('read', deepval(c, x)), 'std::path::Path::is_file': lambda c, p: u('is_file', deepval(c, p)),
         'std::fs::File::open': lambda c, p: u('open', deepval(c, p)), 'std::io::BufReader::new': lambda c, x: u('reader', deepval(c, x))}
    got, st, e = chk.summ(f, None, ['a'], overrides=O)
    file, opened = n_and(u('is_file', sym('a')), TRUE), u('open', sym('a'))
    good = n_and(file, is_variant(opened, RESV, 'Ok'))
    fail = is_variant(got, RESV, 'Err')
    agree(chk, f, 'file:error', 'a path that is no file, or cannot be opened, is an error', ite(good, TRUE, fail), [TRUE], domain([]), None, e)
    read = u('read', u('reader', getv(opened, 'Ok', '0')))
    agree(chk, f, 'file:read', 'the file is read', ite(good, got, read), [read], domain([]), None, e)
