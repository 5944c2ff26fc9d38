"""Values copy and compare by their contents.

Every Clone, PartialEq, PartialOrd/Ord pair and every Hash of the public types
is summarised: a copy is the original, equality is equality of all fields (for
beach-line keys and sites: of the sites they stand for), the two forms of an
order agree, and a hash takes in nothing but fields."""
from diag import *
from sweep import *

RULE = 'summaries of clone, eq, partial_cmp and hash == identity, equality of all fields, Some(cmp), fields only'
TR = {'clone': 'core::clone::Clone', 'eq': 'core::cmp::PartialEq', 'partial_cmp': 'core::cmp::PartialOrd', 'cmp': 'core::cmp::Ord', 'hash': 'core::hash::Hash'}
# compared by an order of their own (decided there)
OWN = ('CircleEvent', 'EndPointPair', 'SiteEvent')
PUB = ('geometry::Point', 'geometry::Line', 'diagram::CellIndex', 'diagram::EdgeIndex', 'diagram::VertexIndex')


def run(chk):
    F = chk.facts
    have = {}
    for i in F.impls:
        t = F.ty(i['crate'], i['self'])
        if t[0] != 'adt' or t[1] not in F.adts or i.get('trait') not in TR.values():
            continue
        args = [F.ty(i['crate'], x) for x in i.get('trait_args', [])][1:]
        if args and args[0] != t:
            continue
        for f in F.fns.values():
            if f.body is not None and f.key.startswith(i['key'] + '::') and TR.get(f.name) == i['trait']:
                have.setdefault(t[1], {})[f.name] = f
    for p in PUB:
        for n in ('clone', 'eq', 'hash'):
            chk.ob('has:%s:%s' % (p, n), n in have.get(CORE + '::' + p, {}), '%s can be copied, compared and hashed' % p)
    for adt in sorted(have):
        name = adt.split('::')[-1]
        fs = have[adt]
        if 'clone' in fs:
            chk.part(name + ':clone', clone, chk, name, fs['clone'])
        if 'eq' in fs and name not in OWN:
            chk.part(name + ':eq', equality, chk, name, adt, fs['eq'])
        if 'cmp' in fs and 'partial_cmp' in fs:
            chk.part(name + ':order', order, chk, name, fs['partial_cmp'], fs['cmp'])
        if 'hash' in fs and adt[len(CORE) + 2:] in PUB:
            chk.part(name + ':hash', hashing, chk, name, fs['hash'])
    f = have.get(CORE + '::geometry::Point', {}).get('partial_cmp')
    if f is None:
        raise Missing('PartialOrd for Point')
    chk.part('Point:order', points, chk, f)
    chk.floor('copies', 20)
    chk.floor('equalities', 12)


def clone(chk, name, f):
    chk.count('copies')
    r, st, e = chk.summ(f, None, ['a'])
    chk.equal(name + ':clone', f, r, sym('a'), 'a copy of a %s is equal to it in every part' % name)


def equality(chk, name, adt, f):
    chk.count('equalities')
    r, st, e = chk.summ(f, None, ['a', 'b'])
    want = same(chk, e, ('adt', adt, tuple(('param', '?') for _ in range(3))), sym('a'), sym('b'))
    chk.equal(name + ':eq', f, nonan(purify(r)), nonan(purify(want)), 'two of %s are equal exactly if all their parts are' % name)


def same(chk, e, ty, a, b):
    """all parts are equal"""
    F = chk.facts
    if ty[0] == 'prim':
        return n_cmp('eq', a, b, ty[1] in ('f32', 'f64'))
    if ty[0] == 'param':
        return n_cmp('eq', a, b, ty[1] not in ('I', 'T', 'I1', 'I2'))
    if ty[0] == 'array':
        c = TRUE
        for i in range(size(ty)):
            x, y = [bindn([v, n_num(i)], e.vidx) for v in (a, b)]
            c = n_and(c, same(chk, e, ty[1], x, y))
        return c
    if ty[0] == 'tuple':
        c = TRUE
        for i, t in enumerate(ty[1]):
            c = n_and(c, same(chk, e, t, getf(a, str(i)), getf(b, str(i))))
        return c
    if ty[0] != 'adt':
        raise Unsupported('type %s' % (ty,))
    if ty[1] == OPTION:
        v = same(chk, e, ty[2][0], getv(a, 'Some', '0'), getv(b, 'Some', '0'))
        return ite(is_some(a), ite(is_some(b), v, FALSE), n_not(is_some(b)))
    if ty[1] not in F.adts:
        raise Unsupported('type %s' % ty[1])
    A = F.adts[ty[1]]
    if ty[1].endswith('::SiteEvent'):
        # a site is equal to another if it is at the same place
        fs = [f['name'] for f in A['variants'][0]['fields'] if F.ty(A['crate'], f['ty'])[:1] == ('adt',) and F.ty(A['crate'], f['ty'])[1].endswith('::Site')]
        if len(fs) != 1:
            raise Private('the place of a site')
        return same(chk, e, ('adt', CORE + '::site_event::Site', ()), getf(a, fs[0]), getf(b, fs[0]))
    vs = A['variants']
    if len(vs) == 1:
        c = TRUE
        for f in vs[0]['fields']:
            c = n_and(c, same(chk, e, F.ty(A['crate'], f['ty']), getf(a, f['name']), getf(b, f['name'])))
        return c
    names = [v['name'] for v in vs]
    r = FALSE
    for v in vs:
        c = TRUE
        for f in v['fields']:
            c = n_and(c, same(chk, e, F.ty(A['crate'], f['ty']), getv(a, v['name'], f['name']), getv(b, v['name'], f['name'])))
        r = ite(is_variant(a, names, v['name']), ite(is_variant(b, names, v['name']), c, FALSE), r)
    return r


def size(ty):
    n = ty[2]
    n = n[1] if isinstance(n, tuple) else n
    return int(str(n))


def order(chk, name, p, c):
    asked = u('order', sym('a'), sym('b'))
    r, st, e = chk.summ(p, None, ['a', 'b'], overrides={c.key: lambda x, a, b: u('order', deepval(x, a), deepval(x, b))})
    if simplify_dc(r) is some(asked):
        return chk.ob(name + ':order', True, 'the partial order of %s is its order' % name)
    r, st, e = chk.summ(p, None, ['a', 'b'])
    w, st, e = chk.summ(c, None, ['a', 'b'])
    chk.equal(name + ':order', p, r, some(w), 'the partial order of %s is its order' % name)


def points(chk, f):
    r, st, e = chk.summ(f, None, ['a', 'b'])
    a, b = sym('a'), sym('b')
    o = lambda n: enum(ORDERING, n, ())
    by = lambda k, eq: ite(n_cmp('lt', getf(a, k), getf(b, k), False), o('Less'), ite(n_cmp('eq', getf(a, k), getf(b, k), False), eq, o('Greater')))
    chk.equal('Point:partial_cmp', f, r, some(by('x', by('y', o('Equal')))), 'points are ordered by x, then by y')


def hashing(chk, name, f):
    seen = []

    def h(c, x, st):
        seen.append(deepval(c, x))
        return UNIT
    r, st, e = chk.summ(f, None, ['a', 'h'], overrides={'std::hash::Hash::hash': h, 'core::hash::Hash::hash': h})
    ok_ = bool(seen)
    for x in seen:
        t = simplify_dc(x)
        while t.leaf is not None and t.leaf.op == 'f':
            t = L(t.leaf.a[0])
        ok_ &= t is sym('a')
    chk.ob(name + ':hash', ok_, '%s: the hash of a %s is made of its parts: %s' % (chk.loc(f), name, ', '.join(shown(x, 40) for x in seen)))
