"""The thread-safe form holds exactly the elements of the diagram.

The conversion is summarised: each of its three lists is built by one pass over
the corresponding list of the diagram appending every element unchanged (the
one-iteration summary for an arbitrary position).  Construction from lists and
the list accessors are identities.  That the result may be shared between
threads is decided on its type: no field type, recursively, is a shared-mutable
or thread-bound type."""
from diag import *

RULE = 'conversion loop appends every element unchanged, in order; recursive field types are plain data'
PLAIN = {'alloc::vec::Vec', 'core::option::Option', 'alloc::string::String', 'smallvec::SmallVec', 'core::marker::PhantomData', 'alloc::alloc::Global', 'alloc::boxed::Box'}


def run(chk):
    r = roles(chk)
    chk.part('convert', convert, chk, r)
    chk.part('new', new, chk, r)
    chk.part('types', types, chk, r)
    chk.part('serde', serde, chk, r)
    chk.floor('lists', 3)


def convert(chk, r):
    fs = chk.traitfn('core::convert::From', 'from', lambda t: t[0] == 'adt' and t[1] == SD)
    if len(fs) != 1:
        raise Missing('conversion from Diagram into SyncDiagram')
    f = fs[0]
    res, st, e = chk.summ(f, None, ['d'])
    d = sym('d')
    for nm, src, dst in (('cells', r.d_cells, r.s_cells), ('vertices', r.d_vertices, r.s_vertices), ('edges', r.d_edges, r.s_edges)):
        chk.count('lists')
        chk.part('convert:' + nm, copied_in_order, chk, 'convert:' + nm, f, e, getf(res, dst), getf(d, src), 'conversion of the ' + nm)
    for p in e.panics:
        chk.ob('convert:panic', simplify_dc(p['guard']) is FALSE, 'the conversion can panic when %s' % shown(p['guard'], 200))


def new(chk, r):
    f = chk.method(SD, 'new')
    c, v, ed = sym('c'), sym('v'), sym('e')
    res, st, e = chk.summ(f, [c, v, ed], ['c', 'v', 'e'])
    for nm, dst, x in (('cells', r.s_cells, c), ('vertices', r.s_vertices, v), ('edges', r.s_edges, ed)):
        chk.equal('new:' + nm, f, getf(res, dst), x, 'the %s are stored as given' % nm)
        g = chk.method(SD, nm)
        r2, st2, e2 = chk.summ(g, [res], ['obj'])
        chk.equal('read:' + nm, g, bind(r2, lambda t: e2.read_ref(st2, L(t)) if t.op == 'ref' else L(t)), x, '%s() returns the stored list' % nm)


def trait_named(chk, last, method):
    for (tr, n), fs in chk.facts.implfn.items():
        if n == method and tr.rsplit('::', 1)[1] == last:
            return fs
    return []


def serde(chk, r):
    """with the serde feature every stored field is written, and no field is
    filled in by default when reading"""
    sers = trait_named(chk, 'Serialize', 'serialize')
    for adt in (SD, EDGE, CELL, VERTEX, EIDX, VIDX, CIDX):
        f = [g for g in sers if g.ty(g.d['impl_self'])[:2] == ('adt', adt)]
        chk.ob('serialize:' + adt, len(f) == 1, '%s can be serialised' % adt)
        for g in f:
            if not g.d.get('derived'):
                # hand-written: not decided field by field
                continue
            chk.count('serialised types')
            res, st, e = chk.summ(g, None, ['d', 'ser'])
            written = set()
            for ev in e.events:
                if ev[0] == 'call' and ev[1].rsplit('::', 1)[1] in ('serialize_field', 'serialize_newtype_struct'):
                    written |= {t.a[1] for x in ev[2] for t in subterms(x).values() if t.op == 'f' and t.a[0] is T('sym', 'd')}
            names = set(field_names(chk.facts, adt))
            chk.ob('written:' + adt, names <= written, '%s: serialisation of %s writes every field; not written: %s' % (chk.loc(g), adt, sorted(names - written)))
    # reading: visitors construct the types without defaults
    for m in ('visit_seq', 'visit_map', 'visit_newtype_struct'):
        for g in trait_named(chk, 'Visitor', m):
            if not g.spath.startswith(CORE):
                continue
            chk.count('visitors')
            calls = [b['term']['f']['fn']['path'] for b in g.body['blocks'] if b['term']['k'] == 'call' and b['term']['f'].get('fn')]
            d = [c for c in calls if strip_generics(c).endswith('Default::default')]
            chk.ob('read:%s:%s' % (g.ty(g.d['impl_self'])[1], m), not d, '%s: every field is read, none is filled in by default' % chk.loc(g))


def types(chk, r):
    """SyncDiagram is plain data (Send + Sync by construction)"""
    seen = set()

    def bad(t, path):
        k = t[0]
        if k in ('prim', 'param'):
            return []
        if k in ('tuple',):
            return [b for x in t[1] for b in bad(x, path)]
        if k in ('array', 'slice'):
            return bad(t[1], path)
        if k == 'adt':
            out = [b for x in t[2] if isinstance(x, tuple) and x[0] != 'const' for b in bad(x, path)]
            if t[1] in PLAIN:
                return out
            a = chk.facts.adts.get(t[1])
            if a is None or not t[1].startswith(CORE):
                return out + ['%s: %s' % (path, t[1])]
            if t[1] in seen:
                return out
            seen.add(t[1])
            for v in a['variants']:
                for fd in v['fields']:
                    out += bad(chk.facts.ty(a['crate'], fd['ty']), path + '.' + fd['name'])
            return out
        return ['%s: %s' % (path, k)]
    b = bad(('adt', SD, ()), 'SyncDiagram')
    chk.count('types', len(seen))
    chk.ob('plain-data', not b, 'every field of the thread-safe diagram is plain data, so it may be shared between threads; not: %s' % ', '.join(b))
