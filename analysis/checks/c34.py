"""What is serialised is read back: every field, under its own name.

For every public type that can be serialised the functions that write it and
that read it back are summarised, with the calls of the data format opaque.
Writing: each field of the value once, under one name.  Reading from a
sequence: the n-th element is the field that was written n-th.  Reading from a
map: the name of a field leads to the slot that the value is built from, one
entry at a time.  The kinds of units likewise."""
from diag import *
from paths import *
from sweep import *

RULE = 'fields written by serialize == fields read by deserialize, by name and by position'
SER, DE = 'serde_core::ser::Serialize', 'serde_core::de::Deserialize'
PUB = ['diagram::CellIndex', 'diagram::EdgeIndex', 'diagram::VertexIndex', 'diagram::SourceCategory', 'diagram::Cell', 'diagram::Vertex', 'diagram::Edge',
       'geometry::Point', 'geometry::Line', 'sync_diagram::SyncDiagram']


def run(chk):
    F = chk.facts
    have = {}
    for i in F.impls:
        t = F.ty(i['crate'], i['self'])
        if i.get('trait') in (SER, DE) and t[0] == 'adt':
            have.setdefault(t[1], {})[i['trait']] = i
    for p in PUB:
        chk.ob('forms:' + p, set(have.get(CORE + '::' + p, {})) == {SER, DE}, '%s can be written and read back' % p)
    for adt in sorted(have):
        if set(have[adt]) == {SER, DE} and adt in F.adts:
            chk.part(adt.split('::')[-1], one, chk, adt, have[adt])


def member(chk, i, name):
    fs = [f for f in chk.facts.fns.values() if f.name == name and f.body is not None and f.key == i['key'] + '::' + name]
    if len(fs) != 1:
        raise Private(name)
    return fs[0]


def one(chk, adt, impls):
    F = chk.facts
    name = adt.split('::')[-1]
    a = F.adts[adt]
    ser, de = member(chk, impls[SER], 'serialize'), member(chk, impls[DE], 'deserialize')
    inner = [f for f in F.fns.values() if f.body is not None and f.key.startswith(de.key + '::')]

    def visit(what):
        fs = [f for f in inner if f.name == what]
        if len(fs) != 1:
            raise Private('how %s is read' % name)
        return fs[0]
    if len(a['variants']) > 1:
        if any(v['fields'] for v in a['variants']):
            raise Private('the form of ' + name)
        return units(chk, name, adt, [v['name'] for v in a['variants']], ser, de, visit)
    fields = [f['name'] for f in a['variants'][0]['fields']]
    if ser_newtype(chk, name, adt, fields, ser):
        return newtype(chk, name, adt, fields, de, visit)
    written = wrote(chk, name, ser, fields)
    if written is None:
        return
    read(chk, name, adt, fields, written, de, visit)


def text(x):
    x = simplify_dc(x)
    if x.leaf is None or x.leaf.op != 'str':
        raise Private('a name that is not a constant')
    return x.leaf.a[0]


def ser_newtype(chk, name, adt, fields, ser):
    got = []

    def nt(c, s, n, v):
        got.append(deepval(c, v))
        return u('done')
    r, st, e = chk.summ(ser, None, ['a', 's'], overrides={'serde::Serializer::serialize_newtype_struct': nt})
    if not got:
        return False
    chk.ob(name + ':written', len(fields) == 1 and r is u('done') and got == [getf(sym('a'), fields[0])], '%s: the value is written' % chk.loc(ser))
    return True


def newtype(chk, name, adt, fields, de, visit):
    f = visit('visit_newtype_struct')
    r, st, e = chk.summ(f, None, ['v', 'd'], overrides={'serde::Deserialize::deserialize': lambda c, d: u('value', d)})
    v = u('value', sym('d'))
    agree(chk, f, name + ':read', 'the value read is the value written', r, [ite(is_ok(v), ok(struct(adt, ((fields[0], getv(v, 'Ok', '0')),))), r)], domain([]), None, e)
    seq(chk, name, adt, fields, fields, visit)


def wrote(chk, name, ser, fields):
    out, n, calls = [], [], []

    def begin(c, s, nm, k):
        n.append(k)
        return ok(u('form'))

    def field(c, s, nm, v):
        out.append((c.base, text(nm), deepval(c, v)))
        return ok(UNIT)

    def skip(c, *x):
        out.append((c.base, None, None))
        return ok(UNIT)
    r, st, e = chk.summ(ser, None, ['a', 's'], overrides={
        'serde::Serializer::serialize_struct': begin, 'serde::ser::SerializeStruct::serialize_field': field,
        'serde::ser::SerializeStruct::skip_field': skip, 'serde::ser::SerializeStruct::end': lambda c, s: u('done')})
    if len(n) != 1:
        raise Private('how %s is written' % name)
    vals = [getf(sym('a'), f) for f in fields]
    where = chk.loc(ser)
    always = all(g is TRUE and nm is not None for g, nm, v in out) and r is u('done')
    names = [nm for g, nm, v in out if nm is not None]
    good = True
    for f, v in zip(fields, vals):
        good &= chk.ob('%s:written:%s' % (name, f), [x for g, nm, x in out].count(v) == 1, '%s: %s is written once' % (where, f))
    good &= chk.ob(name + ':written', always and len(out) == len(fields) and len(set(names)) == len(names) and n[0] is n_num(len(fields)),
                   '%s: exactly the fields of the value are written, always, under different names: %s' % (where, ', '.join(names)))
    return [(nm, fields[vals.index(v)]) for g, nm, v in out] if good else None


def seq(chk, name, adt, fields, order, visit):
    """from a sequence: the elements are the fields in the order written"""
    f = visit('visit_seq')
    n = [0]

    def nxt(c, s):
        n[0] += 1
        return ok(some(sym('element%d' % n[0])))
    r, st, e = chk.summ(f, None, ['v', 'q'], overrides={'serde::de::SeqAccess::next_element': nxt})
    want = ok(struct(adt, tuple((x, sym('element%d' % (order.index(x) + 1))) for x in fields)))
    agree(chk, f, name + ':sequence', 'the elements of a sequence are the fields as they were written', r, [want], domain([]), None, e)


def read(chk, name, adt, fields, written, de, visit):
    order = [f for nm, f in written]
    told = []

    def begin(c, d, nm, names, v):
        told.append(deepval(c, names))
        return u('done')
    r, st, e = chk.summ(de, None, ['d'], overrides={'serde::Deserializer::deserialize_struct': begin})
    if len(told) != 1:
        raise Private('how %s is read' % name)
    said = [simplify_dc(x) for k, x in told[0].leaf.a[3]] if told[0].leaf is not None and told[0].leaf.op == 'S' else None
    if said is None:
        raise Private('the names of ' + name)
    names = [L(T('str', nm)) for nm, f in written]
    chk.ob(name + ':names', [x for x in said if x in names] == names, '%s: the names asked for are the names written: %s' % (chk.loc(de), ', '.join(shown(x, 30) for x in said)))
    seq(chk, name, adt, fields, order, visit)
    byname, bynum = visit('visit_str'), visit('visit_u64')
    slots = {}
    for k, (nm, f) in enumerate(written):
        v1, v2 = lookup(chk, byname, L(T('str', nm))), lookup(chk, bynum, n_num(k))
        chk.ob('%s:name:%s' % (name, f), v1 is not None and v1 == v2 and v1 not in slots.values(), '%s: the name and the number of %s lead to one place of its own: %s, %s' % (chk.loc(byname), f, v1, v2))
        slots[f] = v1
    if None in slots.values():
        return
    chk.part(name + ':map', by_map, chk, name, adt, fields, slots, visit)


def lookup(chk, f, x):
    """the kind of field a name or a number stands for"""
    r, st, e = chk.summ(f, [None, x], ['v', 'x'])
    r = simplify_dc(r)
    if r.leaf is None or r.leaf.op != 'S' or r.leaf.a[1] != 'Ok':
        return None
    y = simplify_dc(getv(r, 'Ok', '0'))
    return y.leaf.a[1] if y.leaf is not None and y.leaf.op == 'S' else None


def by_map(chk, name, adt, fields, slots, visit):
    f = visit('visit_map')
    val = sym('value')
    res, st, e = chk.summ(f, None, ['v', 'm'], overrides={
        'serde::de::MapAccess::next_key': lambda c, m: ok(sym('key')), 'serde::de::MapAccess::next_value': lambda c, m: ok(val)})
    if len(e.loops) != 1:
        raise Private('the loop over the entries of ' + name)
    lp = e.loops[0]
    key = getv(sym('key'), 'Some', '0')
    P = [(L(mu_sym(lp, root, p)), walk(lp.entry[root], p), [(c, walk(s[root], p)) for c, s in lp.backs]) for root, p in lp.havoc]
    P = [x for x in P if x[1] is none()]
    kinds = None
    for c, s in lp.backs:
        for t in atoms_of(c):
            if t.op == 'disc' and L(t.a[0]) is key:
                kinds = t.a[1]
    if kinds is None:
        raise Private('the kinds of fields of ' + name)
    # where the value is built: which slot each field comes from
    built = {}
    done = n_not(is_some(sym('key')))
    full = TRUE
    for m, _, _ in P:
        full = n_and(full, is_some(m))
    for fl in fields:
        x = simplify_dc(ite(n_and(done, full), getf(getv(res, 'Ok', '0'), fl), BOT))
        src = [i for i, y in enumerate(P) if getv(y[0], 'Some', '0') in [L(t) for t in leafset(x)]]
        if not chk.ob('%s:built:%s' % (name, fl), len(src) == 1, '%s: %s is the value of one entry' % (chk.loc(f), fl)):
            return
        built[fl] = P[src[0]]
    for fl in fields:
        m, _, after = built[fl]
        mine = n_and(is_some(sym('key')), is_variant(key, kinds, slots[fl]))
        for i, (c, v) in enumerate(after):
            agree(chk, f, '%s:entry:%s' % (name, fl), 'an entry with the name of %s, and no other, sets it' % fl, ite(c, v, UNIT), [ite(c, ite(mine, some(val), m), UNIT)], domain([]), None, e)
    want = ok(struct(adt, tuple((fl, getv(built[fl][0], 'Some', '0')) for fl in fields)))
    agree(chk, f, name + ':map', 'with all entries there the value is built from them', ite(n_and(done, full), res, UNIT), [ite(n_and(done, full), want, UNIT)], domain([]), None, e)


def atoms_of(n):
    seen, todo, out = set(), [n], []
    while todo:
        x = todo.pop()
        if x.id in seen or x.leaf is not None:
            continue
        seen.add(x.id)
        out.append(x.atom)
        todo += x.ch
    return out


def units(chk, name, adt, vs, ser, de, visit):
    written = []

    def unit(c, s, nm, k, v):
        return u('variant', k, v)
    r, st, e = chk.summ(ser, None, ['a', 's'], overrides={'serde::Serializer::serialize_unit_variant': unit})
    byname, bynum, f = visit('visit_str'), visit('visit_u64'), visit('visit_enum')
    back, st, e2 = chk.summ(f, None, ['v', 'd'], overrides={
        'serde::de::EnumAccess::variant': lambda c, d: ok(tup(sym('kind'), sym('access'))), 'serde::de::VariantAccess::unit_variant': lambda c, x: ok(UNIT)})
    kinds = [a.a[1] for a in atoms_of(back) if a.op == 'disc' and L(a.a[0]) is sym('kind')]
    if not kinds:
        raise Private('the kinds of ' + name)
    for v in vs:
        me = enum(adt, v, ())
        xs = {L(t) for t in leafset(simplify_dc(ite(is_variant(sym('a'), vs, v), r, BOT)))} - {BOT}
        x = xs.pop() if len(xs) == 1 else BOT
        good = x.leaf is not None and x.leaf.op == 'variant'
        if not chk.ob('%s:written:%s' % (name, v), good, '%s: %s is written' % (chk.loc(ser), v)):
            continue
        k1, k2 = lookup(chk, byname, L(x.leaf.a[1])), lookup(chk, bynum, L(x.leaf.a[0]))
        chk.ob('%s:name:%s' % (name, v), k1 is not None and k1 == k2, '%s: the name and the number of %s stand for it' % (chk.loc(byname), v))
        if k1 is None:
            continue
        y = simplify_dc(ite(is_variant(sym('kind'), kinds[0], k1), back, BOT))
        chk.ob('%s:read:%s' % (name, v), {L(t) for t in leafset(y)} - {BOT} == {ok(me)}, '%s: what %s is written as is read as %s' % (chk.loc(f), v, shown(y, 200)))
