"""Lookups by id are total.

Every public method of Diagram and SyncDiagram that takes an edge, vertex or
cell id (directly or as an Option) is found from the type-checked program and
summarised; under the assumption that the id is not one of the diagram's, its
result must be Err / None / (), it must leave the diagram unchanged, and for
no id at all may any panic site be reachable.  Plain getters must return the
element stored at the id's own position."""
from diag import *

RULE = 'for every public method with an id parameter: panic guards are unsatisfiable; under "unknown id" the result is Err/None and the final state equals the initial one'


def run(chk):
    r = roles(chk)
    from types import SimpleNamespace
    for which, adt in (('D', D), ('S', SD)):
        v = View(r, which)
        cols = {EIDX: v.E, VIDX: v.V, CIDX: v.C}
        for f in sorted(chk.facts.fns.values(), key=lambda f: f.key):
            if f.kind != 'AssocFn' or 'impl_self' not in f.d or 'trait' in f.d:
                continue
            t = f.ty(f.d['impl_self'])
            if t[0] != 'adt' or t[1] != adt or not f.d.get('public'):
                continue
            n = f.body['argc']
            tys = [f.ty(f.body['locals'][k + 1]['ty']) for k in range(n)]
            if n < 2 or tys[0][0] != 'ref':
                continue
            ids = []
            for k in range(1, n):
                a = tys[k]
                if a[0] == 'adt' and a[1] in cols:
                    ids.append((k, a[1], False))
                elif a[0] == 'adt' and a[1] == OPTION and a[2][0][0] == 'adt' and a[2][0][1] in cols:
                    ids.append((k, a[2][0][1], True))
            if not ids:
                continue
            chk.count('methods')
            one(chk, f, which, tys, ids, cols, v, adt)
    # element getters return the element itself
    get(chk, D, 'get_cell', 'C', View(r, 'D'))
    get(chk, D, 'get_edge', 'E', View(r, 'D'))
    get(chk, D, 'vertex_get', 'V', View(r, 'D'))
    for nm, w in (('edge_get', 'E'), ('edge_get_mut', 'E'), ('vertex_get', 'V'), ('vertex_get_mut', 'V'), ('cell_get', 'C')):
        get(chk, SD, nm, w, View(r, 'S'))
    s = sym('self_')
    for adt, fieldn, nm in ((D, r.d_cells, 'cells'), (D, r.d_edges, 'edges'), (D, r.d_vertices, 'vertices')):
        f = chk.method(adt, 'num_' + nm)
        res, st, e = chk.summ(f, argnames=['self_'])
        chk.equal('Diagram::num_' + nm, f, res, bind(getf(s, fieldn), ENG.vlen), 'the number of ' + nm)
    chk.floor('methods', 39)
    chk.floor('getters', 8)


def label(f):
    return '::'.join(f.spath.split('::')[-2:])


def one(chk, f, which, tys, ids, cols, v, adt):
    name = label(f)
    try:
        args = [None] * len(tys)
        unknown = FALSE
        for k, idt, opt in ids:
            args[k] = sym('id%d' % k)
            key = args[k]
            if opt:
                key = getv(args[k], 'Some', '0')
            inr = n_cmp('lt', raw(key), bind(cols[idt], ENG.vlen), False)
            u = n_not(inr)
            if opt:
                u = n_or(n_not(is_some(args[k])), u)
            unknown = n_or(unknown, u)
        res, st, e = chk.summ(f, args, ['self_'] + ['a%d' % i for i in range(1, len(tys))])
    except (Unsupported, TooBig) as ex:
        chk.undecided(name, 'not analysed: %s' % ex)
        return
    for p in e.panics:
        g = simplify_dc(p['guard'])
        chk.ob('%s:panic:%s' % (name, p['kind']), g is FALSE or g is BOT,
               '%s can panic (%s in %s) when %s' % (chk.loc(f), p['kind'], p['fn'], shown(g, 300)))
    chk.ob('%s:nopanic' % name, True, 'no reachable panic in %s' % name)
    # result under "unknown id"
    rt = f.ty(f.body['locals'][0]['ty'])
    if rt[0] == 'adt' and rt[1] in (OPTION, RESULT) and len(ids) == 1:
        good = is_ok(res) if rt[1] == RESULT else is_some(res)
        both = simplify_dc(n_and(unknown, good))
        chk.ob('%s:unknown' % name, both is FALSE,
               '%s: an id that is not in the diagram yields %s; found a value when %s' % (chk.loc(f), 'Err' if rt[1] == RESULT else 'None', shown(both, 300)))
    # state under "unknown id"
    fin = st.get(T('O', 'self_'), sym('self_'))
    if len(ids) == 1:
        a = ite(unknown, fin, L(T('outside')))
        b = ite(unknown, sym('self_'), L(T('outside')))
        chk.ob('%s:unchanged' % name, simplify_dc(a) is simplify_dc(b) or same_under_dc(a, b),
               '%s: an unknown id leaves the diagram unchanged; it becomes %s' % (chk.loc(f), shown(simplify_dc(a), 600)))


def get(chk, adt, name, w, v):
    f = chk.method(adt, name)
    i = sym('id')
    res, st, e = chk.summ(f, [None, i], ['self_'])
    val = okpart(res)
    st2 = dict(st)
    inner = bind(getv(res, 'Ok', '0'), lambda t: e.read_ref(st2, L(t)) if t.op == 'ref' else L(t))
    got = ite(is_ok(res), models.some_of(inner), none())
    want = v.get({'E': v.E, 'V': v.V, 'C': v.C}[w], i)
    chk.count('getters')
    chk.equal('%s:element' % label(f), f, got, want, 'the element at the id\'s position')
