"""Global value numbering over MIR with gated joins.

One forward dataflow pass per function: every program point carries one
abstract store (place -> value number); at a join the stores are merged with
gated phis (decision nodes on the branch conditions); loops are cut at their
header, where everything the loop writes becomes an opaque loop symbol.
Crate-local callees are analysed in context (inlined summaries), standard
library operations have the transfer functions below, everything else is an
uninterpreted operation.  No path is ever enumerated and nothing is executed.
"""
from fractions import Fraction
from terms import *
import terms
from facts import Facts, Fn, Missing, subst, unify

OPTION = 'core::option::Option'
RESULT = 'core::result::Result'
ORDERING = 'core::cmp::Ordering'
CFLOW = 'core::ops::control_flow::ControlFlow'
EXT_ENUMS = {
    OPTION: (('None', 0), ('Some', 1)),
    RESULT: (('Ok', 0), ('Err', 1)),
    ORDERING: (('Less', 255), ('Equal', 0), ('Greater', 1)),
    CFLOW: (('Continue', 0), ('Break', 1)),
    'alloc::borrow::Cow': (('Borrowed', 0), ('Owned', 1)),
}
INTW = {'i8': 8, 'i16': 16, 'i32': 32, 'i64': 64, 'i128': 128, 'isize': 64,
        'u8': 8, 'u16': 16, 'u32': 32, 'u64': 64, 'u128': 128, 'usize': 64}
FLOATS = ('f32', 'f64')
TRANSPARENT = {'alloc::rc::Rc', 'alloc::rcs::rc::Rc', 'alloc::boxed::Box', 'core::cell::Cell', 'core::cell::RefCell', 'alloc::sync::Arc', 'alloc::rcs::sync::Arc'}

def none(): return enum(OPTION, 'None', ())
def some(x): return enum(OPTION, 'Some', (('0', x),))
def ok(x): return enum(RESULT, 'Ok', (('0', x),))
def err(x): return enum(RESULT, 'Err', (('0', x),))
def tup(*xs): return struct('tuple', tuple((str(i), x) for i, x in enumerate(xs)))
UNIT = struct('tuple', ())
LESS, EQUAL, GREATER = [enum(ORDERING, v, ()) for v in ('Less', 'Equal', 'Greater')]
OPTV = ('None', 'Some')
RESV = ('Ok', 'Err')
ORDV = ('Less', 'Equal', 'Greater')

def is_some(o): return is_variant(o, OPTV, 'Some')
def is_ok(o): return is_variant(o, RESV, 'Ok')

def overflows(x, ty):
    """the integer does not fit its type"""
    w, c = INTW.get(ty[1]) if ty[0] == 'prim' else None, const_of(x)
    if w is None:
        return FALSE
    lo, hi = (0, (1 << w) - 1) if ty[1][0] == 'u' else (-(1 << (w - 1)), (1 << (w - 1)) - 1)
    if c is not None:
        return B(not lo <= c <= hi)
    return bool_of(T('ovf', ty[1], x))

UNROLL_NODES = 20000      # values one loop may take when followed turn by turn

class NotConstant(Exception):
    pass

class Unsupported(Exception):
    pass

class Ref:
    pass

def mkref(root, path=()):
    return L(T('ref', root, tuple(path)))

class Frame:
    def __init__(s, fn, sub, base, parent=None):
        # deterministic: the chain of call sites
        if parent is None:
            s.id = T('fr', fn.key, 0, 0, 0)
        else:
            parent.nc += 1
            s.id = T('fr', fn.key, parent.id, parent.bb, parent.nc)
        s.bb = s.nc = 0
        s.depth = 0 if parent is None else parent.depth + 1
        s.fn = fn
        s.sub = sub
        s.base = base          # absolute guard of the call

class Loop:
    pass

class Engine:
    def __init__(s, facts, overrides=None, float_params=('F', 'F1', 'F2', 'O', 'U'), maxdepth=60, noinline=(), budget=None, distinct=None, inrange=None, unroll=0, checked=False, single=lambda x: True):
        s.single = single
        s.checked, s.noted = checked, []
        s.unroll = unroll
        s.arrlen = {}      # arrays whose type tells their length
        s.facts = facts
        s.overrides = overrides or {}
        s.float_params = set(float_params)
        s.maxdepth = maxdepth
        s.noinline = set(noinline)
        s.panics = []
        s.events = []
        s.opaque = {}
        s.visited = set()
        s.loops = []
        s.stack = []
        s.unsupported = []
        s.ncalls = 0
        s.budget = budget
        if distinct:
            s.distinct = distinct
        if inrange:
            s.inrange = (lambda b, i: True) if inrange is True else inrange
        s.node0 = len(terms._nlist) + len(terms._tlist)
        for a in facts.adts.values():
            if a['kind'] == 'Struct':
                declare_fields(a['key'], len(a['variants'][0]['fields']))

    # ---------------------------------------------------------------- types
    def isnum(s, t):
        if t[0] == 'ref':
            return s.isnum(t[2])
        if t[0] == 'prim':
            return t[1] in INTW or t[1] in FLOATS
        if t[0] == 'adt' and t[1] in ('ordered_float::OrderedFloat', 'core::num::wrapping::Wrapping'):
            return False
        return t[0] == 'param' or (t[0] == 'other' and t[1] == 'alias')

    def isfloat(s, t):
        if t[0] == 'ref':
            return s.isfloat(t[2])
        if t[0] == 'prim':
            return t[1] in FLOATS
        return t[0] == 'param' and t[1] in s.float_params

    def variants(s, adtkey):
        if adtkey in EXT_ENUMS:
            return EXT_ENUMS[adtkey]
        a = s.facts.adts.get(adtkey)
        if a is None or a['kind'] != 'Enum':
            return None
        return tuple((v['name'], v['discr']) for v in a['variants'])

    # --------------------------------------------------------------- memory
    def read_root(s, st, root):
        v = st.get(root)
        if v is None:
            if root.op == 'D':
                t = root.a[0]
                v = L(T('deref', t)) if t.op != 'addr' else t.a[0]
            elif root.op == 'O':
                v = L(T('sym', root.a[0]))
            else:
                v = L(T('undef'))
            st[root] = v
        return v

    def read_path(s, v, path):
        for e in path:
            v = s.read_elem(v, e)
        return v

    def read_elem(s, v, e):
        k = e[0]
        if k == 'f':
            return getf(v, e[1])
        if k == 'v':
            return getv(v, e[1], e[2])
        if k == 'i':
            return bindn([v, e[1]], s.vidx)
        if k == 'off':
            return bindn([v, e[1]], lambda b, c: L(b) if const_of(c) == 0 else L(T('off', b, c)))
        if k == 'cut':
            return bindn([v, e[1]], lambda b, c: L(b) if s.vlen(b).leaf is c else L(T('vtrunc', b, c)))
        raise Unsupported('path ' + str(e))

    def vidx(s, b, i):
        if b.op == 'S':
            c = const_of(i)
            if c is not None:
                for k, v in b.a[3]:
                    if k == str(c):
                        return v
                return BOT
            return L(T('idx', b, i))
        if b.op == 'rep':
            return b.a[0]
        if b.op == 'vtrunc':
            return s.vidx(b.a[0], i)
        if b.op == 'off':
            return s.vidx(b.a[0], padd(i, b.a[1]))
        if b.op == 'upoff':
            # slice view written through: upoff(base, c, newbase)
            return s.vidx(b.a[2], padd(i, b.a[1]))
        if b.op == 'vupd':
            d = padd(i, b.a[1], -1)
            c = const_of(d)
            if c == 0:
                return b.a[2]
            if c is not None or s.distinct(i, b.a[1]):
                return s.vidx(b.a[0], i)
            other = s.vidx(b.a[0], i)
            return sign_leaf(d, False, other, b.a[2], other, None)
        if b.op == 'vpush':
            ln = s.vlen(b.a[0]).leaf
            d = padd(i, ln, -1)
            c = const_of(d)
            if c == 0:
                return b.a[1]
            if c is not None:
                return s.vidx(b.a[0], i) if c < 0 else BOT
            if s.distinct(i, ln):
                return s.vidx(b.a[0], i)
            return sign_leaf(d, False, s.vidx(b.a[0], i), b.a[1], BOT, None)
        if b.op == 'vpop':
            return s.vidx(b.a[0], i)
        if b.op == 'undef':
            return BOT
        return L(T('idx', b, i))

    # preconditions a check may supply: indices known to be different, and
    # (sequence, index) pairs known to be in range
    distinct = staticmethod(lambda i, j: False)
    inrange = staticmethod(lambda b, i: False)

    def vlen(s, b):
        if b.op == 'S':
            return n_num(len(b.a[3]))
        if b.op == 'vupd':
            return s.vlen(b.a[0])
        if b.op == 'vpush':
            return n_add(s.vlen(b.a[0]), n_num(1))
        if b.op == 'vpop':
            return n_sub(s.vlen(b.a[0]), n_num(1))
        if b.op == 'vnew':
            return n_num(0)
        if b.op == 'vtrunc':
            return L(b.a[1])
        if b.op == 'off':
            return n_sub(s.vlen(b.a[0]), L(b.a[1]))
        known = getattr(s, 'arrlen', {}).get(b)
        if known is not None:
            return n_num(known)
        return L(T('len', b))

    def note_length(s, st, fr, a, ty):
        """the array behind reference a has the length its type says"""
        if ty[0] == 'ref' and ty[2][0] == 'array' and str(ty[2][2]).isdigit():
            v = s.read_ref(st, a)
            if v.leaf is not None and v.leaf.op != 'S':
                s.arrlen[v.leaf] = int(str(ty[2][2]))

    def vpop(s, b):
        """b without its last element"""
        if b.op == 'vpush':
            return b.a[0] if isinstance(b.a[0], Node) else L(b.a[0])
        if b.op == 'vupd':
            return s.vpop(b.a[0]) if const_of(padd(b.a[1], s.vlen(b).leaf, -1)) == -1 else L(T('vpop', b))
        return L(T('vpop', b))

    def vset(s, b, i, x):
        if b.op == 'S':
            c = const_of(i)
            if c is not None:
                return L(T('S', b.a[0], b.a[1], b.a[2], tuple((k, x if k == str(c) else v) for k, v in b.a[3])))
        if b.op == 'vpush':
            d = const_of(padd(i, s.vlen(b.a[0]).leaf, -1))
            if d == 0:
                return L(T('vpush', b.a[0], x))
            if (d is not None and d < 0) or (d is None and s.distinct(i, s.vlen(b.a[0]).leaf)):
                return bind(s.vset(b.a[0], i, x), lambda t: L(T('vpush', t, b.a[1])))
        if b.op == 'vupd':
            d = const_of(padd(i, b.a[1], -1))
            if d == 0:
                return L(T('vupd', b.a[0], i, x))
            if (d is not None or s.distinct(i, b.a[1])) and i.id < b.a[1].id:
                return bind(s.vset(b.a[0], i, x), lambda t: L(T('vupd', t, b.a[1], b.a[2])))
        if b.op == 'off':
            return bind(s.vset(b.a[0], padd(i, b.a[1]), x), lambda t: L(T('off', t, b.a[1])))
        cur = s.vidx(b, i)
        if cur is x:
            return L(b)
        return L(T('vupd', b, i, x))

    def write_path(s, v, path, val):
        if not path:
            return val
        e = path[0]
        if e[0] == 'f':
            return setf(v, e[1], s.write_path(getf(v, e[1]), path[1:], val))
        if e[0] == 'v':
            inner = s.write_path(getv(v, e[1], e[2]), path[1:], val)
            def f(t):
                if t.op == 'S':
                    if t.a[1] != e[1]:
                        return L(t)
                    fs = tuple((k, inner if k == e[2] else x) for k, x in t.a[3])
                    return enum(t.a[0], t.a[1], fs)
                return bind(purify(inner), lambda x: L(T('upv', t, e[1], e[2], unpk(x))))
            return bind(v, f)
        if e[0] == 'i':
            def g(b, i):
                if len(path) == 1:
                    x = val
                else:
                    x = s.write_path(s.vidx(b, i), path[1:], val)
                return s.vset(b, i, x)
            return bindn([v, e[1]], g)
        if e[0] == 'off':
            if len(path) >= 2 and path[1][0] == 'i':
                return s.write_path(v, (('i', n_add(path[1][1], e[1])),) + tuple(path[2:]), val)
            if len(path) >= 2 and path[1][0] == 'off':
                return s.write_path(v, (('off', n_add(path[1][1], e[1])),) + tuple(path[2:]), val)
            if len(path) >= 3 and path[1][0] == 'cut':
                return s.write_path(v, (e,) + tuple(path[2:]), val)
            # whole-slice write (opaque)
            return bindn([v, e[1], purify(val)], lambda b, c, x: L(T('upslice', b, c, unpk(x))))
        if e[0] == 'cut' and len(path) >= 2:
            return s.write_path(v, path[1:], val)
        raise Unsupported('write ' + str(e))

    def read_ref(s, st, r):
        def f(t):
            if t.op == 'ref':
                return s.read_path(s.read_root(st, t.a[0]), t.a[1])
            if t.op == 'undef':
                return BOT
            if t.op == 'str':
                return L(t)
            return s.read_root(st, T('D', t))
        return bind(r, f)

    def write_ref(s, st, r, val):
        """store val through reference value r (possibly several targets)"""
        if r is BOT:
            return
        if r.leaf is not None:
            t = r.leaf
            root, path = (t.a[0], t.a[1]) if t.op == 'ref' else (T('D', t), ())
            st[root] = s.write_path(s.read_root(st, root), path, val)
            return
        targets = leafset(r)
        for t in targets:
            if t.op in ('bot', 'undef'):
                continue
            g = bind(r, lambda x: B(x is t))
            root, path = (t.a[0], t.a[1]) if t.op == 'ref' else (T('D', t), ())
            old = s.read_root(st, root)
            st[root] = ite(g, s.write_path(old, path, val), old)

    # ---------------------------------------------------------------- places
    def place_ref(s, st, fr, p):
        """Node whose leaves are refs denoting the place"""
        cur = mkref(T('L', fr.id, p[0]))
        i = 1
        while i < len(p):
            e = p[i]
            k = e[0]
            if k == '*':
                cur = s.read_ref(st, cur)
                cur = bind(cur, lambda t: L(t) if t.op == 'ref' else (BOT if t.op == 'undef' else mkref(T('D', t))))
            elif k == '.':
                cur = s.ext(cur, ('f', e[1]))
            elif k == 'as':
                f = p[i + 1]
                if f[0] != '.':
                    raise Unsupported('downcast without field')
                cur = s.ext(cur, ('v', e[1], f[1]))
                i += 1
            elif k == '[':
                idx = s.read_root(st, T('L', fr.id, e[1]))
                cur = bindn([cur, idx], lambda t, x: mkref(t.a[0], t.a[1] + (('i', L(x)),)))
            elif k == 'c[':
                if e[3]:
                    base = s.read_ref(st, cur)
                    ln = bind(base, s.vlen)
                    cur = bindn([cur, ln], lambda t, x: mkref(t.a[0], t.a[1] + (('i', L(padd(x, num(e[1]), -1))),)))
                else:
                    cur = s.ext(cur, ('i', n_num(e[1])))
            elif k == 's[':
                cur = s.ext(cur, ('off', n_num(e[1])))
            else:
                raise Unsupported('projection ' + str(e))
            i += 1
        return cur

    def ext(s, r, e):
        return bind(r, lambda t: mkref(t.a[0], t.a[1] + (e,)) if t.op == 'ref' else mkref(T('D', t), (e,)))

    def read_place(s, st, fr, p):
        if len(p) == 1:
            return s.read_root(st, T('L', fr.id, p[0]))
        return s.read_ref(st, s.place_ref(st, fr, p))

    def write_place(s, st, fr, p, v):
        if len(p) == 1:
            r = T('L', fr.id, p[0])
            st[r] = v
            return
        s.write_ref(st, s.place_ref(st, fr, p), v)

    # -------------------------------------------------------------- operands
    def const(s, st, fr, c):
        ty = s.fty(fr, c['ty'])
        if 'fn' in c:
            f = c['fn']
            return L(T('fn', f.get('rkey') or f['key'], f['path']))
        if 'promoted' in c:
            root = T('P', c.get('def'), c['promoted'])
            if root not in st:
                owner = s.facts.fns.get(c['def'])
                st[root] = s.run_body(owner, owner.promoted[c['promoted']], fr.sub, [], st, fr.base)
            # the promoted's body returns a reference or a value
            return st[root]
        return s.const_val(c, ty, st, fr)

    def const_val(s, c, ty, st=None, fr=None):
        if 'fval' in c:
            try:
                return n_num(Fraction(float(c['fval'])))
            except (OverflowError, ValueError):
                return L(T('fconst', c['fval']))
        if 'val' in c:
            if ty == ('prim', 'bool'):
                return B(c['val'] != 0)
            if ty[0] == 'adt':
                vs = s.variants(ty[1])
                if vs:
                    for n, d in vs:
                        if d == c['val'] or d % 256 == c['val']:
                            return enum(ty[1], n, ())
                a = s.facts.adts.get(ty[1])
                if a and a['kind'] == 'Struct' and len(a['variants'][0]['fields']) == 1:
                    f = a['variants'][0]['fields'][0]
                    return struct(ty[1], ((f['name'], s.const_val(c, s.facts.ty(a['crate'], f['ty']))),))
            return n_num(c['val'])
        if 'str' in c:
            return L(T('str', c['str']))
        if 'fields' in c and ty[0] == 'adt':
            vs = s.variants(ty[1])
            sub = [s.const_val(x, ('other', '', ''), st, fr) for x in c['fields']]
            if vs:
                vn = vs[c['variant'] or 0][0]
                names = s.fieldnames(ty[1], vn) or [str(i) for i in range(len(sub))]
                return enum(ty[1], vn, list(zip(names, sub)))
            names = s.fieldnames(ty[1], None) or [str(i) for i in range(len(sub))]
            return struct(ty[1], list(zip(names, sub)))
        if 'fields' in c and ty[0] == 'tuple':
            return tup(*[s.const_val(x, ('other', '', ''), st, fr) for x in c['fields']])
        if c.get('zst') or ty == ('tuple', ()):
            if ty[0] == 'tuple':
                return UNIT
            if ty[0] == 'closure':
                return struct('closure:' + ty[1], ())
            return struct(ty[1] if len(ty) > 1 and isinstance(ty[1], str) else 'zst', ())
        if 'def' in c and c['def'] in s.facts.fns and st is not None:
            f = s.facts.fns[c['def']]
            try:
                return s.run_body(f, f.body, {}, [], st, fr.base)
            except Unsupported:
                pass
        return L(T('const', str(c.get('def') or c.get('tyconst') or ty)))

    def fieldnames(s, adt, variant):
        a = s.facts.adts.get(adt)
        if a is None:
            return None
        for v in a['variants']:
            if variant is None or v['name'] == variant:
                return [f['name'] for f in v['fields']]

    def operand(s, st, fr, o):
        k = o['k']
        if k in ('copy', 'move'):
            return s.read_place(st, fr, o['p'])
        if k == 'const':
            return s.const(st, fr, o)
        if k == 'rtcheck':
            return FALSE
        raise Unsupported('operand')

    def fty(s, fr, i):
        return subst(fr.fn.ty(i), fr.sub)

    def updated(s, st, fr, adt, fs):
        """A structure written with some of its fields taken from a value of
        the same type (`S { a: x, ..y }`) is that value with the others
        replaced."""
        if len(fs) < 2:
            return None
        for i, l in enumerate(fr.fn.body['locals']):
            t = s.fty(fr, l['ty'])
            ref = t[0] == 'ref'
            if ref:
                t = next((z for z in t[1:] if isinstance(z, tuple)), t)
            if t[0] != 'adt' or t[1] != adt or T('L', fr.id, i) not in st:
                continue
            try:
                v = s.read_place(st, fr, [i])
                if ref:
                    v = s.read_ref(st, v)
            except Unsupported:
                continue
            if any(x.op == 'S' for x in leafset(v)):
                continue
            if any(getf(v, k) is y for k, y in fs):
                for k, y in [(k, y) for k, y in fs if getf(v, k) is not y]:
                    v = setf(v, k, y)
                return v
        return None

    # --------------------------------------------------------------- rvalues
    def rvalue(s, st, fr, r):
        k = r['k']
        if k == 'use':
            return s.operand(st, fr, r['a'])
        if k in ('ref', 'rawptr', 'reborrow'):
            return s.place_ref(st, fr, r['p'])
        if k == 'bin':
            return s.binop(r['op'], s.operand(st, fr, r['a']), s.operand(st, fr, r['b']), s.fty(fr, r['ty']))
        if k == 'un':
            a = s.operand(st, fr, r['a'])
            ty = s.fty(fr, r['ty'])
            if r['op'] == 'Neg':
                return n_neg(a)
            if r['op'] == 'Not':
                if ty == ('prim', 'bool'):
                    return n_not(a)
                return n_sub(n_num(-1 if ty[1][0] == 'i' else (1 << INTW[ty[1]]) - 1), a)
            if r['op'] == 'PtrMetadata':
                return bind(s.read_ref(st, a), s.vlen)
            raise Unsupported('un ' + r['op'])
        if k == 'cast':
            a = s.operand(st, fr, r['a'])
            if 'Unsize' in r['kind']:
                s.note_length(st, fr, a, s.fty(fr, r['from']))
            return s.castv(r['kind'], a, s.fty(fr, r['from']), s.fty(fr, r['to']))
        if k == 'discr':
            v = s.read_place(st, fr, r['p'])
            ty = s.fty(fr, r['ty'])
            return s.discr(v, ty)
        if k == 'agg':
            ops = [s.operand(st, fr, o) for o in r['ops']]
            if r['agg'] == 'tuple':
                return tup(*ops)
            if r['agg'] == 'array':
                return struct('array', tuple((str(i), x) for i, x in enumerate(ops)))
            if r['agg'] == 'closure':
                cf = s.facts.fns.get(r['def'])
                return struct('closure:' + r['def'], tuple((str(i), x) for i, x in enumerate(ops)))
            if r['agg'] == 'adt':
                fs = list(zip(r['fields'], ops))
                if r['is_enum']:
                    return enum(r['def'], r['variant'], fs)
                if r['def'] in TRANSPARENT and len(ops) == 1:
                    return ops[0]
                return s.updated(st, fr, r['def'], fs) or struct(r['def'], fs)
            raise Unsupported('agg')
        if k == 'repeat':
            a = s.operand(st, fr, r['a'])
            try:
                n = int(str(r['n']).split('_')[0])
                if n <= 64:
                    return struct('array', tuple((str(i), a) for i in range(n)))
            except ValueError:
                pass
            return bind(purify(a), lambda t: L(T('rep', L(unpk(t)))))
        raise Unsupported('rvalue ' + k + ' ' + str(r.get('dbg')))

    def discr(s, v, ty):
        if ty[0] == 'adt':
            vs = s.variants(ty[1])
            if vs:
                m = dict(vs)
                return bind(disc(v, [n for n, _ in vs]), lambda t: n_num(m[t.a[0]]))
        return op('discr', v)

    def castv(s, kind, a, f, t):
        if kind in ('IntToInt',):
            if f == ('prim', 'bool'):
                return ite(a, n_num(1), n_num(0))
            if f[0] == 'prim' and t[0] == 'prim' and t[1] in INTW and f[1] in INTW:
                fw, tw = INTW[f[1]], INTW[t[1]]
                fs, ts = f[1][0] == 'i', t[1][0] == 'i'
                if (fs == ts and tw >= fw) or (not fs and ts and tw > fw) or f == t:
                    return a
                def tr(x):
                    c = const_of(x)
                    if c is not None:
                        v = int(c) % (1 << tw)
                        if ts and v >= 1 << (tw - 1):
                            v -= 1 << tw
                        return n_num(v)
                    return L(T('trunc', t[1], x))
                return bind(a, tr)
            if f[0] == 'prim' and f[1] == 'char':
                return a
            return a
        if kind in ('IntToFloat', 'FloatToFloat'):
            if t == ('prim', 'f32') and f != t:
                return bind(a, lambda x: L(x) if const_of(x) is not None or not s.single(x) else L(T('single', x)))
            return a
        if kind == 'FloatToInt':
            return bind(a, lambda x: L(x) if const_of(x) is not None and const_of(x).denominator == 1 else L(T('f2i', t[1], x)))
        return a       # pointer coercions, transmute of references

    def overflow(s, v, ty):
        if s.checked == 'note':
            s.noted += [(x, ty) for x in leafset(v) if x is not BOT.leaf]
            return FALSE
        return bind(v, lambda x: overflows(x, ty))

    def binop(s, o, a, b, ty):
        isf = s.isfloat(ty)
        if o.endswith('WithOverflow'):
            v = s.binop(o[:-12], a, b, ty)
            return tup(v, s.overflow(v, ty) if s.checked else FALSE)
        if o.endswith('Unchecked'):
            o = o[:-9]
        if ty == ('prim', 'bool'):
            if o == 'BitAnd': return n_and(a, b)
            if o == 'BitOr': return n_or(a, b)
            if o in ('BitXor', 'Ne'): return n_xor(a, b)
            if o == 'Eq': return n_not(n_xor(a, b))
        if o == 'Add': return n_add(a, b)
        if o == 'Sub': return n_sub(a, b)
        if o == 'Mul': return n_mul(a, b)
        if o == 'Div':
            if isf:
                return n_div(a, b)
            return bindn([a, b], lambda x, y: s.idiv(x, y))
        if o == 'Rem':
            def irem(x, y):
                if const_of(x) is not None and const_of(y):
                    import math
                    return n_num(int(math.fmod(int(const_of(x)), int(const_of(y)))))
                return L(T('irem', x, y))
            return bindn([a, b], irem)
        if o in ('Lt', 'Le', 'Gt', 'Ge', 'Eq', 'Ne'):
            return s.compare(o.lower(), a, b, isf)
        if o in ('BitAnd', 'BitOr', 'BitXor', 'Shl', 'Shr'):
            return bindn([purify(a), purify(b)], lambda x, y: s.bitop(o, x, y, ty))
        if o == 'Cmp':
            return n_sign(n_sub(a, b), False, LESS, EQUAL, GREATER)
        raise Unsupported('bin ' + o)

    def idiv(s, x, y):
        cx, cy = const_of(x), const_of(y)
        if cx is not None and cy:
            q = abs(int(cx)) // abs(int(cy))
            return n_num(q if (cx < 0) == (cy < 0) else -q)
        return L(T('idiv', x, y))

    def bitop(s, o, x, y, ty):
        cx, cy = const_of(x), const_of(y)
        if cx is not None and cy is not None:
            cx, cy = int(cx), int(cy)
            w = INTW.get(ty[1], 64) if ty[0] == 'prim' else 64
            v = {'BitAnd': lambda: cx & cy, 'BitOr': lambda: cx | cy, 'BitXor': lambda: cx ^ cy,
                 'Shl': lambda: cx << cy, 'Shr': lambda: cx >> cy}[o]()
            return n_num(v % (1 << w) if ty[1][0] == 'u' else v)
        if o in ('BitAnd', 'BitOr', 'BitXor') and y.id < x.id:
            x, y = y, x
        return L(T('bit', o, str(ty[1]) if len(ty) > 1 else '', x, y))

    def compare(s, o, a, b, isf):
        def f(x, y):
            if x.op == 'ref' and y.op == 'ref':
                return B((x is y) == (o in ('eq', 'le', 'ge')))
            if x.op in ('str', 'S') or y.op in ('str', 'S'):
                if x.op == y.op == 'str':
                    return B((x is y) == (o == 'eq'))
            if x.op == 'bool' and y.op == 'bool':
                return B({'eq': x is y, 'ne': x is not y, 'lt': x.a[0] < y.a[0], 'gt': x.a[0] > y.a[0], 'le': x.a[0] <= y.a[0], 'ge': x.a[0] >= y.a[0]}[o])
            return n_cmp(o, L(x), L(y), isf)
        return bindn([a, b], f)

    # ------------------------------------------------------------- functions
    def panic(s, guard, kind, fn, sp):
        if guard is FALSE or guard is BOT:
            return
        s.panics.append(dict(guard=guard, kind=kind, fn=fn.spath, sp=sp, stack=[f.fn.spath for f in s.stack]))

    def call_fn(s, fn, sub, args, st, base):
        s.visited.add(fn.key)
        if len(s.stack) > s.maxdepth or sum(1 for f in s.stack if f.fn is fn) >= (4 if s.unroll else 1):
            return s.opaque_call('rec:' + fn.spath, args, st, fn, base)
        s.ncalls += 1
        if s.budget and len(terms._nlist) + len(terms._tlist) - s.node0 > s.budget:
            raise Unsupported('summary size budget exceeded in ' + fn.spath)
        return s.run_body(fn, fn.body, sub, args, st, base)

    def cfg(s, fn, body):
        key = id(body)
        c = getattr(s, '_cfgs', None)
        if c is None:
            c = s._cfgs = {}
        if key in c:
            return c[key]
        blocks = body['blocks']
        succ = []
        for b in blocks:
            t = b['term']
            k = t['k']
            if k == 'goto':
                ss = [t['t']]
            elif k == 'switch':
                ss = [x[1] for x in t['arms']] + [t['otherwise']]
            elif k in ('drop', 'assert'):
                ss = [t['t']]
            elif k == 'call':
                ss = [t['t']] if t['t'] is not None else []
            else:
                ss = []
            succ.append(ss)
        n = len(blocks)
        # blocks from which a return is reachable
        pred = [[] for _ in range(n)]
        for i, ss in enumerate(succ):
            for x in ss:
                pred[x].append(i)
        canret = set(i for i in range(n) if blocks[i]['term']['k'] == 'return')
        wl = list(canret)
        while wl:
            x = wl.pop()
            for p in pred[x]:
                if p not in canret:
                    canret.add(p)
                    wl.append(p)
        # rpo
        seen = set()
        order = []
        onst = set()
        back = set()
        def dfs(r):
            stack = [(r, iter(succ[r]))]
            seen.add(r)
            onst.add(r)
            while stack:
                x, it = stack[-1]
                for y in it:
                    if y in onst:
                        back.add((x, y))
                    elif y not in seen:
                        seen.add(y)
                        onst.add(y)
                        stack.append((y, iter(succ[y])))
                        break
                else:
                    stack.pop()
                    onst.discard(x)
                    order.append(x)
        dfs(0)
        order.reverse()
        # loop bodies
        loops = {}
        for (x, h) in back:
            body_ = {h}
            w = [x]
            while w:
                y = w.pop()
                if y not in body_:
                    body_.add(y)
                    w.extend(p for p in pred[y] if p in seen)
            loops.setdefault(h, set()).update(body_)
        c[key] = (succ, pred, canret, order, back, loops)
        return c[key]

    def run_body(s, fn, body, sub, args, st, base):
        """analyse body with argument Nodes; mutates st; returns result Node"""
        fr = Frame(fn, sub, base, s.stack[-1] if s.stack else None)
        fr.body = body
        s.stack.append(fr)
        try:
            for i, a in enumerate(args):
                st[T('L', fr.id, i + 1)] = a
            succ, pred, canret, order, back, loops = s.cfg(fn, body)
            if loops:
                return s.run_loops(fr, fn, body, st)
            out = s.flow(fr, body, st, {})
            return s.finish(fr, st, out)
        finally:
            s.stack.pop()

    def finish(s, fr, st, out):
        if out is None:
            # no return reachable
            st.clear()
            return BOT
        st.clear()
        st.update(out)
        r = s.read_root(st, T('L', fr.id, 0))
        # locals of this frame die
        for k in [k for k in st if k.op == 'L' and k.a[0] is fr.id]:
            if not s.escapes(k, r):
                del st[k]
        return r

    def escapes(s, k, r):
        return any(t.op == 'ref' for t in [r.leaf] if t is not None) or r.leaf is None or r.leaf.op in ('S',)

    def unrolled(s, fr, header, cur):
        """the loop at `header` followed turn by turn from `cur`: its edges
        out; NotConstant when its number of turns is not a constant of the
        program (at most `unroll`)"""
        fn = fr.fn
        succ, pred, canret, order, back, loops = s.cfg(fn, fr.body)
        blocks = fr.body['blocks']
        nodes = loops[header]
        most = len(terms._nlist) + len(terms._tlist) + UNROLL_NODES
        out = []
        for n in range(s.unroll + 1):
            instate, skip, nxt = {header: cur}, set(), []
            for bi in order:
                if bi not in nodes or bi in skip:
                    continue
                ins = [(g, x) for g, x in instate.pop(bi, []) if g is not FALSE]
                if not ins:
                    continue
                if len(terms._nlist) + len(terms._tlist) > most:
                    raise NotConstant()
                if bi in loops and bi != header:
                    skip |= loops[bi]
                    edges = s.unrolled(fr, bi, ins)
                else:
                    guard, st1 = s.merge(ins)
                    fr.bb, fr.nc = bi, 0
                    edges = s.block(fr, blocks[bi], guard, st1, canret)
                for e in edges:
                    if e[2] == header:
                        nxt.append((e[0], e[1]))
                    elif e[2] in nodes:
                        instate.setdefault(e[2], []).append((e[0], e[1]))
                    else:
                        out.append(e)
            cur = [(g, x) for g, x in nxt if g is not FALSE]
            if not cur:
                return out
        raise NotConstant()

    def run_loops(s, fr, fn, body, st):
        havoc = {h: [] for h in s.cfg(fn, body)[5]}
        np, ne = len(s.panics), len(s.events)
        nl = len(s.loops)
        fr.varying = set() if s.unroll else set(havoc)
        for it in range(14 + len(havoc)):
            del s.panics[np:]
            del s.events[ne:]
            del s.loops[nl:]
            st2 = dict(st)
            before = len(fr.varying)
            out = s.flow(fr, body, st2, havoc)
            if len(fr.varying) != before:
                havoc = {h: [] for h in havoc}
                continue
            changed = False
            for lp in s.loops[nl:]:
                if lp.frame is fr and lp.header in havoc and s.grow_havoc(havoc[lp.header], lp.head, [b for _, b in lp.backs]):
                    changed = True
            if not changed:
                break
        else:
            raise Unsupported('loop summary does not stabilise in ' + fn.spath)
        return s.finish(fr, st, out)

    def grow_havoc(s, hv, head, backs):
        """add to hv the (root, path) pairs the loop changes; True if any new"""
        changed = False
        for b in backs:
            for root in sorted(b, key=lambda t: t.id):
                v = b[root]
                h = head.get(root)
                if h is None:
                    if root.op in ('D', 'O'):
                        h = s.read_root({}, root)
                    else:
                        continue
                if h is v:
                    continue
                for p in diffpaths(h, v):
                    if any(r is root and p[:len(q)] == q for r, q in hv):
                        continue
                    hv[:] = [(r, q) for r, q in hv if not (r is root and q[:len(p)] == p)] + [(root, p)]
                    changed = True
        return changed

    def apply_havoc(s, st, hv, hid, fr):
        for (root, path) in hv:
            nm = root
            if root.op == 'L':
                if root not in st:
                    continue
                nm = T('lv', root.a[1]) if root.a[0] is fr.id else root
            sym = L(T('mu', hid, nm, tuple(e[1] for e in path)))
            st[root] = s.write_path(s.read_root(st, root), path, sym)

    def synth_loop(s, c, name, step):
        """a loop hidden in a library call: step(c) does one iteration on c.st
        and returns the condition under which there was one"""
        fr = c.fr
        hid = T('loop', fr.fn.spath, name, fr.bb)
        np, ne, nl = len(s.panics), len(s.events), len(s.loops)
        hv = []
        st0, b0, nc0 = c.st, c.base, fr.nc
        if s.unroll:
            c.st = dict(st0)
            for it in range(s.unroll + 1):
                if step(c) is FALSE:
                    st0.clear()
                    st0.update(c.st)
                    c.st, c.base = st0, b0
                    return Loop()
            c.st, c.base = st0, b0
        for it in range(14):
            del s.panics[np:]
            del s.events[ne:]
            del s.loops[nl:]
            fr.nc = nc0
            head = dict(st0)
            s.apply_havoc(head, hv, hid, fr)
            c.st = dict(head)
            c.base = b0
            cond = step(c)
            back = c.st
            lp = Loop()
            lp.fn, lp.header, lp.entry, lp.hid, lp.guard, lp.frame = fr.fn, name, dict(st0), hid, b0, fr
            lp.head, lp.backs, lp.havoc = head, [(cond, back)], list(hv)
            if not s.grow_havoc(hv, head, [back]):
                break
        else:
            raise Unsupported('loop summary does not stabilise in ' + fr.fn.spath)
        s.loops.append(lp)
        st0.clear()
        st0.update(head)
        c.st, c.base = st0, b0
        return lp

    def flow(s, fr, body, st0, havoc):
        fn = fr.fn
        succ, pred, canret, order, back, loops = s.cfg(fn, body)
        blocks = body['blocks']
        instate = {0: [(TRUE, st0)]}
        outret = []
        skip = set()
        for bi in order:
            ins = instate.pop(bi, None)
            if not ins or bi in skip:
                continue
            ins = [(g, x) for g, x in ins if g is not FALSE]
            if not ins:
                continue
            if bi in loops and bi not in fr.varying:
                # a constant number of turns is followed turn by turn
                try:
                    for g, x, tgt in s.unrolled(fr, bi, [(g, dict(x)) for g, x in ins]):
                        if any(tgt == h and bi in loops[h] for h in loops):
                            lp = [lp for lp in s.loops if lp.frame is fr and lp.header == tgt][-1]
                            lp.backs.append((g, x))
                        else:
                            instate.setdefault(tgt, []).append((g, x))
                    skip |= loops[bi]
                    continue
                except NotConstant:
                    fr.varying.add(bi)
                    return None
            guard, st = s.merge(ins)
            if bi in loops:
                hid = T('loop', fn.spath, sorted(loops).index(bi), fr.id if False else 0)
                lp = Loop()
                lp.fn = fn
                lp.header = bi
                lp.entry = dict(st)
                lp.hid = hid
                lp.backs = []
                lp.guard = guard
                s.loops.append(lp)
                lp.frame = fr
                lp.havoc = list(havoc.get(bi, []))
                s.apply_havoc(st, lp.havoc, hid, fr)
                lp.head = dict(st)
            b = blocks[bi]
            fr.bb, fr.nc = bi, 0
            edges = s.block(fr, b, guard, st, canret)
            if b['term']['k'] == 'return':
                outret.append((guard, st))
            for (g, x, tgt) in edges:
                if (bi, tgt) in back:
                    for lp in reversed(s.loops):
                        if lp.frame is fr and lp.header == tgt:
                            lp.backs.append((g, x))
                            break
                    continue
                instate.setdefault(tgt, []).append((g, x))
        if not outret:
            return None
        g, st = s.merge(outret)
        return st

    def merge(s, ins):
        if len(ins) == 1:
            return ins[0][0], dict(ins[0][1])
        guard = FALSE
        for g, _ in ins:
            guard = n_or(guard, g)
        keys = set()
        for _, st in ins:
            keys.update(st)
        out = {}
        first = ins[0][1]
        for k in sorted(keys, key=lambda t: t.id):
            vals = []
            for g, st in ins:
                v = st.get(k)
                if v is None:
                    v = s.read_root(st, k) if k.op in ('D', 'O') else BOT
                vals.append((g, v))
            v0 = vals[0][1]
            if all(v is v0 for _, v in vals):
                out[k] = v0
                continue
            r = BOT
            for g, v in reversed(vals):
                r = ite(g, v, r)
            # drop don't-care: condition on guard
            out[k] = simplify_dc(r)
        return guard, out

    def block(s, fr, b, guard, st, canret):
        fn = fr.fn
        for x in b['st']:
            if x['k'] == 'assign':
                s.write_place(st, fr, x['p'], s.rvalue(st, fr, x['r']))
            elif x['k'] == 'setdiscr':
                raise Unsupported('setdiscr')
        t = b['term']
        k = t['k']
        if k == 'goto':
            return [(guard, st, t['t'])]
        if k == 'drop':
            return [(guard, st, t['t'])]
        if k == 'return':
            return []
        if k == 'assert':
            c = s.operand(st, fr, t['c'])
            if t['kind'].startswith(('other:NullPointer', 'other:MisalignedPointer')):
                return [(guard, st, t['t'])]        # debug checks of compiler-made pointers
            bad = n_not(c) if t['exp'] else c
            if s.checked or not t['kind'].startswith('overflow'):
                s.panic(n_and(guard, n_and(fr.base, bad)), t['kind'], fn, t['sp'])
            else:
                s.events.append(('overflow', fn.spath, t['sp'], t['kind']))
            return [(guard, st, t['t'])]
        if k == 'switch':
            d = s.operand(st, fr, t['d'])
            ty = s.fty(fr, t['ty'])
            if ty[0] == 'adt' or d is BOT:
                raise Unsupported('switch') if d is not BOT else DeadPath()
            es = []
            rest = TRUE
            conds = {}
            orderl = []
            for v, tgt in t['arms']:
                v = int(v)
                if ty == ('prim', 'bool'):
                    c = d if v else n_not(d)
                else:
                    if ty[0] == 'prim' and ty[1] in INTW and ty[1][0] == 'i' and ty[1] != 'isize':
                        w = INTW[ty[1]]
                    c = s.compare('eq', d, n_num(v), False)
                c2 = n_and(rest, c)
                rest = n_and(rest, n_not(c))
                if tgt not in conds:
                    orderl.append(tgt)
                    conds[tgt] = c2
                else:
                    conds[tgt] = n_or(conds[tgt], c2)
            o = t['otherwise']
            if o not in conds:
                orderl.append(o)
                conds[o] = rest
            else:
                conds[o] = n_or(conds[o], rest)
            def dead(x):
                # only an `unreachable` block
                bb = s.curblocks(fr)[x] if False else None
                return False
            live = [x for x in orderl if x in canret]
            for x in orderl:
                if x not in canret and conds[x] is not FALSE:
                    # diverging branch: evaluate it only for its panics / events
                    es.append((n_and(guard, conds[x]), dict(st), x))
            if len(live) == 1 and conds[live[0]] is not FALSE:
                es.append((guard, st, live[0]))
            else:
                for x in live:
                    if conds[x] is FALSE:
                        continue
                    es.append((n_and(guard, conds[x]), dict(st), x))
            return es
        if k == 'call':
            try:
                r = s.do_call(fr, t, st, guard)
            except DeadPath:
                return []
            if t['t'] is None:
                return []
            if not st and r is BOT:
                return []
            s.write_place(st, fr, t['d'], r)
            return [(guard, st, t['t'])]
        if k == 'unreachable':
            return []
        raise Unsupported('term ' + k)

    # -------------------------------------------------------------- calls
    def do_call(s, fr, t, st, guard):
        fn = fr.fn
        base = n_and(fr.base, guard)
        args = [s.operand(st, fr, a) for a in t['args']]
        atys = [s.fty(fr, x) for x in t['atys']]
        dty = s.fty(fr, t['dty'])
        f = t['f'].get('fn')
        ctx = Ctx(s, fr, st, base, t, atys, dty)
        if t['t'] is None:
            nm = f['path'] if f else 'indirect'
            s.panic(base, 'panic:' + nm, fn, t['sp'])
            return BOT
        if f is None:
            # call through a fn pointer / closure value
            fv = s.operand(st, fr, t['f'])
            return s.call_value(fv, args, ctx)
        return s.call_path(f, args, ctx)

    def call_path(s, f, args, ctx):
        fr = ctx.fr
        gargs = [subst(fr.fn.ty(x), fr.sub) if isinstance(x, int) else ('const', x) for x in f['args']]
        path = f['path']
        sp = strip(path)
        ctx.gargs = gargs
        ctx.path = sp
        rkey = f.get('rkey') or f['key']
        # 1. abstract-type overrides
        for key in (rkey, sp):
            if key in s.overrides:
                r = s.overrides[key](ctx, *args)
                if r is not NotImplemented:
                    return r
        self_t = gargs[0] if gargs and f.get('trait') else None
        if self_t is not None:
            k2 = (sp, tykey(self_t))
            if k2 in s.overrides:
                r = s.overrides[k2](ctx, *args)
                if r is not NotImplemented:
                    return r
        # 2. resolved local function
        tgt = s.facts.fns.get(rkey)
        if tgt is not None and tgt.kind != 'Closure' and not ('trait' in f and 'rkey' not in f and 'trait' not in tgt.d and s.is_trait_default(tgt)):
            ra = f.get('rargs', f['args'])
            ga = [subst(fr.fn.ty(x), fr.sub) if isinstance(x, int) else ('const', x) for x in ra]
            if rkey in s.noinline or tgt.spath in s.noinline:
                return s.opaque_call(tgt.spath, args, ctx.st, fr.fn, ctx.base, ctx)
            return s.call_fn(tgt, dict(zip(tgt.generics, ga)), args, ctx.st, ctx.base)
        # 3. trait method on a type that became known in this context
        if f.get('trait'):
            for cand in s.facts.implfn.get((f['trait'], f['name']), []):
                m = {}
                pat = cand.ty(cand.d['impl_self'])
                if not unify(pat, self_t, m) or self_t[0] == 'param':
                    continue
                ta = [cand.ty(x) for x in cand.d.get('trait_args', []) if isinstance(x, int)]
                if len(ta) > 1 and not all(unify(p, g, m) for p, g in zip(ta[1:], gargs[1:])):
                    continue
                return s.call_fn(cand, m, args, ctx.st, ctx.base)
        # 4. library models
        from models import MODELS
        mfn = MODELS.get(sp)
        if mfn is not None:
            r = mfn(ctx, *args)
            if r is not NotImplemented:
                return r
        if tgt is not None and tgt.kind == 'Closure':
            return s.call_fn(tgt, {}, args, ctx.st, ctx.base)
        # 5. uninterpreted
        return s.opaque_call(sp, args, ctx.st, fr.fn, ctx.base, ctx)

    def is_trait_default(s, tgt):
        return 'trait_default' in tgt.d

    def call_value(s, fv, args, ctx):
        """call a closure / function value with unpacked args"""
        if fv.leaf is None:
            raise Unsupported('call of merged function value')
        t = fv.leaf
        if t.op == 'ref':
            return s.call_value(s.read_ref(ctx.st, fv), args, ctx)
        if t.op == 'S' and str(t.a[0]).startswith('closure:'):
            key = t.a[0][8:]
            cf = s.facts.fns[key]
            ty1 = cf.ty(cf.body['locals'][1]['ty'])
            env = fv
            if ty1[0] == 'ref':
                root = T('env', fv)
                ctx.st[root] = fv
                env = mkref(root)
            return s.call_fn(cf, ctx.fr.sub, [env] + list(args), ctx.st, ctx.base)
        if t.op == 'fn':
            key = t.a[0]
            if key in s.facts.fns:
                return s.call_fn(s.facts.fns[key], {}, args, ctx.st, ctx.base)
            if key.endswith('::Some') or strip(t.a[1]).endswith('Option::Some'):
                return some(args[0])
            if strip(t.a[1]).endswith('Result::Ok'):
                return ok(args[0])
            if strip(t.a[1]).endswith('Result::Err'):
                return err(args[0])
            from models import MODELS
            m = MODELS.get(strip(t.a[1]))
            if m is not None:
                return m(ctx, *args)
            # tuple-struct constructors
            for a in s.facts.adts.values():
                for v in a['variants']:
                    if key in (a['key'] + '::' + v['name'], a['key']) or key.startswith(a['key'] + '::' + v['name'] + '::{'):
                        fs = list(zip([x['name'] for x in v['fields']], args))
                        return enum(a['key'], v['name'], fs) if a['kind'] == 'Enum' else struct(a['key'], fs)
                    if a['kind'] == 'Struct' and key.startswith(a['key'] + '::{constructor'):
                        return struct(a['key'], list(zip([x['name'] for x in v['fields']], args)))
            return s.opaque_call(t.a[1], args, ctx.st, ctx.fr.fn, ctx.base, ctx)
        return s.opaque_call('indirect', [fv] + list(args), ctx.st, ctx.fr.fn, ctx.base, ctx)

    def deep(s, st, v, depth=0):
        """value with references replaced by what they point at (for call terms)"""
        def f(t):
            if t.op == 'ref':
                return bind(purify(s.deep(st, s.read_path(s.read_root(st, t.a[0]), t.a[1]), depth + 1)), lambda x: L(T('pk', T('&', unpk(x)))) if False else L(T('&', unpk(x))))
            if t.op == 'S' and depth < 6:
                fs = [(k, s.deep(st, x, depth + 1)) for k, x in t.a[3]]
                if all(a is b for (_, a), (_, b) in zip(fs, t.a[3])):
                    return L(t)
                return L(T('S', t.a[0], t.a[1], t.a[2], tuple(fs))) if not t.a[2] else enum(t.a[0], t.a[1], fs)
            return L(t)
        return bind(v, f)

    def opaque_call(s, name, args, st, fn, base, ctx=None):
        s.opaque[name] = s.opaque.get(name, 0) + 1
        vals = [purify(s.deep(st, a)) for a in args]
        s.events.append(('call', name, vals, base, fn.spath, ctx.t['sp'] if ctx else None))
        res = bindn(vals, lambda *ts: L(T('call', name, *[unpk(t) for t in ts])))
        atys = ctx.atys if ctx is not None else [fn.ty(l['ty']) for l in fn.body['locals'][1:fn.body['argc'] + 1]] if name.startswith('rec:') else []
        if atys:
            for i, (a, ty) in enumerate(zip(args, atys)):
                if ty[0] == 'ref' and ty[1]:
                    nv = bindn(vals, lambda *ts: L(T('out', name, i, *[unpk(t) for t in ts])))
                    s.write_ref(st, a, nv)
        return res

def strip_upf(t):
    """(base, {field: value}) of a struct value written as field updates"""
    d = {}
    while t.op == 'upf':
        d.setdefault(t.a[1], t.a[2])
        t = t.a[0]
    return t, d

def diffpaths(h, v):
    """field paths at which struct value v differs from h"""
    if h is v or v is BOT:
        return []
    if h.leaf is None:
        return [()]
    t = h.leaf
    out = []
    for x in ([v.leaf] if v.leaf is not None else leafset(v)):
        if x is t or x.op in ('bot', 'undef'):
            continue
        if t.op == 'S' and x.op == 'S' and not t.a[2] and not x.a[2] and t.a[0] == x.a[0] and t.a[0] != 'array' and [k for k, _ in t.a[3]] == [k for k, _ in x.a[3]]:
            for (k, a), (_, b) in zip(t.a[3], x.a[3]):
                out += [(('f', k),) + p for p in diffpaths(a, b)]
            continue
        bt, dt = strip_upf(t)
        bx, dx = strip_upf(x)
        if bt is bx:
            for k in sorted(set(dt) | set(dx)):
                a = dt[k] if k in dt else getf(L(bt), k)
                b = dx[k] if k in dx else getf(L(bt), k)
                out += [(('f', k),) + p for p in diffpaths(a, b)]
            continue
        return [()]
    return out

class DeadPath(Exception):
    pass

class Ctx:
    def __init__(c, eng, fr, st, base, t, atys, dty):
        c.eng = eng
        c.fr = fr
        c.st = st
        c.base = base
        c.t = t
        c.atys = atys
        c.dty = dty
        c.gargs = []
        c.path = ''
    def rd(c, a):
        """value behind a reference argument"""
        return c.eng.read_ref(c.st, a)
    def wr(c, a, v):
        c.eng.write_ref(c.st, a, v)
    def num(c, a, i):
        ty = c.atys[i] if i < len(c.atys) else None
        if ty and ty[0] == 'ref':
            return c.rd(a)
        return a
    def panic(c, g, kind):
        c.eng.panic(n_and(c.base, g), kind, c.fr.fn, c.t['sp'])
    def call(c, f, args, cond=TRUE):
        """call closure f(args) under condition cond; state effects gated"""
        if cond is FALSE:
            return BOT
        if cond is TRUE:
            return c.eng.call_value(f, args, c)
        st0 = c.st
        st1 = dict(st0)
        c.st = st1
        b0 = c.base
        c.base = n_and(c.base, cond)
        try:
            r = c.eng.call_value(f, args, c)
        finally:
            c.st = st0
            c.base = b0
        if st1:
            g, m = c.eng.merge([(cond, st1), (n_not(cond), dict(st0))])
            st0.clear()
            st0.update(m)
        return r

from facts import strip_generics as strip

def tykey(t):
    while t[0] == 'ref':
        t = t[2]
    return t[1] if t[0] in ('adt', 'prim', 'param') else t[0]

_dc = {}
def simplify_dc(n):
    """remove decisions whose live children agree (other children are don't-care)"""
    r = _dc.get(n.id)
    if r is not None:
        return r
    if n.leaf is not None:
        r = n
    else:
        ch = [simplify_dc(c) for c in n.ch]
        live = [c for c in ch if c is not BOT]
        if live and all(c is live[0] for c in live):
            r = live[0]
        else:
            r = mk(n.atom, ch)
    _dc[n.id] = r
    return r

def analyse(facts, fn, args=None, eng=None, argnames=None, sub=None, st0=None, **kw):
    """Summary of fn on symbolic arguments.  Reference parameters point to
    objects named after the parameter; returns (result, state, engine)."""
    e = eng or Engine(facts, **kw)
    st = dict(st0 or {})
    av = []
    names = argnames or []
    for i in range(fn.body['argc']):
        l = fn.body['locals'][i + 1]
        nm = names[i] if i < len(names) else 'a%d' % i
        ty = subst(fn.ty(l['ty']), sub or {})
        if args and i < len(args) and args[i] is not None:
            if ty[0] == 'ref' and not (args[i].leaf is not None and args[i].leaf.op == 'ref'):
                root = T('O', nm)
                st[root] = args[i]
                av.append(mkref(root))
            else:
                av.append(args[i])
        elif ty[0] == 'ref':
            root = T('O', nm)
            st[root] = L(T('sym', nm))
            av.append(mkref(root))
        else:
            av.append(L(T('sym', nm)))
    r = e.call_fn(fn, sub or {}, av, st, TRUE)
    return r, st, e
