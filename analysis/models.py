"""Transfer functions for standard-library operations."""
from terms import *
import terms
from gvn import *
from gvn import OPTV, RESV, ORDV

MODELS = {}

def model(*names):
    def d(f):
        for n in names:
            MODELS[n] = f
        return f
    return d

# ---------------------------------------------------------------- arithmetic
def _arith(name, fnode):
    def m(c, a, b):
        ty = c.gargs[0]
        if not c.eng.isnum(ty):
            return NotImplemented
        x, y = c.num(a, 0), c.num(b, 1)
        v = fnode(c, x, y, ty)
        if c.eng.checked and ty[0] == 'prim':
            c.panic(c.eng.overflow(v, ty), 'overflow:' + name)
        return v
    MODELS['std::ops::%s::%s' % (name, name.lower())] = m
    def ma(c, a, b):
        ty = c.gargs[0]
        if not c.eng.isnum(ty):
            return NotImplemented
        x, y = c.rd(a), c.num(b, 1)
        c.wr(a, fnode(c, x, y, ty))
        return UNIT
    MODELS['std::ops::%sAssign::%s_assign' % (name, name.lower())] = ma

_arith('Add', lambda c, x, y, ty: n_add(x, y))
_arith('Sub', lambda c, x, y, ty: n_sub(x, y))
_arith('Mul', lambda c, x, y, ty: n_mul(x, y))
_arith('Div', lambda c, x, y, ty: n_div(x, y) if c.eng.isfloat(ty) else bindn([x, y], c.eng.idiv))
_arith('Rem', lambda c, x, y, ty: op('irem', x, y))

@model('std::ops::Neg::neg')
def neg(c, a):
    if not c.eng.isnum(c.gargs[0]):
        return NotImplemented
    v = n_neg(c.num(a, 0))
    if c.eng.checked and c.gargs[0][0] == 'prim':
        c.panic(c.eng.overflow(v, c.gargs[0]), 'overflow:Neg')
    return v

@model('std::ops::Not::not')
def not_(c, a):
    return n_not(a) if c.gargs[0] == ('prim', 'bool') else NotImplemented

WRAPPING = 'core::num::wrapping::Wrapping'

def wrap(c, ty, v):
    """the integer modulo its type"""
    w = INTW[ty[1]]
    def f(x):
        k = const_of(x)
        if k is None:
            return L(T('trunc', ty[1], x))
        k = int(k) % (1 << w)
        return n_num(k - (1 << w) if ty[1][0] == 'i' and k >= 1 << (w - 1) else k)
    return bind(purify(v), lambda x: f(unpk(x)))

def _wrapping(name, fnode):
    def inner(c, a, i):
        t = c.gargs[i] if i < len(c.gargs) else None
        if t is not None and t[0] == 'ref':
            a, t = c.rd(a), t[2]
        return (getf(a, '0'), t[2][0]) if t is not None and t[0] == 'adt' and t[1] == WRAPPING else None
    old, olda = MODELS['std::ops::%s::%s' % (name, name.lower())], MODELS['std::ops::%sAssign::%s_assign' % (name, name.lower())]
    def m(c, a, b):
        x, y = inner(c, a, 0), inner(c, b, 1)
        if x is None or y is None:
            return old(c, a, b)
        return struct(WRAPPING, [('0', wrap(c, x[1], fnode(x[0], y[0])))])
    def ma(c, a, b):
        t = c.gargs[0]
        y = inner(c, b, 1)
        if t[0] != 'adt' or t[1] != WRAPPING or y is None:
            return olda(c, a, b)
        c.wr(a, struct(WRAPPING, [('0', wrap(c, t[2][0], fnode(getf(c.rd(a), '0'), y[0])))]))
        return UNIT
    MODELS['std::ops::%s::%s' % (name, name.lower())] = m
    MODELS['std::ops::%sAssign::%s_assign' % (name, name.lower())] = ma
for _n, _f in (('Add', n_add), ('Sub', n_sub), ('Mul', n_mul)):
    _wrapping(_n, _f)
    for _t in INTW:
        _p = 'core::num::<impl %s>::' % _t
        MODELS[_p + 'wrapping_' + _n.lower()] = (lambda f, t: lambda c, a, b: wrap(c, ('prim', t), f(a, b)))(_f, _t)
        MODELS[_p + 'overflowing_' + _n.lower()] = (lambda f, t: lambda c, a, b: tup(wrap(c, ('prim', t), f(a, b)), bind(f(a, b), lambda x: overflows(x, ('prim', t)))))(_f, _t)

def _bits(name):
    def m(c, a, b):
        ty = c.gargs[0]
        if ty == ('prim', 'bool'):
            return {'BitAnd': n_and, 'BitOr': n_or, 'BitXor': n_xor}[name](a, b)
        if ty[0] == 'prim':
            return bindn([a, b], lambda x, y: c.eng.bitop(name, x, y, ty))
        return NotImplemented
    return m
for _n, _m in (('BitAnd', 'bitand'), ('BitOr', 'bitor'), ('BitXor', 'bitxor'), ('Shl', 'shl'), ('Shr', 'shr')):
    MODELS['std::ops::%s::%s' % (_n, _m)] = _bits(_n)

# ---------------------------------------------------------------- comparison
def deref_ty(t):
    while t[0] == 'ref':
        t = t[2]
    return t

def eq_values(c, a, b, ty):
    """structural equality of values of type ty"""
    e = c.eng
    if ty[0] == 'ref':
        return eq_values(c, c.rd(a), c.rd(b), ty[2])
    if e.isnum(ty):
        return e.compare('eq', a, b, e.isfloat(ty))
    if ty == ('prim', 'bool'):
        return n_not(n_xor(a, b))
    if ty[0] == 'prim':
        return e.compare('eq', a, b, False)
    if ty[0] == 'adt':
        if ty[1] == OPTION:
            both = n_and(is_some(a), is_some(b))
            pe = eq_values(c, getv(a, 'Some', '0'), getv(b, 'Some', '0'), ty[2][0])
            return ite(is_some(a), ite(is_some(b), pe, FALSE), n_not(is_some(b)))
        if ty[1] == ORDERING:
            return bindn([disc(a, ORDV), disc(b, ORDV)], lambda x, y: B(x is y))
        if ty[1] in ('ordered_float::OrderedFloat', 'core::num::wrapping::Wrapping'):
            return e.compare('eq', getf(a, '0'), getf(b, '0'), False)
        if ty[1] in TRANSPARENT:
            return eq_values(c, a, b, ty[2][0])
        for cand in e.facts.implfn.get(('core::cmp::PartialEq', 'eq'), []):
            m = {}
            if unify(cand.ty(cand.d['impl_self']), ty, m):
                ra, rb = tmp(c, a), tmp(c, b)
                return e.call_fn(cand, m, [ra, rb], c.st, c.base)
    if ty[0] in ('tuple', 'array'):
        if ty[0] == 'tuple':
            r = TRUE
            for i, t in enumerate(ty[1]):
                r = n_and(r, eq_values(c, getf(a, str(i)), getf(b, str(i)), t))
            return r
        try:
            n = int(ty[2])
        except ValueError:
            return op('eq', a, b)
        r = TRUE
        for i in range(n):
            r = n_and(r, eq_values(c, e.read_elem(a, ('i', n_num(i))), e.read_elem(b, ('i', n_num(i))), ty[1]))
        return r
    def f(x, y):
        if x is y:
            return TRUE
        if x.op == 'str' and y.op == 'str':
            return B(x is y)
        if y.id < x.id:
            x, y = y, x
        return L(T('eq', x, y))
    return bindn([purify(a), purify(b)], lambda x, y: f(unpk(x), unpk(y)))

def tmp(c, v):
    root = T('tmp', v.id)
    c.st[root] = v
    return mkref(root)

@model('std::cmp::PartialEq::eq')
def eq(c, a, b):
    return eq_values(c, c.rd(a), c.rd(b), c.gargs[0])

@model('std::cmp::PartialEq::ne')
def ne(c, a, b):
    return n_not(eq_values(c, c.rd(a), c.rd(b), c.gargs[0]))

def ord_values(c, a, b, ty):
    """Ordering-valued comparison for totally ordered types"""
    e = c.eng
    if ty[0] == 'ref':
        return ord_values(c, c.rd(a), c.rd(b), ty[2])
    if ty[0] == 'adt' and ty[1] in ('ordered_float::OrderedFloat', 'core::num::wrapping::Wrapping'):
        a, b = getf(a, '0'), getf(b, '0')
        return n_sign(n_sub(a, b), False, LESS, EQUAL, GREATER)
    if ty == ('prim', 'bool'):
        a, b = ite(a, n_num(1), n_num(0)), ite(b, n_num(1), n_num(0))
        return n_sign(n_sub(a, b), False, LESS, EQUAL, GREATER)
    if e.isnum(ty):
        return n_sign(n_sub(a, b), False, LESS, EQUAL, GREATER)
    if ty[0] == 'adt' and ty[1] == 'core::cmp::Reverse':
        return ord_values(c, getf(b, '0'), getf(a, '0'), ty[2][0])
    if ty[0] == 'tuple':
        r = EQUAL
        for i in reversed(range(len(ty[1]))):
            x = ord_values(c, getf(a, str(i)), getf(b, str(i)), ty[1][i])
            if x is NotImplemented:
                return NotImplemented
            r = ite(is_variant(x, ORDV, 'Equal'), r, x)
        return r
    if ty[0] == 'adt':
        for cand in e.facts.implfn.get(('core::cmp::Ord', 'cmp'), []):
            m = {}
            if unify(cand.ty(cand.d['impl_self']), ty, m):
                return e.call_fn(cand, m, [tmp(c, a), tmp(c, b)], c.st, c.base)
        if ty[1] in TRANSPARENT:
            return ord_values(c, a, b, ty[2][0])
    return NotImplemented

@model('std::cmp::Ord::cmp')
def cmp(c, a, b):
    return ord_values(c, c.rd(a), c.rd(b), c.gargs[0])

@model('std::cmp::PartialOrd::partial_cmp')
def partial_cmp(c, a, b):
    ty = c.gargs[0]
    x, y = c.rd(a), c.rd(b)
    if c.eng.isnum(ty):
        if c.eng.isfloat(ty):
            return n_sign(n_sub(x, y), True, some(LESS), some(EQUAL), some(GREATER), none())
        return some(ord_values(c, x, y, ty))
    r = ord_values(c, x, y, ty) if ty[0] in ('tuple',) or (ty[0] == 'adt' and ty[1] in ('ordered_float::OrderedFloat', 'core::num::wrapping::Wrapping')) else NotImplemented
    return some(r) if r is not NotImplemented else r

def _pcmp(nm):
    def m(c, a, b):
        ty = deref_ty(c.gargs[0])
        x, y = c.rd(a), c.rd(b)
        t = c.gargs[0]
        while t[0] == 'ref':
            x, y = c.rd(x), c.rd(y)
            t = t[2]
        if c.eng.isnum(ty):
            return c.eng.compare(nm, x, y, c.eng.isfloat(ty))
        o = ord_values(c, x, y, ty)
        if o is NotImplemented:
            # a local PartialOrd impl
            for cand in c.eng.facts.implfn.get(('core::cmp::PartialOrd', 'partial_cmp'), []):
                mm = {}
                if unify(cand.ty(cand.d['impl_self']), ty, mm):
                    po = c.eng.call_fn(cand, mm, [tmp(c, x), tmp(c, y)], c.st, c.base)
                    want = {'lt': ('Less',), 'le': ('Less', 'Equal'), 'gt': ('Greater',), 'ge': ('Greater', 'Equal')}[nm]
                    return ite(is_some(po), bind(disc(getv(po, 'Some', '0'), ORDV), lambda t: B(t.a[0] in want)), FALSE)
            return NotImplemented
        want = {'lt': ('Less',), 'le': ('Less', 'Equal'), 'gt': ('Greater',), 'ge': ('Greater', 'Equal')}[nm]
        return bind(disc(o, ORDV), lambda t: B(t.a[0] in want))
    return m
for _n in ('lt', 'le', 'gt', 'ge'):
    MODELS['std::cmp::PartialOrd::' + _n] = _pcmp(_n)

def _minmax(ismax):
    def m(c, a, b):
        ty = c.dty
        o = None
        if c.eng.isnum(ty):
            d = n_sub(a, b)
            # std::cmp::max returns b when equal, min returns a
            return n_sign(d, False, b if ismax else a, b if ismax else a, a if ismax else b)
        o = ord_values(c, a, b, ty)
        if o is NotImplemented:
            return NotImplemented
        return ite(is_variant(o, ORDV, 'Greater'), a if ismax else b, b if ismax else a)
    return m
MODELS['std::cmp::max'] = MODELS['std::cmp::Ord::max'] = _minmax(True)
MODELS['std::cmp::min'] = MODELS['std::cmp::Ord::min'] = _minmax(False)

@model('std::cmp::Ordering::reverse')
def ord_rev(c, a):
    return bind(disc(a, ORDV), lambda t: {'Less': GREATER, 'Equal': EQUAL, 'Greater': LESS}[t.a[0]])

@model('std::cmp::Ordering::then')
def ord_then(c, a, b):
    return ite(is_variant(a, ORDV, 'Equal'), b, a)

@model('std::cmp::Ordering::then_with')
def ord_then_with(c, a, f):
    k = is_variant(a, ORDV, 'Equal')
    return ite(k, c.call(f, [], k), a)

for _n, _w in (('is_lt', ('Less',)), ('is_le', ('Less', 'Equal')), ('is_gt', ('Greater',)), ('is_ge', ('Greater', 'Equal')), ('is_eq', ('Equal',)), ('is_ne', ('Less', 'Greater'))):
    MODELS['std::cmp::Ordering::' + _n] = (lambda w: lambda c, a: bind(disc(a, ORDV), lambda t: B(t.a[0] in w)))(_w)

# ---------------------------------------------------------------- floats
@model('num_traits::Float::sqrt', 'std::f64::<impl f64>::sqrt', 'core::f64::<impl f64>::sqrt', 'std::f32::<impl f32>::sqrt')
def fsqrt(c, a):
    return n_sqrt(a)

@model('num_traits::Float::abs', 'core::f64::<impl f64>::abs', 'std::f64::<impl f64>::abs', 'num_traits::Signed::abs', 'num_traits::abs')
def fabs(c, a):
    if c.gargs and not c.eng.isnum(c.gargs[0]):
        return NotImplemented
    return n_sign(a, False, n_neg(a), a, a)

def _fm(ismax):
    def m(c, a, b):
        if c.gargs and not c.eng.isnum(c.gargs[0]):
            return NotImplemented
        return n_sign(n_sub(a, b), False, b if ismax else a, a, a if ismax else b)
    return m
for _p in ('num_traits::Float::', 'core::f64::<impl f64>::', 'std::f64::<impl f64>::'):
    MODELS[_p + 'max'] = _fm(True)
    MODELS[_p + 'min'] = _fm(False)

for _t in ('i8', 'i16', 'i32', 'i64', 'i128', 'isize'):
    _p = 'core::num::<impl %s>::' % _t
    MODELS[_p + 'abs'] = MODELS[_p + 'unsigned_abs'] = lambda c, a: n_sign(a, False, n_neg(a), a, a)
    MODELS[_p + 'signum'] = lambda c, a: n_sign(a, False, n_num(-1), n_num(0), n_num(1))
    MODELS[_p + 'is_negative'] = lambda c, a: n_cmp('lt', a, n_num(0), False)
    MODELS[_p + 'is_positive'] = lambda c, a: n_cmp('gt', a, n_num(0), False)
for _t in ('i8', 'i16', 'i32', 'i64', 'i128', 'isize', 'u8', 'u16', 'u32', 'u64', 'u128', 'usize'):
    MODELS['core::num::<impl %s>::abs_diff' % _t] = lambda c, a, b: n_sign(n_sub(a, b), False, n_sub(b, a), n_num(0), n_sub(a, b))
for _p in ('num_traits::Float::', 'core::f64::<impl f64>::', 'std::f64::<impl f64>::'):
    MODELS[_p + 'mul_add'] = lambda c, a, x, y: n_add(n_mul(c.num(a, 0), c.num(x, 1)), c.num(y, 2))
    MODELS[_p + 'recip'] = lambda c, a: n_div(n_num(1), c.num(a, 0))
    MODELS[_p + 'hypot'] = lambda c, a, b: n_sqrt(n_add(n_mul(a, a), n_mul(b, b)))

@model('core::f64::<impl f64>::is_sign_negative', 'num_traits::Float::is_sign_negative', 'num_traits::Signed::is_negative')
def isneg(c, a):
    return n_cmp('lt', c.num(a, 0), n_num(0), False)

@model('core::f64::<impl f64>::is_sign_positive', 'num_traits::Float::is_sign_positive')
def ispos(c, a):
    return n_cmp('ge', c.num(a, 0), n_num(0), False)

@model('num_traits::Signed::is_positive')
def ispos2(c, a):
    if not c.eng.isnum(c.gargs[0]):
        return NotImplemented
    return n_cmp('gt', c.num(a, 0), n_num(0), False)

def _fop(name):
    def m(c, *a):
        return op(name, *[c.num(x, i) for i, x in enumerate(a)])
    return m
for _n in ('round', 'floor', 'ceil', 'trunc', 'is_finite', 'is_infinite', 'to_bits', 'sin', 'cos', 'atan2', 'is_normal'):
    for _p in ('num_traits::Float::', 'core::f64::<impl f64>::', 'std::f64::<impl f64>::'):
        MODELS[_p + _n] = _fop(_n)

@model('num_traits::Float::is_nan', 'core::f64::<impl f64>::is_nan', 'std::f64::<impl f64>::is_nan')
def is_nan(c, a):
    # a value is not a number exactly when it compares with nothing
    return n_sign(c.num(a, 0), True, FALSE, FALSE, FALSE, TRUE)

@model('core::f64::<impl f64>::powi', 'num_traits::Float::powi', 'std::f64::<impl f64>::powi')
def powi(c, a, n):
    k = const_of(n.leaf) if n.leaf is not None else None
    if k is None or abs(k) > 8:
        return op('powi', a, n)
    r = n_num(1)
    for _ in range(abs(int(k))):
        r = n_mul(r, a)
    return r if k >= 0 else n_div(n_num(1), r)

for _n, _v in (('infinity', 'inf'), ('neg_infinity', '-inf'), ('nan', 'nan'), ('max_value', 'fmax'), ('min_value', 'fmin'), ('epsilon', 'feps'), ('min_positive_value', 'fminpos')):
    MODELS['num_traits::Float::' + _n] = (lambda v: lambda c: L(T('fconst', v)))(_v)
    MODELS['num_traits::Bounded::' + _n] = (lambda v: lambda c: L(T('bound', v, tykey(c.gargs[0]))))(_v)

@model('num_traits::Zero::zero', 'num_traits::zero')
def zero(c):
    return n_num(0) if c.eng.isnum(c.gargs[0]) else NotImplemented

@model('num_traits::One::one', 'num_traits::one')
def one(c):
    return n_num(1) if c.eng.isnum(c.gargs[0]) else NotImplemented

@model('num_traits::Zero::is_zero')
def is_zero(c, a):
    if not c.eng.isnum(c.gargs[0]):
        return NotImplemented
    return c.eng.compare('eq', c.rd(a), n_num(0), c.eng.isfloat(c.gargs[0]))

@model('std::default::Default::default')
def default(c):
    t = c.gargs[0]
    return default_of(c, t)

def default_of(c, t):
    if t == ('prim', 'bool'):
        return FALSE
    if c.eng.isnum(t):
        return n_num(0)
    if t[0] == 'adt':
        if t[1] == OPTION:
            return none()
        if t[1] in ('alloc::vec::Vec', 'alloc::string::String', 'smallvec::SmallVec', 'alloc::collections::vec_deque::VecDeque', 'alloc::collections::btree::set::BTreeSet', 'alloc::collections::binary_heap::BinaryHeap'):
            return L(T('vnew'))
        if t[1] in TRANSPARENT:
            return default_of(c, t[2][0])
        for cand in c.eng.facts.implfn.get(('core::default::Default', 'default'), []):
            m = {}
            if unify(cand.ty(cand.d['impl_self']), t, m):
                return c.eng.call_fn(cand, m, [], c.st, c.base)
    if t[0] == 'tuple':
        return tup(*[default_of(c, x) for x in t[1]])
    return op('default', L(T('ty', str(t))))

def fits(f, t, c):
    """numeric conversion f -> t is value preserving"""
    if f == t:
        return True
    isf = c.eng.isfloat
    if isf(t):
        return True
    if isf(f):
        return False
    if t[0] == 'prim' and f[0] == 'prim':
        fw, tw = INTW[f[1]], INTW[t[1]]
        fs, ts = f[1][0] == 'i', t[1][0] == 'i'
        return (fs == ts and tw >= fw) or (not fs and ts and tw > fw)
    if f[0] == 'param' and t[0] == 'prim':
        return t[1] in ('i64', 'i128')
    return False

def holds_int(k, t):
    w = INTW.get(t[1]) if t[0] == 'prim' else None
    return w is not None and (0 <= k < 1 << w if t[1][0] == 'u' else -(1 << (w - 1)) <= k < 1 << (w - 1))

def numcast(c, x, f, t):
    if t == ('prim', 'f32') and f != t:
        return bind(purify(x), lambda v: some(L(v)) if const_of(v) is not None or not c.eng.single(v) else some(L(T('single', v))))
    if fits(f, t, c):
        return some(x)
    return bind(purify(x), lambda v: some(L(v)) if const_of(v) is not None and const_of(v).denominator == 1 and (abs(const_of(v)) < 128 or holds_int(const_of(v), t)) else L(T('numcast', tyname(f), tyname(t), v)))

def tyname(t):
    return 'num' if t[0] == 'param' else str(t[1])

@model('num_traits::NumCast::from')
def numcast_from(c, x):
    return numcast(c, x, c.gargs[1], c.gargs[0])

@model('num_traits::cast', 'num_traits::cast::cast', 'num_traits::cast::NumCast::from')
def numcast_fn(c, x):
    return numcast(c, x, c.gargs[0], c.gargs[1])

def _toprim(t):
    def m(c, a):
        if not c.eng.isnum(c.gargs[0]):
            return NotImplemented
        return numcast(c, c.rd(a), c.gargs[0], ('prim', t))
    return m
for _t in list(INTW) + list(FLOATS):
    MODELS['num_traits::ToPrimitive::to_' + _t] = _toprim(_t)
    def _mk(t):
        def m(c, x):
            f = c.atys[0] if c.atys else ('other',)
            return numcast(c, x, f, c.gargs[0])
        return m
    MODELS['num_traits::FromPrimitive::from_' + _t] = _mk(_t)

@model('num_traits::AsPrimitive::as_')
def as_(c, x):
    return x

@model('std::convert::From::from')
def from_(c, x):
    to, fr = c.gargs[0], c.gargs[1] if len(c.gargs) > 1 else None
    if to == fr:
        return x
    if c.eng.isnum(to) and fr == ('prim', 'bool'):
        return ite(x, n_num(1), n_num(0))
    if c.eng.isnum(to) and fr is not None and fr[0] == 'prim' and to[0] == 'prim':
        return x
    if to[0] == 'adt' and to[1] in TRANSPARENT:
        return x
    if to[0] == 'adt' and to[1] == OPTION:
        return some(x)
    if to[0] == 'adt' and to[1] == 'ordered_float::OrderedFloat':
        return struct(to[1], (('0', x),))
    return NotImplemented

@model('std::convert::Into::into')
def into(c, x):
    src, dst = c.gargs[0], c.gargs[1]
    if src == dst:
        return x
    e = c.eng
    for cand in e.facts.implfn.get(('core::convert::From', 'from'), []):
        m = {}
        if unify(cand.ty(cand.d['impl_self']), dst, m):
            ta = [cand.ty(i) for i in cand.d.get('trait_args', []) if isinstance(i, int)]
            if len(ta) > 1 and unify(ta[1], src, m) and (dst[0] != 'param'):
                return e.call_fn(cand, m, [x], c.st, c.base)
    c2 = c.gargs
    c.gargs = [dst, src]
    r = from_(c, x)
    c.gargs = c2
    if r is NotImplemented:
        return op('into', L(T('ty', tykey(dst))), c.eng.deep(c.st, x))
    return r

# ---------------------------------------------------------------- ranges a..=b
@model('std::ops::RangeInclusive::new')
def range_incl(c, a, b):
    return struct('core::ops::RangeInclusive', [('start', a), ('end', b)])

@model('std::ops::Range::contains')
def range_has(c, r, x):
    v, x = c.rd(r), c.rd(x)
    if v.leaf is None or v.leaf.op != 'S' or len(v.leaf.a[3]) != 2:
        return NotImplemented
    isf = c.eng.isfloat(c.gargs[0])
    return n_and(n_cmp('le', getf(v, 'start'), x, isf), n_cmp('lt', x, getf(v, 'end'), isf))

@model('std::ops::RangeInclusive::contains', 'std::ops::RangeBounds::contains')
def range_contains(c, r, x):
    v, x = c.rd(r), c.rd(x)
    if v.leaf is None or v.leaf.op != 'S' or v.leaf.a[0] != 'core::ops::RangeInclusive':
        return NotImplemented
    try:
        isf = c.eng.isfloat(c.gargs[0])
    except Exception:
        isf = True
    return n_and(n_cmp('le', getf(v, 'start'), x, isf), n_cmp('le', x, getf(v, 'end'), isf))

# ---------------------------------------------------------------- clone etc.
@model('std::clone::Clone::clone', 'std::borrow::ToOwned::to_owned')
def clone(c, a):
    return c.rd(a)

@model('std::clone::Clone::clone_from', 'std::borrow::ToOwned::clone_into')
def clone_from(c, a, b):
    if c.path.endswith('clone_into'):
        a, b = b, a
    c.wr(a, c.rd(b))
    return UNIT

@model('std::option::Option::copied', 'std::option::Option::cloned')
def copied(c, o):
    return ite(is_some(o), some_of(c.rd(getv(o, 'Some', '0'))), none())

def some_of(x):
    return BOT if x is BOT else some(x)

@model('std::option::Option::as_ref', 'std::option::Option::as_mut', 'std::option::Option::as_deref')
def as_ref(c, r):
    o = c.rd(r)
    pr = c.eng.ext(r, ('v', 'Some', '0'))
    return ite(is_some(o), some(pr), none())

@model('std::result::Result::as_ref', 'std::result::Result::as_mut')
def res_as_ref(c, r):
    o = c.rd(r)
    return ite(is_ok(o), ok(c.eng.ext(r, ('v', 'Ok', '0'))), err(c.eng.ext(r, ('v', 'Err', '0'))))

@model('std::option::Option::is_some')
def o_is_some(c, r):
    return is_some(c.rd(r))

@model('std::option::Option::is_none')
def o_is_none(c, r):
    return n_not(is_some(c.rd(r)))

@model('std::option::Option::is_some_and')
def o_is_some_and(c, o, f):
    k = is_some(o)
    return ite(k, c.call(f, [getv(o, 'Some', '0')], k), FALSE)

@model('std::result::Result::is_ok')
def r_is_ok(c, r):
    return is_ok(c.rd(r))

@model('std::result::Result::is_err')
def r_is_err(c, r):
    return n_not(is_ok(c.rd(r)))

@model('std::option::Option::unwrap', 'std::option::Option::expect')
def o_unwrap(c, o, *m):
    c.panic(n_not(is_some(o)), 'unwrap-None')
    r = getv(o, 'Some', '0')
    if r is BOT:
        raise DeadPath()
    return r

@model('std::result::Result::unwrap', 'std::result::Result::expect')
def r_unwrap(c, o, *m):
    c.panic(n_not(is_ok(o)), 'unwrap-Err')
    r = getv(o, 'Ok', '0')
    if r is BOT:
        raise DeadPath()
    return r

@model('std::result::Result::unwrap_err')
def r_unwrap_err(c, o, *m):
    c.panic(is_ok(o), 'unwrap-Ok')
    return getv(o, 'Err', '0')

@model('std::option::Option::unwrap_or')
def o_unwrap_or(c, o, d):
    return ite(is_some(o), getv(o, 'Some', '0'), d)

@model('std::option::Option::unwrap_or_default')
def o_unwrap_or_default(c, o):
    return ite(is_some(o), getv(o, 'Some', '0'), default_of(c, c.dty))

@model('std::option::Option::unwrap_or_else')
def o_unwrap_or_else(c, o, f):
    k = is_some(o)
    return ite(k, getv(o, 'Some', '0'), c.call(f, [], n_not(k)))

@model('std::result::Result::unwrap_or')
def r_unwrap_or(c, o, d):
    return ite(is_ok(o), getv(o, 'Ok', '0'), d)

@model('std::result::Result::unwrap_or_else')
def r_unwrap_or_else(c, o, f):
    k = is_ok(o)
    return ite(k, getv(o, 'Ok', '0'), c.call(f, [getv(o, 'Err', '0')], n_not(k)))

@model('std::option::Option::map')
def o_map(c, o, f):
    k = is_some(o)
    return ite(k, some_of(c.call(f, [getv(o, 'Some', '0')], k)), none())

@model('std::option::Option::map_or')
def o_map_or(c, o, d, f):
    k = is_some(o)
    return ite(k, c.call(f, [getv(o, 'Some', '0')], k), d)

@model('std::option::Option::map_or_else')
def o_map_or_else(c, o, d, f):
    k = is_some(o)
    return ite(k, c.call(f, [getv(o, 'Some', '0')], k), c.call(d, [], n_not(k)))

@model('std::option::Option::and_then')
def o_and_then(c, o, f):
    k = is_some(o)
    return ite(k, c.call(f, [getv(o, 'Some', '0')], k), none())

@model('std::option::Option::and')
def o_and(c, o, b):
    return ite(is_some(o), b, none())

@model('std::option::Option::or')
def o_or(c, o, b):
    return ite(is_some(o), o, b)

@model('std::option::Option::or_else')
def o_or_else(c, o, f):
    k = is_some(o)
    return ite(k, o, c.call(f, [], n_not(k)))

@model('std::option::Option::filter')
def o_filter(c, o, f):
    k = is_some(o)
    p = c.call(f, [tmp(c, getv(o, 'Some', '0'))], k)
    return ite(n_and(k, p), o, none())

@model('std::option::Option::ok_or')
def o_ok_or(c, o, e):
    return ite(is_some(o), ok_of(getv(o, 'Some', '0')), err(e))

def ok_of(x):
    return BOT if x is BOT else ok(x)

def err_of(x):
    return BOT if x is BOT else err(x)

@model('std::option::Option::ok_or_else')
def o_ok_or_else(c, o, f):
    k = is_some(o)
    return ite(k, ok_of(getv(o, 'Some', '0')), err_of(c.call(f, [], n_not(k))))

@model('std::option::Option::zip')
def o_zip(c, a, b):
    return ite(n_and(is_some(a), is_some(b)), some_of(tup(getv(a, 'Some', '0'), getv(b, 'Some', '0'))), none())

@model('std::option::Option::take')
def o_take(c, r):
    v = c.rd(r)
    c.wr(r, none())
    return v

@model('std::option::Option::replace')
def o_replace(c, r, x):
    v = c.rd(r)
    c.wr(r, some(x))
    return v

@model('std::option::Option::insert')
def o_insert(c, r, x):
    c.wr(r, some(x))
    return c.eng.ext(r, ('v', 'Some', '0'))

@model('std::mem::take')
def mem_take(c, r):
    v = c.rd(r)
    c.wr(r, default_of(c, c.gargs[0]))
    return v

@model('std::mem::replace')
def mem_replace(c, r, x):
    v = c.rd(r)
    c.wr(r, x)
    return v

@model('std::mem::swap')
def mem_swap(c, a, b):
    x, y = c.rd(a), c.rd(b)
    c.wr(a, y)
    c.wr(b, x)
    return UNIT

@model('std::mem::drop', 'std::mem::forget')
def mem_drop(c, a):
    return UNIT

@model('std::result::Result::map')
def r_map(c, o, f):
    k = is_ok(o)
    return ite(k, ok_of(c.call(f, [getv(o, 'Ok', '0')], k)), err_of(getv(o, 'Err', '0')))

@model('std::result::Result::map_err')
def r_map_err(c, o, f):
    k = is_ok(o)
    return ite(k, ok_of(getv(o, 'Ok', '0')), err_of(c.call(f, [getv(o, 'Err', '0')], n_not(k))))

@model('std::result::Result::and_then')
def r_and_then(c, o, f):
    k = is_ok(o)
    return ite(k, c.call(f, [getv(o, 'Ok', '0')], k), err_of(getv(o, 'Err', '0')))

@model('std::result::Result::ok')
def r_ok(c, o):
    return ite(is_ok(o), some_of(getv(o, 'Ok', '0')), none())

@model('std::result::Result::err')
def r_err(c, o):
    return ite(is_ok(o), none(), some_of(getv(o, 'Err', '0')))

@model('std::ops::Try::branch')
def branch(c, o):
    t = c.gargs[0]
    if t[1] == OPTION:
        return ite(is_some(o), cont(getv(o, 'Some', '0')), brk(none()))
    if t[1] == RESULT:
        e = getv(o, 'Err', '0')
        return ite(is_ok(o), cont(getv(o, 'Ok', '0')), BOT if e is BOT else brk(err(e)))
    return NotImplemented

def cont(x):
    return BOT if x is BOT else enum(CFLOW, 'Continue', (('0', x),))

def brk(x):
    return enum(CFLOW, 'Break', (('0', x),))

@model('std::ops::FromResidual::from_residual')
def from_residual(c, r):
    t = c.gargs[0]
    if t[1] == OPTION:
        return none()
    return err_of(getv(r, 'Err', '0'))

@model('std::ops::Try::from_output')
def from_output(c, x):
    return some(x) if c.gargs[0][1] == OPTION else ok(x)

# ---------------------------------------------------------------- pointers
@model('std::ops::Deref::deref', 'std::ops::DerefMut::deref_mut', 'std::convert::AsRef::as_ref', 'std::borrow::Borrow::borrow', 'std::borrow::BorrowMut::borrow_mut')
def deref(c, r):
    t = c.gargs[0]
    if t[0] == 'adt':
        if t[1] in ('core::cell::Ref', 'core::cell::RefMut'):
            return c.rd(r)
        if t[1] in TRANSPARENT or t[1] in ('alloc::vec::Vec', 'smallvec::SmallVec', 'alloc::string::String', 'ahash::hash_map::AHashMap', 'ahash::AHashMap'):
            return r
        if t[1] == 'nalgebra::geometry::point::OPoint':
            return r
    if t[0] == 'ref':
        return c.rd(r)
    if t[0] in ('array', 'slice', 'prim'):
        return r
    return NotImplemented

for _n in ('std::cell::Cell', 'std::cell::RefCell', 'std::rc::Rc', 'std::boxed::Box', 'std::sync::Arc'):
    MODELS[_n + '::new'] = lambda c, x: x
    MODELS[_n + '::into_inner'] = lambda c, x: x
    MODELS[_n + '::get_mut'] = lambda c, x: x
MODELS['std::cell::Cell::get'] = lambda c, r: c.rd(r)
MODELS['std::cell::RefCell::borrow'] = lambda c, r: r
MODELS['std::cell::RefCell::borrow_mut'] = lambda c, r: r
MODELS['std::rc::Rc::get_mut'] = lambda c, r: some(r)
MODELS['std::rc::Rc::make_mut'] = lambda c, r: r
MODELS['std::hint::must_use'] = lambda c, r: r
MODELS['std::convert::identity'] = lambda c, r: r
MODELS['std::hint::black_box'] = lambda c, r: r

# vec![a, b]: a boxed array is filled and becomes the vector
@model('std::boxed::Box::new_uninit')
def box_new_uninit(c):
    root = T('tmp', 'box', c.fr.id, c.fr.bb)
    c.st[root] = struct('box', [('1', struct('box', [('value', L(T('undef')))]))])
    return struct('std::boxed::Box', [('0', mkref(root))])

@model('std::boxed::box_assume_init_into_vec_unsafe')
def box_into_vec(c, b):
    r = getf(b, '0')
    v = c.rd(r)
    while is_struct_leaf(v) and v.leaf.a[0] != 'array' and len(v.leaf.a[3]) == 1:
        v = v.leaf.a[3][0][1]
    if not (is_struct_leaf(v) and v.leaf.a[0] == 'array'):
        return NotImplemented
    t = T('vnew')
    for k, x in v.leaf.a[3]:
        t = T('vpush', t, x)
    return L(t)

@model('std::cell::Cell::set')
def cell_set(c, r, x):
    c.wr(r, x)
    return UNIT

@model('std::cell::Cell::replace')
def cell_replace(c, r, x):
    v = c.rd(r)
    c.wr(r, x)
    return v

@model('std::cell::Cell::take')
def cell_take(c, r):
    v = c.rd(r)
    c.wr(r, default_of(c, c.gargs[0]))
    return v

MODELS['ordered_float::OrderedFloat::into_inner'] = lambda c, x: getf(x, '0')
MODELS['ordered_float::OrderedFloat'] = lambda c, x: struct('ordered_float::OrderedFloat', (('0', x),))

# ---------------------------------------------------------------- sequences
@model('std::vec::Vec::new', 'std::vec::Vec::with_capacity', 'smallvec::SmallVec::new', 'std::string::String::new')
def vec_new(c, *a):
    return L(T('vnew'))

@model('std::vec::Vec::len', 'core::slice::<impl [T]>::len', 'smallvec::SmallVec::len', 'std::string::String::len')
def vec_len(c, r):
    return bind(c.rd(r), c.eng.vlen)

@model('std::vec::Vec::is_empty', 'core::slice::<impl [T]>::is_empty', 'smallvec::SmallVec::is_empty')
def vec_is_empty(c, r):
    return n_cmp('le', bind(c.rd(r), c.eng.vlen), n_num(0), False)

@model('std::vec::Vec::reserve', 'std::vec::Vec::shrink_to_fit', 'smallvec::SmallVec::reserve')
def vec_reserve(c, r, *a):
    return UNIT

@model('std::vec::Vec::clear', 'smallvec::SmallVec::clear')
def vec_clear(c, r):
    c.wr(r, L(T('vnew')))
    return UNIT

@model('std::vec::Vec::push', 'smallvec::SmallVec::push')
def vec_push(c, r, x):
    v = c.rd(r)
    c.eng.events.append(('push', c.fr.fn.spath, v, x, c.base, c.t['sp']))
    c.wr(r, bind(v, lambda t: L(T('vpush', t, x))))
    return UNIT

@model('std::vec::Vec::pop', 'smallvec::SmallVec::pop')
def vec_pop(c, r):
    v = c.rd(r)
    last = bind(v, lambda t: bind(c.eng.vlen(t), lambda n: c.eng.vidx(t, padd(n, ONE, -1))))
    empty = n_cmp('eq', bind(v, c.eng.vlen), n_num(0), False)
    c.wr(r, ite(empty, v, bind(v, c.eng.vpop)))
    return ite(empty, none(), some(last))

def _chain(t):
    n = 0
    while t.op == 'vpush':
        t = t.a[0] if not isinstance(t.a[0], Node) else t.a[0].leaf
        if t is None:
            return None
        n += 1
    return n if t.op == 'vnew' else None

@model('std::vec::Vec::truncate', 'smallvec::SmallVec::truncate')
def vec_truncate(c, r, n):
    v = c.rd(r)
    k = [const_of(x) for x in leafset(purify(n))]
    if None in k or not all(t is BOT.leaf or _chain(t) is not None for t in leafset(v)):
        if k == [0]:
            c.wr(r, L(T('vnew')))
            return UNIT
        cut = bindn([v, purify(n)], lambda b, k: L(T('vtrunc', b, k)))
        c.wr(r, ite(n_cmp('lt', n, bind(v, c.eng.vlen), False), cut, v))
        return UNIT
    def f(t, x):
        m = _chain(t)
        if m is None or const_of(x) < 0:
            return BOT
        while m > const_of(x):
            t = t.a[0] if not isinstance(t.a[0], Node) else t.a[0].leaf
            m -= 1
        return L(t)
    c.wr(r, bindn([v, purify(n)], lambda t, x: f(t, unpk(x))))
    return UNIT

@model('std::vec::Vec::resize', 'smallvec::SmallVec::resize')
def vec_resize(c, r, n, x):
    v = c.rd(r)
    k = [const_of(y) for y in leafset(purify(n))]
    if None in k or not all(t is BOT.leaf or _chain(t) is not None for t in leafset(v)):
        return NotImplemented
    vec_truncate(c, r, n)
    def f(t, y):
        if t is BOT.leaf:
            return BOT
        for _ in range(_chain(t), int(const_of(y))):
            t = T('vpush', t, x)
        return L(t)
    c.wr(r, bindn([c.rd(r), purify(n)], lambda t, y: f(t, unpk(y))))
    return UNIT

def idxop(c, r, i, ity):
    """place of element i (or sub-slice) of the sequence behind r"""
    if ity == ('prim', 'usize'):
        return bindn([r, purify(i)], lambda t, x: mkref(t.a[0], t.a[1] + (('i', L(x)),)) if t.op == 'ref' else mkref(T('D', t), (('i', L(x)),)))
    at = lambda x, *more: bindn([r, purify(x)], lambda t, x: mkref(*(lambda rt, p: (rt, p + (('off', L(x)),) + more))(*((t.a[0], t.a[1]) if t.op == 'ref' else (T('D', t), ())))))
    if ity[0] == 'adt' and ity[1].endswith('RangeFrom'):
        return at(getf(i, 'start'))
    if ity[0] == 'adt' and ity[1].endswith('RangeFull'):
        return r
    if ity[0] == 'adt' and ity[1].endswith(('ops::range::Range', 'ops::Range')):
        return at(getf(i, 'start'), ('cut', n_sub(getf(i, 'end'), getf(i, 'start'))))
    if ity[0] == 'adt' and ity[1].endswith('RangeInclusive') and i.leaf is not None and i.leaf.op == 'S' and len(i.leaf.a[3]) == 2:
        return at(getf(i, 'start'), ('cut', n_sub(n_add(getf(i, 'end'), n_num(1)), getf(i, 'start'))))
    if ity[0] == 'adt' and ity[1].endswith(('RangeTo', 'RangeToInclusive')):
        n = getf(i, 'end')
        return c.eng.ext(r, ('cut', n_add(n, n_num(1)) if ity[1].endswith('Inclusive') else n))
    return None

SEQ = ('alloc::vec::Vec', 'smallvec::SmallVec', 'alloc::collections::vec_deque::VecDeque')

@model('std::ops::Index::index', 'std::ops::IndexMut::index_mut')
def index(c, r, i):
    t = c.gargs[0]
    if t[0] == 'adt' and t[1] not in SEQ:
        return NotImplemented
    ity = c.atys[1]
    p = idxop(c, r, i, ity)
    if p is None:
        return NotImplemented
    if ity == ('prim', 'usize'):
        c.panic(n_not(inrange(c, c.rd(r), i)), 'index')
    elif ity[0] == 'adt' and not ity[1].endswith('RangeFull'):
        sliced(c, r, *[getf(i, k) for k in (('start', 'end') if ity[1].endswith(('Range', 'RangeInclusive')) else ('start',) if ity[1].endswith('From') else ('end',))])
    return p

def sliced(c, r, *bounds):
    """the bounds of a sub-slice are in order and within the sequence"""
    n = bind(c.rd(r), c.eng.vlen)
    for x, y in zip(bounds, bounds[1:] + (n,)):
        if not c.eng.inrange(c.rd(r), x):
            c.panic(n_cmp('lt', y, x, False), 'slice')

@model('core::slice::<impl [T]>::split_at', 'core::slice::<impl [T]>::split_at_mut')
def split_at(c, r, n):
    sliced(c, r, n)
    return tup(c.eng.ext(r, ('cut', n)), c.eng.ext(r, ('off', n)))

@model('core::slice::<impl [T]>::split_first', 'core::slice::<impl [T]>::split_first_mut')
def split_first(c, r):
    ln = bind(c.rd(r), c.eng.vlen)
    p = idxop(c, r, n_num(0), ('prim', 'usize'))
    return ite(n_cmp('lt', n_num(0), ln, False), some(tup(p, c.eng.ext(r, ('off', n_num(1))))), none())

@model('core::slice::<impl [T]>::split_last', 'core::slice::<impl [T]>::split_last_mut')
def split_last(c, r):
    ln = bind(c.rd(r), c.eng.vlen)
    end = n_sub(ln, n_num(1))
    p = idxop(c, r, end, ('prim', 'usize'))
    return ite(n_cmp('lt', n_num(0), ln, False), some(tup(p, c.eng.ext(r, ('cut', end)))), none())

@model('core::slice::<impl [T]>::get', 'core::slice::<impl [T]>::get_mut')
def get(c, r, i):
    ity = c.atys[1]
    if ity != ('prim', 'usize'):
        return NotImplemented
    p = idxop(c, r, i, ity)
    return ite(inrange(c, c.rd(r), i), some(p), none())

def inrange(c, v, i):
    """i < len(v), using the check's precondition"""
    def f(b, x):
        if c.eng.inrange(b, x):
            return TRUE
        return n_cmp('lt', L(x), c.eng.vlen(b), False)
    return bindn([v, purify(i)], f)

@model('core::slice::<impl [T]>::first')
def first(c, r):
    p = idxop(c, r, n_num(0), ('prim', 'usize'))
    return ite(n_cmp('lt', n_num(0), bind(c.rd(r), c.eng.vlen), False), some(p), none())

@model('core::slice::<impl [T]>::last', 'core::slice::<impl [T]>::last_mut')
def last(c, r):
    ln = bind(c.rd(r), c.eng.vlen)
    p = idxop(c, r, n_sub(ln, n_num(1)), ('prim', 'usize'))
    return ite(n_cmp('lt', n_num(0), ln, False), some(p), none())

@model('core::slice::<impl [T]>::swap')
def slice_swap(c, r, i, j):
    a = idxop(c, r, i, ('prim', 'usize'))
    b = idxop(c, r, j, ('prim', 'usize'))
    x, y = c.rd(a), c.rd(b)
    c.wr(a, y)
    c.wr(b, x)
    return UNIT

MODELS['std::vec::Vec::as_slice'] = lambda c, r: r
MODELS['std::vec::Vec::as_mut_slice'] = lambda c, r: r
MODELS['std::string::String::as_str'] = lambda c, r: r
MODELS['std::slice::<impl [T]>::into_vec'] = lambda c, x: x
MODELS['std::slice::<impl [T]>::to_vec'] = lambda c, x: c.rd(x)

# ---------------------------------------------------------------- functions
def _callm(c, f, a):
    n = 0
    t = a.leaf
    args = []
    if t is not None and t.op == 'S' and t.a[0] == 'tuple':
        args = [v for _, v in t.a[3]]
    else:
        raise Unsupported('closure args')
    return c.eng.call_value(f, args, c)
for _n in ('std::ops::Fn::call', 'std::ops::FnMut::call_mut', 'std::ops::FnOnce::call_once'):
    MODELS[_n] = _callm

# ---------------------------------------------------------------- strings / fmt
FMT = L(T('text'))
for _n in ('std::fmt::format', 'std::string::ToString::to_string', 'alloc::fmt::format', 'std::fmt::Arguments::new', 'core::fmt::rt::Argument::new_debug',
           'core::fmt::rt::Argument::new_display', 'std::fmt::Arguments::from_str', 'core::fmt::rt::<impl std::fmt::Arguments>::new', 'core::fmt::rt::<impl std::fmt::Arguments>::from_str', 'std::fmt::Arguments::new_const', 'std::fmt::Arguments::new_v1',
           'core::fmt::rt::Argument::new_lower_exp', 'core::fmt::rt::Argument::new_upper_exp', 'core::fmt::rt::Argument::none'):
    MODELS[_n] = lambda c, *a: FMT

def _print(c, *a):
    c.eng.events.append(('print', c.path, c.base, c.fr.fn.spath, c.t['sp']))
    return UNIT
MODELS['std::io::_print'] = _print
MODELS['std::io::_eprint'] = _print

# intrinsics
@model('std::intrinsics::discriminant_value', 'core::intrinsics::discriminant_value')
def discriminant_value(c, r):
    return c.eng.discr(c.rd(r), c.gargs[0])

@model('std::mem::discriminant')
def mem_discriminant(c, r):
    return c.eng.discr(c.rd(r), c.gargs[0])

@model('core::array::<impl [T; N]>::map', 'std::array::<impl [T; N]>::map')
def array_map(c, a, f):
    ty = c.atys[0]
    if ty[0] != 'array' or not str(ty[2]).isdigit() or int(str(ty[2])) > 16:
        return NotImplemented
    el = lambda i: bind(a, lambda t: c.eng.vidx(t, terms.num(i)))
    return struct('array', [(str(i), c.call(f, [el(i)])) for i in range(int(str(ty[2])))])

@model('core::bool::<impl bool>::then')
def bool_then(c, b, f):
    return ite(b, some_of(c.call(f, [], b)), none())

@model('core::bool::<impl bool>::then_some')
def bool_then_some(c, b, x):
    return ite(b, some(x), none())

# ---------------------------------------------------------------- iterators
# A known iterator is a struct value 'it:<kind>'; anything else stays opaque.
OWN = {}      # iterators of the project: type -> its function `next`

def it_kind(t):
    if t.op == 'S' and str(t.a[0]) in OWN:
        return 'user'
    return t.a[0][3:] if t.op == 'S' and str(t.a[0]).startswith('it:') else None

def learn_iterators(F):
    OWN.clear()
    for f in F.implfn.get(('core::iter::traits::iterator::Iterator', 'next'), []):
        t = f.ty(f.d['impl_self'])
        if t[0] == 'adt':
            OWN[t[1]] = f

def mkit(kind, **fs):
    return struct('it:' + kind, tuple(sorted(fs.items())))

def slice_iter(c, r):
    """iterator over the elements behind reference r"""
    ln = bind(c.rd(r), c.eng.vlen)
    return mkit('slice', r=r, pos=n_num(0), end=ln)

def elem_ref(r, i):
    return bindn([r, i], lambda t, x: mkref(t.a[0], t.a[1] + (('i', L(x)),)) if t.op == 'ref' else mkref(T('D', t), (('i', L(x)),)))

@model('core::slice::<impl [T]>::iter', 'core::slice::<impl [T]>::iter_mut')
def sl_iter(c, r):
    return slice_iter(c, r)

def is_seq(t):
    return t[0] in ('slice', 'array') or (t[0] == 'adt' and t[1] in SEQ)

def to_iter(c, x, ty):
    if x.leaf is not None and it_kind(x.leaf):
        return x
    if ty[0] == 'ref' and is_seq(ty[2]):
        return slice_iter(c, x)
    if ty[0] == 'adt' and ty[1].endswith('ops::range::Range') and x.leaf is not None and x.leaf.op == 'S':
        return mkit('range', pos=getf(x, 'start'), end=getf(x, 'end'))
    if ty[0] == 'adt' and ty[1].endswith('ops::range::RangeInclusive') and x.leaf is not None and x.leaf.op == 'S' and len(x.leaf.a[3]) == 2:
        return mkit('range', pos=getf(x, 'start'), end=n_add(getf(x, 'end'), n_num(1)))
    if is_seq(ty) or (ty[0] == 'adt' and ty[1] in SEQ):
        root = T('tmp', 'own', c.fr.id, c.fr.bb, c.fr.nc)
        c.fr.nc += 1
        c.st[root] = x
        return mkit('own', r=mkref(root), pos=n_num(0), end=bind(x, c.eng.vlen))
    if ty[0] == 'adt' and ty[1] == OPTION:
        return mkit('opt', o=x)
    return None

def own_iterator(F, adt):
    """types of the project that are iterators themselves"""
    r = F.__dict__.setdefault('own_iterators', None)
    if r is None:
        r = F.own_iterators = set()
        for i in F.impls:
            if i.get('trait', '').endswith('::iterator::Iterator'):
                t = F.ty(i['crate'], i['self'])
                if t[0] == 'adt':
                    r.add(t[1])
    return adt in r

@model('std::iter::IntoIterator::into_iter')
def into_iter(c, x):
    ty = c.atys[0]
    if ty[0] == 'adt' and own_iterator(c.eng.facts, ty[1]):
        return x
    if ty[0] == 'adt' and ty[1] == 'std::io::Lines' and x.leaf is not None and it_kind(x.leaf):
        return x
    r = to_iter(c, x, c.atys[0])
    return NotImplemented if r is None else r

@model('std::io::BufRead::lines')
def io_lines(c, r):
    return mkit('ext', it=bind(r, lambda t: L(T('lines', t))))

def _adapt(name, kind):
    @model('std::iter::Iterator::' + name)
    def f(c, it, *a):
        if it.leaf is None:
            return NotImplemented
        if it_kind(it.leaf) is None:
            as_range = c.atys and c.atys[0][0] == 'adt' and c.atys[0][1].endswith(('ops::range::Range', 'ops::range::RangeInclusive')) and to_iter(c, it, c.atys[0])
            it = as_range or mkit('ext', it=it)
        return mkit(kind, it=it, **({'a': a[0]} if a else {}))
for _n, _k in (('map', 'map'), ('enumerate', 'enum'), ('rev', 'rev'), ('copied', 'copied'), ('cloned', 'copied'), ('filter', 'filter'), ('zip', 'zip'), ('chain', 'chain')):
    _adapt(_n, _k)

@model('std::iter::Iterator::enumerate')
def it_enumerate(c, it):
    if it.leaf is None:
        return NotImplemented
    if it_kind(it.leaf) is None:
        it = mkit('ext', it=it)
    return mkit('enum', it=it, n=n_num(0))

@model('std::iter::Iterator::skip')
def it_skip(c, it, n):
    if it.leaf is None:
        return NotImplemented
    k = it_kind(it.leaf)
    if k in ('slice', 'range', 'own'):
        return setf(it, 'pos', n_add(getf(it, 'pos'), n))
    if k == 'enum':
        inner = it_skip(c, getf(it, 'it'), n)
        if inner is NotImplemented:
            return inner
        return mkit('enum', it=inner, n=n_add(getf(it, 'n'), n))
    if k == 'copied':
        inner = it_skip(c, getf(it, 'it'), n)
        return inner if inner is NotImplemented else setf(it, 'it', inner)
    if k == 'zip':
        p, q = it_skip(c, getf(it, 'it'), n), it_skip(c, getf(it, 'a'), n)
        return NotImplemented if p is NotImplemented or q is NotImplemented else setf(setf(it, 'it', p), 'a', q)
    return NotImplemented

@model('std::iter::Iterator::take')
def it_take(c, it, n):
    if it.leaf is None:
        return NotImplemented
    k = it_kind(it.leaf)
    if k in ('slice', 'range', 'own'):
        lim = n_add(getf(it, 'pos'), n)
        return setf(it, 'end', ite(n_cmp('lt', lim, getf(it, 'end'), False), lim, getf(it, 'end')))
    if k == 'rev' and getf(it, 'it').leaf is not None and it_kind(getf(it, 'it').leaf) in ('slice', 'range', 'own'):
        x = getf(it, 'it')
        p, lim = getf(x, 'pos'), n_sub(getf(x, 'end'), n)
        return setf(it, 'it', setf(x, 'pos', ite(n_cmp('lt', p, lim, False), lim, p)))
    if k in ('enum', 'map', 'copied', 'zip'):
        inner = it_take(c, getf(it, 'it'), n)
        return inner if inner is NotImplemented else setf(it, 'it', inner)
    return NotImplemented

def it_next(c, it):
    """(Option node, advanced iterator) or None when the iterator is opaque"""
    if it.leaf is None:
        return None
    k = it_kind(it.leaf)
    if k in ('slice', 'own', 'range'):
        pos, end = getf(it, 'pos'), getf(it, 'end')
        more = n_cmp('lt', pos, end, False)
        if k == 'range':
            x = pos
        elif k == 'slice':
            x = elem_ref(getf(it, 'r'), pos)
        else:
            x = c.rd(elem_ref(getf(it, 'r'), pos))
        nx = pos if pos is BOT else n_add(pos, n_num(1))
        # when exhausted the position no longer matters
        return ite(more, some_of(x), none()), setf(it, 'pos', nx)
    if k == 'user':
        root = T('tmp', 'user', c.fr.id, c.fr.bb, c.fr.nc)
        c.fr.nc += 1
        c.st[root] = it
        o = c.eng.call_fn(OWN[it.leaf.a[0]], {}, [mkref(root)], c.st, c.base)
        return o, c.st.pop(root)
    if k == 'ext':
        inner = getf(it, 'it')
        o = bind(inner, lambda t: L(T('next', t)))
        return o, setf(it, 'it', bind(inner, lambda t: L(T('rest', t))))
    if k == 'opt':
        return getf(it, 'o'), setf(it, 'o', none())
    if k == 'map':
        p = it_next(c, getf(it, 'it'))
        if p is None:
            return None
        o, inner = p
        g = is_some(o)
        r = c.call(getf(it, 'a'), [getv(o, 'Some', '0')], g)
        return ite(g, some_of(r), none()), setf(it, 'it', inner)
    if k == 'enum':
        p = it_next(c, getf(it, 'it'))
        if p is None:
            return None
        o, inner = p
        n = getf(it, 'n')
        return ite(is_some(o), some_of(tup(n, getv(o, 'Some', '0'))), none()), setf(setf(it, 'it', inner), 'n', n_add(n, n_num(1)))
    if k == 'copied':
        p = it_next(c, getf(it, 'it'))
        if p is None:
            return None
        o, inner = p
        v = bind(getv(o, 'Some', '0'), lambda t: c.eng.read_ref(c.st, L(t)))
        return ite(is_some(o), some_of(v), none()), setf(it, 'it', inner)
    if k == 'rev':
        inner = getf(it, 'it')
        if inner.leaf is None:
            return None
        ik = it_kind(inner.leaf)
        if ik not in ('slice', 'own', 'range'):
            return None
        pos, end = getf(inner, 'pos'), getf(inner, 'end')
        more = n_cmp('lt', pos, end, False)
        last = n_sub(end, n_num(1))
        x = last if ik == 'range' else elem_ref(getf(inner, 'r'), last)
        if ik == 'own':
            x = c.rd(x)
        return ite(more, some_of(x), none()), setf(it, 'it', setf(inner, 'end', last))
    if k == 'zip':
        b0 = getf(it, 'a')
        b0 = b0 if b0.leaf is not None and it_kind(b0.leaf) else None
        if b0 is None:
            return None
        p = it_next(c, getf(it, 'it'))
        q = it_next(c, b0)
        if p is None or q is None:
            return None
        g = n_and(is_some(p[0]), is_some(q[0]))
        return ite(g, some_of(tup(getv(p[0], 'Some', '0'), getv(q[0], 'Some', '0'))), none()), setf(setf(it, 'it', p[1]), 'a', q[1])
    return None

@model('std::iter::Iterator::next')
def iter_next(c, r):
    it = c.rd(r)
    p = it_next(c, it)
    if p is None:
        return NotImplemented
    o, it2 = p
    c.wr(r, it2)
    return o

def consume(c, it, name, step, until=None):
    """run step(x) for every element of it (until the condition holds); step
    mutates c.st"""
    if it.leaf is None or it_kind(it.leaf) is None:
        return None
    while it_kind(it.leaf) == 'filter':
        def chosen(c, x, step=step, pred=getf(it, 'a')):
            at = T('tmp', 'item', c.fr.id, c.fr.bb, c.fr.nc)
            c.fr.nc += 1
            c.st[at] = x
            g = c.eng.call_value(pred, [mkref(at)], c)
            c.st.pop(at, None)
            if g is FALSE:
                return
            st0, b0 = c.st, c.base
            st1 = dict(st0)
            c.st, c.base = st1, n_and(b0, g)
            step(c, x)
            c.st, c.base = st0, b0
            _, m = c.eng.merge([(g, st1), (n_not(g), dict(st0))])
            st0.clear()
            st0.update(m)
        step, it = chosen, getf(it, 'it')
        if it.leaf is None or it_kind(it.leaf) is None:
            return None
    root = T('tmp', 'it', c.fr.id, c.fr.bb, name)
    c.st[root] = it
    okk = [True]
    def one(c):
        p = it_next(c, c.st[root])
        if p is None:
            okk[0] = False
            return FALSE
        o, it2 = p
        g = is_some(o)
        if until is not None:
            g = n_and(n_not(until(c)), g)
        c.st[root] = ite(g, it2, c.st[root])
        x = getv(o, 'Some', '0')
        if g is FALSE:
            return FALSE
        st0, b0 = c.st, c.base
        st1 = dict(st0)
        c.st, c.base = st1, n_and(b0, g)
        step(c, x)
        c.st, c.base = st0, b0
        _, m = c.eng.merge([(g, st1), (n_not(g), dict(st0))])
        st0.clear()
        st0.update(m)
        return g
    lp = c.eng.synth_loop(c, name, one)
    return lp if okk[0] else None

@model('std::iter::Iterator::for_each')
def it_for_each(c, it, f):
    lp = consume(c, it, 'for_each', lambda c, x: c.eng.call_value(f, [x], c))
    return NotImplemented if lp is None else UNIT

@model('std::iter::Iterator::fold')
def it_fold(c, it, init, f):
    root = T('tmp', 'acc', c.fr.id, c.fr.bb)
    c.st[root] = init
    def step(c, x):
        c.st[root] = c.eng.call_value(f, [c.st[root], x], c)
    lp = consume(c, it, 'fold', step)
    return NotImplemented if lp is None else c.st[root]

@model('std::iter::Extend::extend')
def extend(c, r, src):
    it = to_iter(c, src, c.atys[1])
    if it is None:
        return NotImplemented
    def step(c, x):
        c.wr(r, bind(c.rd(r), lambda t: L(T('vpush', t, x))))
    lp = consume(c, it, 'extend', step)
    return NotImplemented if lp is None else UNIT

@model('std::iter::Iterator::collect')
def collect(c, it):
    if not (c.dty[0] == 'adt' and c.dty[1] in SEQ):
        return NotImplemented
    root = T('tmp', 'vec', c.fr.id, c.fr.bb)
    c.st[root] = L(T('vnew'))
    def step(c, x):
        c.st[root] = bind(c.st[root], lambda t: L(T('vpush', t, x)))
    lp = consume(c, it, 'collect', step)
    return NotImplemented if lp is None else c.st[root]

def _anyall(nm, want):
    @model('std::iter::Iterator::' + nm)
    def f(c, r, fn):
        root = T('tmp', nm, c.fr.id, c.fr.bb)
        c.st[root] = FALSE if want else TRUE
        def step(c, x):
            c.st[root] = c.eng.call_value(fn, [x], c)
        lp = consume(c, c.rd(r), nm, step, lambda c: c.st[root] if want else n_not(c.st[root]))
        if lp is None:
            return NotImplemented
        c.wr(r, c.st[T('tmp', 'it', c.fr.id, c.fr.bb, nm)])
        return c.st[root]
_anyall('any', True)
_anyall('all', False)
