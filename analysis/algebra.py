"""The number types of the program read as the real numbers they stand for.

A value of RobustFpt, RobustDif, ExtendedInt or ExtendedExponentFpt is one
number term; their operations are the real operations (that each type really
implements them is decided by its own check).  An operation that is not in the
tables makes the summary unsupported rather than wrong."""
from rules import *

FPT = EXT + '::robust_fpt::RobustFpt'
DIF = EXT + '::robust_fpt::RobustDif'
XINT = EXT + '::extended_int::ExtendedInt'
XFPT = EXT + '::extended_exp_fpt::ExtendedExponentFpt'
UNIT = struct('tuple0', [])


def ulp_of(x): return op('ulp', x)


def negsum(x): return op('negsum', x)


def tests(x):
    z = n_num(0)
    return {'is_pos': n_cmp('gt', x, z, True), 'is_neg': n_cmp('lt', x, z, True), 'is_zero': n_cmp('eq', x, z, True)}


BIN = {'add': n_add, 'sub': n_sub, 'mul': n_mul, 'div': n_div}


def is_pair(f, i):
    t = f.ty(f.body['locals'][i + 1]['ty'])
    return t[0] == 'tuple'


def handler(f, adt):
    name = f.spath.split('::')[-1]
    tys = [f.ty(l['ty']) for l in f.body['locals'][:f.body['argc'] + 1]]
    refs = [t[0] == 'ref' for t in tys[1:]]

    def h(c, *args):
        if name in ('fmt', 'hash', 'partial_cmp', 'cmp'):
            return NotImplemented
        v = [c.rd(a) if r else a for a, r in zip(args, refs)]
        base = name[:-7] if name.endswith('_assign') else name
        if base in BIN:
            r = BIN[base](*v)
        elif name in ('clone', 'fpv', 'd', 'dif'):
            r = v[0]
        elif name in ('default', 'zero'):
            r = n_num(0)
        elif name == 'one':
            r = n_num(1)
        elif name == 'from':
            t = tys[1]
            if t[0] == 'tuple':
                r = n_sub(getf(v[0], '0'), getf(v[0], '1'))
            else:
                r = v[0]
        elif name == 'new':
            if adt == DIF:
                r = n_sub(*v)
            elif adt == FPT:
                r = v[0]
            else:
                raise Unsupported(f.spath)
        elif name == 'neg':
            r = n_neg(v[0])
        elif name == 'swap':
            c.wr(args[0], n_neg(v[0]))
            return UNIT
        elif name == 'assign_from':
            c.wr(args[0], v[1])
            return UNIT
        elif name == 'sqrt':
            r = n_sqrt(v[0])
        elif name in ('is_pos', 'is_neg', 'is_zero'):
            return tests(v[0])[name]
        elif name in ('ulp', 're'):
            return ulp_of(v[0])
        elif name == 'positive':
            return n_add(v[0], negsum(v[0]))
        elif name == 'negative':
            return negsum(v[0])
        elif name == 'eq':
            return n_cmp('eq', v[0], v[1], True)
        else:
            raise Unsupported('operation %s of a number type' % f.spath)
        if name.endswith('_assign'):
            c.wr(args[0], r)
            return UNIT
        return r
    return h


def overrides(chk, *adts):
    """transfer functions of the methods of the given number types"""
    out = {}
    for f in chk.facts.fns.values():
        if f.kind not in ('Fn', 'AssocFn') or 'impl_self' not in f.d:
            continue
        t = f.ty(f.d['impl_self'])
        while t[0] == 'ref':
            t = t[2]
        if t[0] == 'adt' and t[1] in adts:
            out[f.key] = handler(f, t[1])
        elif t == ('prim', 'f64') and f.spath.endswith('::from'):
            a = f.ty(f.body['locals'][1]['ty'])
            while a[0] == 'ref':
                a = a[2]
            if a[0] == 'adt' and a[1] in adts:
                out[f.key] = handler(f, a[1])
    return out


def watch_sums(chk, ov, adt, sums):
    """record every addition and subtraction of the given type in sums:
    (path condition, add or sub, operands, function)"""
    def wrap(key, h, nm):
        fn = chk.facts.fns[key]
        refs = [fn.ty(l['ty'])[0] == 'ref' for l in fn.body['locals'][1:fn.body['argc'] + 1]]

        def g(c, *a):
            v = [c.rd(x) if r else x for x, r in zip(a, refs)]
            sums.append((c.base, nm, v, c.fr.fn.spath))
            return h(c, *a)
        return g
    for key in list(ov):
        fn = chk.facts.fns.get(key)
        if fn is None:
            continue
        nm = fn.spath.split('::')[-1].replace('_assign', '')
        t = fn.ty(fn.d['impl_self'])
        while t[0] == 'ref':
            t = t[2]
        if nm in ('add', 'sub') and t[0] == 'adt' and t[1] == adt:
            ov[key] = wrap(key, ov[key], nm)


def cancels(p, sums, eps):
    """a recorded sum that cancels at the point: (function, add or sub)"""
    from randeq import Undefined
    for guard, nm, v, where in sums:
        try:
            if p.node(guard).leaf is not TRUE.leaf:
                continue
            x, y = (p.num(z) for z in v)
        except Undefined:
            continue
        if abs(x) > eps and abs(y) > eps and (x * y < 0) == (nm == 'add'):
            return where, nm
    return None
