"""Robust numbers carry the plain value and a bound of its error.

Each operator of the two number types is summarised on symbolic operands.  The
value part is compared with the plain real operation, the error part with the
error rule of the operation; for differences, the represented value is the
positive minus the negative sum, and the sums of a result are compared with
their sign rule: they stay non-negative when those of the operands are."""
from diag import *

EXT = 'boostvoronoi_ext'
FPT = EXT + '::robust_fpt::RobustFpt'
DIF = EXT + '::robust_fpt::RobustDif'
RULE = 'value number of fpv()/ulp() of each operator == real operation / error rule; summands of differences proved non-negative by linear sign reasoning'
ONE = n_num(1)


def nabs(x): return n_sign(x, True, n_neg(x), x, x, BOT)
def nmax(a, b): return n_sign(n_sub(a, b), True, b, a, a, BOT)


def ops(chk, adt, trait, name, rhs=None):
    out = []
    for f in chk.traitfn(trait, name, lambda t: t[0] == 'adt' and t[1] == adt):
        args = [f.ty(f.body['locals'][i + 1]['ty']) for i in range(f.body['argc'])]
        t = args[1] if len(args) > 1 else None
        while t and t[0] == 'ref':
            t = t[2]
        k = 'f64' if t == ('prim', 'f64') else (t[1] if t and t[0] == 'adt' else None)
        if rhs is None or k == rhs:
            out.append(f)
    if len(out) != 1:
        raise Missing('%s of %s with %s' % (name, adt, rhs))
    chk.functions.add(out[0].spath)
    return out[0]


def run(chk):
    chk.opts['unroll'] = 4     # loops over a fixed number of parts
    fpv = value_acc(chk, 'fpv', FPT)
    ulp = value_acc(chk, 'ulp', FPT)
    re = value_acc(chk, 're', FPT)
    new = chk.method(FPT, 'new')
    a, ea, b, eb = [sym(x) for x in ('a', 'ea', 'b', 'eb')]

    keep = set()

    def mk(v, e):
        r, st, en = chk.summ(new, [v, e], ['v', 'e'])
        return r

    def eq(key, f, got, want, what):
        chk.equal(key, f, reals(purify(got), keep=keep), reals(purify(want), keep=keep), what)

    def num(key, f, got, v, e, what):
        chk.count('operators')
        eq(key + ':value', f, fpv(got), v, 'value of ' + what)
        if e is not None:
            eq(key + ':error', f, ulp(got), e, 'error of ' + what)

    def summ(f, args, names, mut=False):
        r, st, en = chk.summ(f, args, names)
        return post(st, names[0]) if mut else r

    A, Bn = mk(a, ea), mk(b, eb)
    num('new', new, A, a, ea, 'a new number')
    eq('re', new, re(A), ea, 're() and ulp() are the same bound')
    rnd = ONE
    samesign = n_or(n_and(n_not(n_cmp('lt', a, n_num(0), True)), n_not(n_cmp('lt', b, n_num(0), True))),
                    n_and(n_not(n_cmp('gt', a, n_num(0), True)), n_not(n_cmp('gt', b, n_num(0), True))))
    difsign = n_or(n_and(n_not(n_cmp('lt', a, n_num(0), True)), n_not(n_cmp('gt', b, n_num(0), True))),
                   n_and(n_not(n_cmp('gt', a, n_num(0), True)), n_not(n_cmp('lt', b, n_num(0), True))))
    INF = L(T('fconst', 'inf'))
    qadd = n_div(n_sub(n_mul(a, ea), n_mul(b, eb)), n_add(a, b))
    qsub = n_div(n_add(n_mul(a, ea), n_mul(b, eb)), n_sub(a, b))
    # the bound of a cancelling sum; unbounded where it is undefined
    cancel = lambda q: n_sign(q, True, n_neg(q), q, q, INF)
    adderr = n_add(ite(samesign, nmax(ea, eb), cancel(qadd)), rnd)
    suberr = n_add(ite(difsign, nmax(ea, eb), cancel(qsub)), rnd)
    prod = n_add(n_add(ea, eb), rnd)
    for q in (qadd, qsub):
        keep.update(t.a[0] for t in atoms_in(cancel(q)) if t.op == 'fsgn')
    T3 = {'Add': ('add', n_add(a, b), adderr, 'a sum'), 'Sub': ('sub', n_sub(a, b), suberr, 'a difference'),
          'Mul': ('mul', n_mul(a, b), prod, 'a product'), 'Div': ('div', n_div(a, b), prod, 'a quotient')}
    for tr, (m, v, e, what) in T3.items():
        def one(tr=tr, m=m, v=v, e=e, what=what):
            f = ops(chk, FPT, 'core::ops::arith::' + tr, m, FPT)
            num(m, f, summ(f, [A, Bn], ['x', 'y']), v, e, what)

        def asg(tr=tr, m=m, v=v, e=e, what=what):
            f = ops(chk, FPT, 'core::ops::arith::%sAssign' % tr, m + '_assign', FPT)
            num(m + '_assign', f, summ(f, [A, Bn], ['x', 'y'], True), v, e, what + ' in place')
        chk.part(m, one)
        chk.part(m + '_assign', asg)
    for tr, m, v, what in (('Mul', 'mul', n_mul(a, b), 'a product'), ('Div', 'div', n_div(a, b), 'a quotient')):
        def pl(tr=tr, m=m, v=v, what=what):
            f = ops(chk, FPT, 'core::ops::arith::' + tr, m, 'f64')
            num(m + ':f64', f, summ(f, [A, b], ['x', 'y']), v, None, what + ' with a plain number')
        chk.part(m + ':f64', pl)

    def unary():
        f = ops(chk, FPT, 'core::ops::arith::Neg', 'neg')
        num('neg', f, summ(f, [A], ['x']), n_neg(a), ea, 'a negation')
        f = chk.method(FPT, 'sqrt')
        num('sqrt', f, summ(f, [A], ['x']), n_sqrt(a), n_add(n_div(ea, n_num(2)), ONE), 'a square root')
        for n, c in (('is_pos', 'gt'), ('is_neg', 'lt'), ('is_zero', 'eq')):
            f = chk.method(FPT, n)
            eq(n, f, summ(f, [A], ['x']), n_cmp(c, a, n_num(0), True), '%s() is decided on the value' % n)
        f = [g for g in chk.traitfn('core::convert::From', 'from', lambda t: t[:2] == ('adt', FPT))]
        for g in f:
            num('from', g, summ(g, [a], ['v']), a, None, 'a plain number')
        f = chk.method(FPT, 'assign_from')
        num('assign_from', f, summ(f, [A, Bn], ['x', 'y'], True), b, eb, 'a number assigned from another')
        f = chk.method(FPT, 'default', 'core::default::Default')
        num('default', f, summ(f, [], []), n_num(0), None, 'the default number')
    chk.part('unary', unary)
    chk.part('dif', dif, chk, mk, fpv, ulp, summ, eq)
    chk.floor('operators', 20)


def dif(chk, mk, fpv, ulp, summ, eq):
    pos = value_acc(chk, 'positive', DIF)
    neg = value_acc(chk, 'negative', DIF)
    val = value_acc(chk, 'dif', DIF)
    frm = [g for g in chk.traitfn('core::convert::From', 'from', lambda t: t[:2] == ('adt', DIF))]
    by = {}
    for g in frm:
        t = g.ty(g.body['locals'][1]['ty'])
        by['f64' if t == ('prim', 'f64') else ('fpt' if t[0] == 'adt' else 'pair')] = g
    for k in ('f64', 'fpt', 'pair'):
        if k not in by:
            raise Missing('conversion of %s into a difference' % k)
    p, n, q, m = [sym(x) for x in 'pnqm']
    e = [sym('e%d' % i) for i in range(4)]
    b, eb = sym('b'), sym('eb')
    X = summ(by['pair'], [struct('tuple2', [('0', mk(p, e[0])), ('1', mk(n, e[1]))])], ['v'])
    Y = summ(by['pair'], [struct('tuple2', [('0', mk(q, e[2])), ('1', mk(m, e[3]))])], ['v'])
    # the sums of a difference are non-negative
    base = [(n_neg(x), '<=') for x in (p, n, q, m)]
    mult = [t.leaf for t in (p, n, q, m)]

    def chkd(key, f, got, v, what):
        chk.count('operators')
        P, N = fpv(pos(got)), fpv(neg(got))
        w = reals(purify(n_sub(P, N)))
        want = reals(purify(v))
        chk.equal('dif:%s:value' % key, f, w, want, 'value of ' + what, base=base)
        w2 = reals(purify(fpv(val(got))))
        chk.equal('dif:%s:dif' % key, f, w2, want, 'dif() of ' + what, base=base)
        for nm, s in (('positive', P), ('negative', N)):
            s = reals(purify(s))
            signs(chk, 'dif:%s:%s' % (key, nm), f, s, [t.leaf for t in (p, n, q, m)], 'the %s sum of %s stays non-negative' % (nm, what))
    x, y, F = n_sub(p, n), n_sub(q, m), mk(b, eb)

    def errors():
        # dif() is the robust difference of the two sums
        f = chk.method(DIF, 'dif')
        quot = n_div(n_add(n_mul(p, e[0]), n_mul(n, e[1])), n_sub(p, n))
        inf = L(T('fconst', 'inf'))
        cancel = n_sign(quot, True, n_neg(quot), quot, quot, inf)
        some0 = n_or(n_not(n_cmp('gt', p, n_num(0), True)), n_not(n_cmp('gt', n, n_num(0), True)))
        keep = {t.a[0] for t in atoms_in(cancel) if t.op == 'fsgn'}
        r = lambda w: reals(purify(w), keep=keep)
        chk.equal('dif:error', f, r(ulp(val(X))), r(n_add(ite(some0, nmax(e[0], e[1]), cancel), ONE)), 'error of dif()', base=base)
        for key, trait in (('add', 'Add'), ('sub', 'Sub')):
            for tr in (trait, trait + 'Assign'):
                g = ops(chk, DIF, 'core::ops::arith::' + tr, key + ('_assign' if tr.endswith('Assign') else ''), DIF)
                got = summ(g, [X, Y], ['x', 'y'], tr.endswith('Assign'))
                a, c = (2, 3) if trait == 'Add' else (3, 2)
                k = g.spath.rsplit('::', 1)[1]
                chk.equal('dif:%s:positive-error' % k, g, r(ulp(pos(got))), r(n_add(nmax(e[0], e[a]), ONE)), 'error of the positive sum', base=base)
                chk.equal('dif:%s:negative-error' % k, g, r(ulp(neg(got))), r(n_add(nmax(e[1], e[c]), ONE)), 'error of the negative sum', base=base)
    chk.part('dif:errors', errors)
    for key, trait, mth, rhs, arg, v, what in (
            ('add', 'Add', 'add', DIF, Y, n_add(x, y), 'a sum'),
            ('sub', 'Sub', 'sub', DIF, Y, n_sub(x, y), 'a difference'),
            ('sub-number', 'Sub', 'sub', FPT, F, n_sub(x, b), 'a difference with a number'),
            ('mul', 'Mul', 'mul', DIF, Y, n_mul(x, y), 'a product of differences'),
            ('mul-number', 'Mul', 'mul', FPT, F, n_mul(x, b), 'a product with a number'),
            ('mul-plain', 'Mul', 'mul', 'f64', b, n_mul(x, b), 'a product with a plain number')):
        chk.part('dif:' + key, lambda key=key, trait=trait, mth=mth, rhs=rhs, arg=arg, v=v, what=what: (lambda f: chkd(key, f, summ(f, [X, arg], ['x', 'y']), v, what))(ops(chk, DIF, 'core::ops::arith::' + trait, mth, rhs)))
    for key, trait, mth, rhs, arg, v, what in (
            ('add_assign', 'Add', 'add', DIF, Y, n_add(x, y), 'a sum in place'),
            ('add_assign-number', 'Add', 'add', FPT, F, n_add(x, b), 'a number added in place'),
            ('sub_assign', 'Sub', 'sub', DIF, Y, n_sub(x, y), 'a difference in place'),
            ('sub_assign-number', 'Sub', 'sub', FPT, F, n_sub(x, b), 'a number subtracted in place'),
            ('mul_assign', 'Mul', 'mul', DIF, Y, n_mul(x, y), 'a product of differences in place'),
            ('mul_assign-number', 'Mul', 'mul', FPT, F, n_mul(x, b), 'a product with a number in place'),
            ('mul_assign-plain', 'Mul', 'mul', 'f64', b, n_mul(x, b), 'a product with a plain number in place'),
            ('div_assign-number', 'Div', 'div', FPT, F, n_div(x, b), 'a quotient in place')):
        chk.part('dif:' + key, lambda key=key, trait=trait, mth=mth, rhs=rhs, arg=arg, v=v, what=what: (lambda f: chkd(key, f, summ(f, [X, arg], ['x', 'y'], True), v, what))(ops(chk, DIF, 'core::ops::arith::%sAssign' % trait, mth + '_assign', rhs)))
    chk.part('dif:neg', lambda: (lambda f: chkd('neg', f, summ(f, [X], ['x']), n_neg(x), 'a negation'))(ops(chk, DIF, 'core::ops::arith::Neg', 'neg')))
    chk.part('dif:from-f64', lambda: chkd('from-f64', by['f64'], summ(by['f64'], [b], ['v']), b, 'a plain number'))
    chk.part('dif:from-fpt', lambda: chkd('from-fpt', by['fpt'], summ(by['fpt'], [F], ['v']), b, 'a number'))
    chk.part('dif:from-pair', lambda: chkd('from-pair', by['pair'], X, x, 'a pair of sums'))
    f = chk.method(DIF, 'new')
    chk.part('dif:new', lambda: chkd('new', f, summ(f, [p, n], ['p', 'n']), x, 'a pair of plain sums'))


def signs(chk, key, f, node, nonneg, what):
    """node >= 0 whenever the given terms are: by the signs of the monomials
    under the comparison outcomes of each branch"""
    strange = unknowns(node, [])
    if strange:
        return chk.undecided(key, '%s: %s uses what the model does not resolve: %s' % (what, chk.loc(f), ', '.join(strange)[:300]))
    nn = {t.id for t in nonneg}
    bad = []

    def mono_sign(m, ctx):
        s = 1
        for k, e in m:
            if e % 2 == 0 or k in nn:
                continue
            g = ctx.get(k)
            if g is None:
                return None
            if g == 0:
                return 0
            s *= g
        return s

    def go(n, ctx):
        if n is BOT:
            return
        if n.leaf is not None:
            d = terms.poly_of(n.leaf)
            for m, c in d.items():
                s = mono_sign(m, ctx)
                if s is None or s * c < 0:
                    bad.append(n)
                    return
            return
        if n.atom.op == 'sgn':
            d = terms.poly_of(n.atom.a[0])
            if len(d) == 1 and len(next(iter(d))) == 1 and next(iter(d))[0][1] == 1:
                (m, c), = d.items()
                for i, s in enumerate((-1, 0, 1)):
                    if m[0][0] in nn and s * c < 0:
                        continue
                    go(n.ch[i], dict(ctx, **{}) | {m[0][0]: s if c > 0 else -s})
                return
        for c in n.ch:
            go(c, ctx)
    go(simplify_dc(node), {})
    chk.ob(key, not bad, '%s: %s gives %s' % (what, chk.loc(f), shown(node, 400)))
