"""The extended-exponent float is the real number val * 2^exp.

Every operation is summarised; `frexp` and `ldexp` have their defined meaning
(v = m * 2^e with 1/2 <= |m| < 1; v * 2^e).  The value of the summary is compared
with the operation on real numbers at exact rational points (random
interpretation) that cover both signs, zero with any exponent, and every
distance of the exponents around the cut-off; the stored mantissa must stay
normalised and no intermediate power may leave the range of f64."""
import random
from fractions import Fraction
from math import isqrt
from rules import *
import terms
import importlib
import randeq
c19 = importlib.import_module('c19')
A = EXT + '::extended_exp_fpt::ExtendedExponentFpt'
RULE = 'val * 2^exp of the summary == the operation on val1 * 2^exp1, val2 * 2^exp2 to within 2^-53; 1/2 <= |val| < 1 or val == 0'
N = 1500
TOL = Fraction(1, 1 << 53)


def p2(n): return Fraction(1 << n) if n >= 0 else Fraction(1, 1 << -n)


class Lost(Exception):
    pass


def frexp(v):
    if v == 0:
        return Fraction(0), Fraction(0)
    a = abs(v)
    e = a.numerator.bit_length() - a.denominator.bit_length()
    while a >= p2(e):
        e += 1
    while a < p2(e - 1):
        e -= 1
    return v / p2(e), Fraction(e)


def froot(v):
    if v == 0:
        return v
    m, e = frexp(v)
    if e % 2:
        m, e = m * 2, e - 1
    return Fraction(isqrt((m.numerator << 400) // m.denominator), 1 << 200) * p2(int(e) // 2)


class Exact(randeq.Point):
    """a point with rational coordinates"""

    def __init__(s, env, seed=0):
        super().__init__(env, seed)

    def _term(s, t):
        o = t.op
        if o == 'poly':
            out = Fraction(0)
            for m, c in t.a[0]:
                v = Fraction(c)
                for a, e in m:
                    x = s.term(terms._tlist[a])
                    if e < 0 and x == 0:
                        raise randeq.Undefined('division by zero')
                    v *= x ** e
                out += v
            return out
        if o in ('sum', 'let'):
            return s.term(t.a[0])
        if o == 'sqrt':
            x = s.term(t.a[0])
            if x < 0:
                raise randeq.Undefined('root of a negative number')
            return froot(x)
        if o == 'div0':
            raise randeq.Undefined('division by zero')
        if o == 'bit':
            x, y = s.term(t.a[2]), s.term(t.a[3])
            if x.denominator != 1 or y.denominator != 1:
                raise Unsupported('bit operation on a fraction')
            x, y = int(x), int(y)
            f = {'BitAnd': lambda: x & y, 'BitOr': lambda: x | y, 'BitXor': lambda: x ^ y, 'Shl': lambda: x << y, 'Shr': lambda: x >> y}.get(t.a[0])
            if f is None or (t.a[0] in ('Shl', 'Shr') and not 0 <= y < 64):
                raise Unsupported('bit operation')
            return Fraction(f())
        if o in ('idiv', 'irem'):
            x, y = s.term(t.a[0]), s.term(t.a[1])
            if y == 0:
                raise randeq.Undefined('division by zero')
            q = abs(int(x)) // abs(int(y)) * (1 if (x < 0) == (y < 0) else -1)
            return Fraction(q) if o == 'idiv' else x - q * y
        if t.id in s.env:
            return s.env[t.id]
        r = s.known(t)
        if r is None:
            raise Unsupported('unknown operation ' + terms.show(t)[:80])
        return r

    def known(s, t):
        return None

    def sign(s, t):
        v = s.term(t)
        return 1 if v == 0 else (0 if v < 0 else 2)

    def node(s, n):
        while n.leaf is None:
            a = n.atom
            if a.op not in ('sgn', 'fsgn'):
                raise Unsupported('decision on ' + terms.show(a)[:80])
            n = n.ch[s.sign(a.a[0])]
        return n


def mfrexp(c, x):
    return struct('tuple0', [('0', bind(x, lambda t: L(T('frexp.m', t)))), ('1', bind(x, lambda t: L(T('frexp.e', t))))])


def mldexp(c, x, n):
    return bindn([x, n], lambda a, b: L(T('ldexp', a, b)))


OV = {'libm::frexp': mfrexp, 'libm::ldexp': mldexp}


class World(Exact):
    def known(s, t):
        if t.op == 'frexp.m':
            return frexp(s.term(t.a[0]))[0]
        if t.op == 'frexp.e':
            return frexp(s.term(t.a[0]))[1]
        if t.op == 'ldexp':
            x, n = s.term(t.a[0]), s.term(t.a[1])
            r = x * p2(int(n)) if abs(n) < 10 ** 5 else None
            if x != 0 and (r is None or abs(r) >= p2(1024) or abs(r) < p2(-1022)):
                raise Lost('a power of two outside of the range of f64')
            return r if x else x


def mant(rnd):
    k = rnd.randint(0, 9)
    if k == 0:
        return Fraction(0)
    m = rnd.choice((Fraction(1, 2), 1 - p2(-53), Fraction(1, 2) + p2(-53), Fraction(3, 4), Fraction(rnd.randint(1 << 52, (1 << 53) - 1), 1 << 53)))
    return m if rnd.randint(0, 1) else -m


def expo(rnd, near=None):
    if near is not None and rnd.randint(0, 9):
        return near + rnd.choice((1, -1)) * rnd.choice((0, 0, 1, 2, 3, 10, 30, 50, 52, 53, 54, 55, 56, 57, 60, 64, 100, 200, 1100, 3000))
    return Fraction(rnd.choice((0, 1, -1, 7, -8, rnd.randint(-60, 60), rnd.randint(-3000, 3000))))


def run(chk):
    val, exp = value_acc(chk, 'val', A), value_acc(chk, 'exp', A)
    chk.part('new', new, chk, val, exp)
    chk.part('conversions', conv, chk, val, exp)
    for k in ('add', 'sub', 'mul', 'div'):
        chk.part(k, binary, chk, val, exp, k)
        chk.part(k + '_assign', assign, chk, val, exp, k)
    for k in ('mul', 'div'):
        chk.part(k + ' f64', scalar, chk, val, exp, k)
    chk.part('neg', unary, chk, val, exp, 'neg')
    chk.part('sqrt', unary, chk, val, exp, 'sqrt')
    chk.part('tests', tests, chk, val, exp)
    chk.floor('points compared', 10000)


def both(chk, key, f, r, val, exp, envs, want, what, norm=True, e=None):
    """value and normal form of the result at every point"""
    rv, rexp = val(r), exp(r)
    bad = None
    n = 0
    for env, w in envs:
        p = World(env)
        try:
            if e is not None:
                for pn in e.panics:
                    if p.node(pn['guard']).leaf is TRUE.leaf:
                        raise Lost('a panic')
            gv, ge = p.num(rv), p.num(rexp)
            g = gv * p2(int(ge))
            err = abs(g - w) > TOL * abs(w)
            n += 1
            if err:
                bad = (env, 'gives %s' % near(g), w)
            elif norm and not (gv == 0 or Fraction(1, 2) <= abs(gv) < 1):
                bad = (env, 'leaves the mantissa %s' % near(gv), w)
        except (Lost, randeq.Undefined) as x:
            bad = (env, 'meets ' + str(x), w)
        if bad:
            break
    chk.count('points compared', n)
    chk.ob(key, bad is None, what + ('' if bad is None else ': at %s the code %s, the value is %s' % (
        ', '.join('%s=%s' % (terms.show(terms._tlist[k]), near(v)) for k, v in bad[0].items()), bad[1], near(bad[2]))),
        sample='%d points' % n)


def near(x):
    try:
        f = float(x)
        return '%.17g' % f
    except OverflowError:
        return '2^%d' % (x.numerator.bit_length() - x.denominator.bit_length())


def tid(n):
    if n.leaf is None:
        raise Unsupported('operand')
    return n.leaf.id


def operands(chk, f, val, exp, k):
    names = ['p', 'q'][:k]
    r, st, e = chk.summ(f, [None] * k, names, overrides=OV)
    obs = []
    for i, nm in enumerate(names):
        t = f.ty(f.body['locals'][i + 1]['ty'])
        if t == ('prim', 'f64'):
            obs.append((tid(sym(nm)), None))
        else:
            o = sym(nm)
            obs.append((tid(val(o)), tid(exp(o))))
    if f.ty(f.body['locals'][0]['ty'])[0] == 'ref':
        r = e.read_ref(st, r)
    return r, st, e, obs


def points(obs, calc, n=N, seed=21, ok=None):
    rnd = random.Random(seed)
    while n:
        n -= 1
        env, vals, near = {}, [], None
        for v, ex in obs:
            m = mant(rnd)
            e = expo(rnd, near)
            near = e
            env[v] = m
            if ex is None:
                e = max(min(e, Fraction(1000)), Fraction(-1000))
                env[v] = m * p2(int(e))
                vals.append(env[v])
            else:
                env[ex] = e
                vals.append(m * p2(int(e)))
        if len(vals) > 1 and rnd.randint(0, 5) == 0 and obs[1][1] is not None and obs[0][1] is not None:
            env[obs[1][0]] = rnd.choice((1, -1)) * env[obs[0][0]]
            vals[1] = env[obs[1][0]] * p2(int(env[obs[1][1]]))
        if ok is None or ok(*vals):
            yield env, calc(*vals)


CALC = {'add': lambda a, b: a + b, 'sub': lambda a, b: a - b, 'mul': lambda a, b: a * b, 'div': lambda a, b: a / b,
        'neg': lambda a: -a, 'sqrt': froot}


def okfor(k):
    return (lambda a, b: b != 0) if k == 'div' else ((lambda a: a >= 0) if k == 'sqrt' else None)


def binary(chk, val, exp, k):
    f = c19.ops(chk, A, 'core::ops::arith::' + k.capitalize(), k, A)
    r, st, e, obs = operands(chk, f, val, exp, 2)
    both(chk, k, f, r, val, exp, points(obs, CALC[k], ok=okfor(k)), k, '%s of two values is the %s of the numbers, normalised' % (k, k), e=e)


def scalar(chk, val, exp, k):
    f = c19.ops(chk, A, 'core::ops::arith::' + k.capitalize(), k, 'f64')
    r, st, e, obs = operands(chk, f, val, exp, 2)
    both(chk, k + ' f64', f, r, val, exp, points(obs, CALC[k], ok=okfor(k)), k, '%s by an f64 is the %s of the numbers, normalised' % (k, k), e=e)


def assign(chk, val, exp, k):
    f = c19.ops(chk, A, 'core::ops::arith::' + k.capitalize() + 'Assign', k + '_assign', A)
    r, st, e, obs = operands(chk, f, val, exp, 2)
    r = post(st, 'p')
    both(chk, k + '_assign', f, r, val, exp, points(obs, CALC[k], ok=okfor(k)), k, '%s in place leaves the %s of the numbers, normalised' % (k, k), e=e)


def unary(chk, val, exp, k):
    f = c19.ops(chk, A, 'core::ops::arith::Neg', 'neg') if k == 'neg' else chk.method(A, 'sqrt')
    r, st, e, obs = operands(chk, f, val, exp, 1)
    both(chk, k, f, r, val, exp, points(obs, CALC[k], ok=okfor(k)), k, '%s of a value is that of the number, normalised' % k, e=e)


def new(chk, val, exp):
    f = chk.method(A, 'new')
    r, st, e = chk.summ(f, [None, None], ['v', 'n'], overrides=OV)
    rnd = random.Random(5)

    def pts():
        for i in range(N):
            v = mant(rnd) * p2(rnd.randint(-900, 900))
            n = expo(rnd)
            yield {tid(sym('v')): v, tid(sym('n')): n}, v * p2(int(n))
    both(chk, 'new', f, r, val, exp, pts(), None, 'new(v, n) is v * 2^n, normalised', e=e)


def conv(chk, val, exp):
    f = chk.traitfn('core::convert::From', 'from', lambda t: t[0] == 'adt' and t[1] == A)
    g = [x for x in f if x.ty(x.body['locals'][1]['ty']) == ('prim', 'f64')]
    if len(g) != 1:
        raise Missing('From<f64> for ' + A)
    chk.functions.add(g[0].spath)
    r, st, e, obs = operands(chk, g[0], val, exp, 1)
    both(chk, 'from f64', g[0], r, val, exp, points(obs, lambda x: x), None, 'an f64 converts to the same number, normalised', e=e)
    d = chk.method(A, 'd')
    back = [x for x in chk.traitfn('core::convert::From', 'from', lambda t: t == ('prim', 'f64'))
            if x.ty(x.body['locals'][1]['ty'])[0] == 'adt' and x.ty(x.body['locals'][1]['ty'])[1] == A]
    if len(back) != 1:
        raise Missing('From<%s> for f64' % A)
    for key, h in (('d', d), ('into f64', back[0])):
        chk.functions.add(h.spath)
        r, st, e, obs = operands(chk, h, val, exp, 1)
        rnd = random.Random(9)
        bad = None
        n = 0
        for i in range(N):
            m, x = mant(rnd), Fraction(rnd.randint(-1000, 1000))
            p = World({obs[0][0]: m, obs[0][1]: x})
            n += 1
            try:
                got = p.num(r)
            except Lost:
                got = None
            if got != m * p2(int(x)):
                bad = (m, x)
                break
        chk.count('points compared', n)
        chk.ob(key, bad is None, 'the f64 of a value is the same number' + ('' if not bad else ': not for %s * 2^%s' % (near(bad[0]), bad[1])))


def tests(chk, val, exp):
    for nm, want in (('is_pos', lambda m: m > 0), ('is_neg', lambda m: m < 0), ('is_zero', lambda m: m == 0)):
        f = chk.method(A, nm)
        r, st, e, obs = operands(chk, f, val, exp, 1)
        bad = None
        rnd = random.Random(3)
        for i in range(N):
            m, x = mant(rnd), expo(rnd)
            if (World({obs[0][0]: m, obs[0][1]: x}).node(r) is TRUE) != want(m):
                bad = m
                break
        chk.count('points compared', N)
        chk.ob(nm, bad is None, '%s is the sign of the number' % nm)
