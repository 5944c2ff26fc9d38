"""The big integer computes exact integer arithmetic.

Every operator is summarised for operands of up to four 32-bit words each (the
loops over words are followed turn by turn), with modular arithmetic and
overflow checks explicit.  The number the resulting words stand for is compared
with the integer result where the words are interpreted at points that force
every pattern of carries, borrows, equal leading words and signs."""
import random
from fractions import Fraction
from rules import *
import terms
import importlib
import randeq
c19 = importlib.import_module('c19')
from c21 import Exact, OV, World as FWorld, Lost, near
A = EXT + '::extended_int::ExtendedInt'
W = 'core::num::wrapping::Wrapping'
RULE = 'sign * sum of word_i * 2^(32 i) of the summary == the integer result; words of the result: none leading zero; no overflow, no index out of range'
B32 = 1 << 32
PTS = 60


class World(FWorld):
    def known(s, t):
        if t.op == 'trunc':
            ty = t.a[0]
            w = INTW[ty]
            x = s.term(t.a[1])
            if x.denominator != 1:
                raise Unsupported('cast of a fraction')
            x = int(x) % (1 << w)
            return Fraction(x - (1 << w) if ty[0] == 'i' and x >= 1 << (w - 1) else x)
        return super().known(t)

    def node(s, n):
        while n.leaf is None:
            a = n.atom
            if a.op in ('sgn', 'fsgn'):
                n = n.ch[s.sign(a.a[0])]
            elif a.op == 'bv' and a.a[0].op == 'ovf':
                n = n.ch[1 if s.over(a.a[0]) else 0]
            else:
                raise Unsupported('decision on ' + terms.show(a)[:80])
        return n

    def over(s, t):
        w, ty = INTW[t.a[0]], t.a[0]
        x = s.term(t.a[1])
        lo, hi = (0, (1 << w) - 1) if ty[0] == 'u' else (-(1 << (w - 1)), (1 << (w - 1)) - 1)
        return not lo <= x <= hi

    def true(s, n):
        l = s.node(n).leaf
        if l.op == 'ovf':
            return s.over(l)
        if l.op != 'bool':
            raise Unsupported('condition ' + terms.show(l)[:60])
        return bool(l.a[0])


class Rep:
    """the two private fields: the words and the signed number of words"""

    def __init__(s, chk):
        a = chk.facts.adts.get(A)
        if not a:
            raise Missing('type ' + A)
        fs = a['variants'][0]['fields']
        f = chk.method(A, 'size')
        w = [x['name'] for x in fs if is_words(f.ty(x['ty']))]
        n = [x['name'] for x in fs if f.ty(x['ty']) == ('prim', 'i32')]
        if len(w) != 1 or len(n) != 1 or len(fs) != 2:
            raise Private('the words and the signed length of ' + A)
        s.w, s.n = w[0], n[0]
        s.wrapped = f.ty([x for x in fs if x['name'] == s.w][0]['ty'])
        s.wrapped = W in str(s.wrapped)

    def symbol(s, nm, k, sign):
        v = L(T('vnew'))
        for i in range(k):
            x = sym('%s%d' % (nm, i))
            if s.wrapped:
                x = struct(W, [('0', x)])
            v = L(T('vpush', v.leaf, x))
        return struct(A, [(s.w, v), (s.n, n_num(sign * k))])

    def number(s, p, r):
        """(integer, None) or (None, what is wrong) at the point"""
        r = p.node(r)
        if r.leaf is not None and r.leaf.op != 'S':
            raise Unsupported('result ' + terms.show(r.leaf)[:80])
        ws, t = [], p.node(getf(r, s.w)).leaf
        while t.op == 'vpush':
            x = t.a[1]
            x = p.node(getf(x, '0')) if s.wrapped else p.node(x)
            ws.append(int(p.term(x.leaf)))
            t = t.a[0] if not isinstance(t.a[0], Node) else p.node(t.a[0]).leaf
        if t.op != 'vnew':
            raise Unsupported('words ' + terms.show(t)[:80])
        ws.reverse()
        n = int(p.num(getf(r, s.n)))
        v = sum(x << (32 * i) for i, x in enumerate(ws)) * (1 if n > 0 else -1 if n < 0 else 0)
        if any(not 0 <= x < B32 for x in ws):
            return None, 'a word outside of 32 bits'
        if abs(n) != len(ws) or (ws and ws[-1] == 0):
            return v, 'words %s with length %d' % (ws[::-1], n)
        return v, None


def is_words(t):
    return t[0] == 'adt' and t[1].split('::')[-1] in ('SmallVec', 'Vec')


def words(rnd, k, like=None):
    """k words, the top one not zero"""
    out = [rnd.choice((0, 1, 2, B32 - 1, B32 - 2, B32 // 2, rnd.randint(0, B32 - 1), rnd.randint(0, B32 - 1))) for _ in range(k)]
    m = rnd.randint(0, 7)
    if m == 0:
        out = [0] * k
    if m == 1:
        out = [B32 - 1] * k
    if like and m in (2, 3, 4) and len(like) == k:
        e = rnd.randint(0, k)
        out[e:] = like[e:]
    if k and out[-1] == 0:
        out[-1] = rnd.choice((1, B32 - 1, rnd.randint(1, B32 - 1)))
    return out


def num(ws): return sum(x << (32 * i) for i, x in enumerate(ws))


def setup(env, nm, ws):
    for i, x in enumerate(ws):
        env[sym('%s%d' % (nm, i)).leaf.id] = Fraction(x)


def run(chk):
    rep = Rep(chk)
    for k, calc in (('add', lambda a, b: a + b), ('sub', lambda a, b: a - b), ('mul', lambda a, b: a * b)):
        fs = chk.traitfn('core::ops::arith::' + k.capitalize(), k, holds)
        if not fs:
            raise Missing('%s of %s' % (k, A))
        for f in fs:
            chk.functions.add(f.spath)
            chk.part(f.path, binary, chk, rep, f, k, calc)
    chk.part('neg', neg, chk, rep)
    chk.part('from', conv, chk, rep)
    for nm, f, want in (('default', chk.traitfn('core::default::Default', 'default', holds), 0),
                        ('zero', chk.traitfn('num_traits::identities::Zero', 'zero', holds), 0),
                        ('one', chk.traitfn('num_traits::identities::One', 'one', holds), 1)):
        if len(f) != 1:
            raise Missing('%s of %s' % (nm, A))
        chk.part(nm, constant, chk, rep, nm, f[0], want)
    z = chk.traitfn('num_traits::identities::Zero', 'is_zero', holds)
    for nm, f, test in (('is_pos', [chk.method(A, 'is_pos')], lambda n: n > 0), ('is_neg', [chk.method(A, 'is_neg')], lambda n: n < 0),
                        ('is_zero', [x for x in chk.facts.method(A, 'is_zero', None) if x not in z], lambda n: n == 0), ('Zero::is_zero', z, lambda n: n == 0)):
        for x in f:
            chk.part(nm, signs, chk, rep, nm, x, test)
    chk.part('p', tofloat, chk, rep, 'p')
    chk.part('d', tofloat, chk, rep, 'd')
    chk.part('size', size, chk, rep)
    chk.floor('points compared', 10000)


def holds(t):
    while t[0] == 'ref':
        t = t[2]
    return t[0] == 'adt' and t[1] == A


def argty(f, i): return f.ty(f.body['locals'][i + 1]['ty'])


def summ(chk, f, vals, names):
    r, st, e = chk.summ(f, vals, names, unroll=12, checked=True, overrides=OV)
    if f.ty(f.body['locals'][0]['ty'])[0] == 'ref':
        r = e.read_ref(st, r)
    pans = [p for p in e.panics if p['guard'] is not FALSE]
    return r, pans


def verdict(p, rep, r, pans):
    for x in pans:
        if p.true(x['guard']):
            return None, 'panics (%s)' % x['kind']
    return rep.number(p, r)


def binary(chk, rep, f, k, calc):
    a, b = argty(f, 0), argty(f, 1)
    base = b if b[0] != 'ref' else b[2]
    key = '%s(%s, %s)' % (k, show_ty(a), show_ty(b))
    bad, n = None, 0
    rnd = random.Random(20)
    small = base[0] == 'prim'
    full = not small and a[0] == 'ref'
    top = 4 if full else 2
    for na in range(top + 1):
        for nb in ([0] if small else range(top + 1)):
            for sa in (1, -1) if na else (1,):
                for sb in (1, -1) if nb else (1,):
                    x = rep.symbol('a', na, sa)
                    y = sym('q') if small else rep.symbol('b', nb, sb)
                    r, pans = summ(chk, f, [x, y], ['p', 'q'])
                    for _ in range(PTS if full or small else 10):
                        env = {}
                        wa = words(rnd, na)
                        wb = words(rnd, nb, wa)
                        setup(env, 'a', wa)
                        setup(env, 'b', wb)
                        vb = sb * num(wb)
                        if small:
                            vb = rnd.choice((0, 1, -1, 7, -(1 << 31), (1 << 31) - 1, rnd.randint(-(1 << 31), (1 << 31) - 1)))
                            env[sym('q').leaf.id] = Fraction(vb)
                        want = calc(sa * num(wa), vb)
                        got, why = verdict(World(env), rep, r, pans)
                        n += 1
                        if got != want or why:
                            bad = bad or (sa * num(wa), vb, why or got, want)
                    if bad:
                        break
    chk.count('points compared', n)
    chk.ob(key, bad is None, 'the %s of two big integers is that of the integers' % k + ('' if not bad else ': for %s and %s the code gives %s, it is %s' % bad), sample='%d points' % n)


def show_ty(t):
    return '&' + show_ty(t[2]) if t[0] == 'ref' else str(t[1]).split('::')[-1]


def sizes(rnd, top=4, each=PTS):
    for na in range(top + 1):
        for sa in (1, -1) if na else (1,):
            yield na, sa, [words(rnd, na) for _ in range(each)]


def neg(chk, rep):
    f = [x for x in chk.traitfn('core::ops::arith::Neg', 'neg', holds)]
    if not f:
        raise Missing('neg of ' + A)
    bad, n = None, 0
    rnd = random.Random(1)
    for f in f:
        for na, sa, pts in sizes(rnd):
            r, pans = summ(chk, f, [rep.symbol('a', na, sa)], ['p'])
            for ws in pts:
                env = {}
                setup(env, 'a', ws)
                got, why = verdict(World(env), rep, r, pans)
                n += 1
                if got != -sa * num(ws) or why:
                    bad = bad or (sa * num(ws), why or got)
    chk.count('points compared', n)
    chk.ob('neg', bad is None, 'negation changes the sign only' + ('' if not bad else ': of %s gives %s' % bad))


def conv(chk, rep):
    fs = chk.traitfn('core::convert::From', 'from', holds)
    if not fs:
        raise Missing('From for ' + A)
    B63 = 1 << 63
    pts = [0, 1, -1, 5, B32 - 1, 1 - B32, B32, -B32, B32 + 1, -B32 - 1, B63 - 1, 1 - B63, -B63, (1 << 31) - 1, -(1 << 31), 3 << 40, -(3 << 40)]
    rnd = random.Random(2)
    pts += [rnd.randint(-B63, B63 - 1) for _ in range(50)] + [rnd.randint(-B32, B32) for _ in range(20)]
    for f in fs:
        r, pans = summ(chk, f, [sym('x')], ['p'])
        bad = None
        for v in pts:
            got, why = verdict(World({sym('x').leaf.id: Fraction(v)}), rep, r, pans)
            if got != v or why:
                bad = bad or (v, why or got)
        chk.count('points compared', len(pts))
        chk.ob('from', bad is None, 'conversion from an integer keeps its value' + ('' if not bad else ': of %s gives %s' % bad))


def constant(chk, rep, nm, f, want):
    r, pans = summ(chk, f, [], [])
    got, why = verdict(World({}), rep, r, pans)
    chk.ob(nm, got == want and not why, '%s is %d%s' % (nm, want, '' if got == want and not why else ', the code gives %s' % (why or got)))


def signs(chk, rep, nm, f, test):
    bad, n = None, 0
    rnd = random.Random(3)
    for na, sa, pts in sizes(rnd, 4, 3):
        r, pans = summ(chk, f, [rep.symbol('a', na, sa)], ['p'])
        for ws in pts:
            env = {}
            setup(env, 'a', ws)
            p = World(env)
            n += 1
            if any(p.true(x['guard']) for x in pans):
                bad = bad or (sa * num(ws), 'panics')
            elif p.true(r) != test(sa * num(ws)):
                bad = bad or (sa * num(ws), 'is wrong')
    chk.count('points compared', n)
    chk.ob(nm, bad is None, '%s tells the sign%s' % (nm, '' if not bad else ': for %s it %s' % bad))


def tofloat(chk, rep, nm):
    f = chk.method(A, nm)
    bad, n = None, 0
    rnd = random.Random(4)
    for na, sa, pts in sizes(rnd, 8, 20):
        r, pans = summ(chk, f, [rep.symbol('a', na, sa)], ['p'])
        for ws in pts:
            env = {}
            setup(env, 'a', ws)
            p = World(env)
            v = sa * num(ws)
            n += 1
            if any(p.true(x['guard']) for x in pans):
                bad = bad or (v, 'panics')
                continue
            try:
                if nm == 'd':
                    g = p.num(r)
                else:
                    g, e = p.num(getf(r, '0')), int(p.num(getf(r, '1')))
                    if abs(g) >= 1 << 1000 or not 0 <= e < 1 << 20:
                        bad = bad or (v, 'leaves the range of f64')
                        continue
                    g = g * (1 << e)
            except Lost as x:
                bad = bad or (v, str(x))
                continue
            if abs(g - v) * (1 << 53) > abs(v):
                bad = bad or (v, 'gives ' + near(g))
    chk.count('points compared', n)
    chk.ob(nm, bad is None, '%s is the number to within the precision of f64%s' % (nm, '' if not bad else ': for %s it %s' % bad))


def size(chk, rep):
    f = chk.method(A, 'size')
    bad = None
    for na in range(6):
        for sa in (1, -1):
            r, pans = summ(chk, f, [rep.symbol('a', na, sa)], ['p'])
            env = {}
            setup(env, 'a', [1] * na)
            if World(env).num(r) != na:
                bad = bad or na
    chk.ob('size', bad is None, 'size is the number of 32-bit words')
