"""Sums of square roots are evaluated exactly and without cancellation.

Each evaluator is summarised with the big integers and the extended floats read
as reals; its value is compared with the defined sum at random points (random
interpretation), and every addition and subtraction of extended floats it makes
is checked never to cancel there."""
from circlespec import *
import algebra
import importlib
c29 = importlib.import_module('c29')
from c29 import private

RULE = 'value number of the evaluator == sum of roots; no extended-float addition of opposite or subtraction of equal signs is reachable'
M = 'robust_sqrt_expr::'
N = 400


class Vals(Point):
    def __init__(s, a, b, seed):
        super().__init__({}, seed, flags=lambda t: 1)
        s.ab = {'a': a, 'b': b}

    def _term(s, t):
        if t.op == 'idx' and t.a[0].op == 'sym' and t.a[0].a[0] in s.ab:
            i = t.a[1]
            i = i if isinstance(i, terms.Term) else i.leaf
            c = terms.const_of(i)
            if c is None:
                raise Unsupported('element')
            v = s.ab[t.a[0].a[0]]
            if c >= len(v):
                raise Undefined('element')
            return Decimal(v[int(c)])
        if t.op == 'len':
            return Decimal(len(s.ab['a']))
        return super()._term(t)


def root(x): return Decimal(x).sqrt() if x > 0 else Decimal(0)


def plain(k):
    return lambda a, b: sum((a[i] * root(b[i]) for i in range(k)), Decimal(0))


def pss4(a, b): return a[3] + a[0] * root(b[0]) + a[1] * root(b[1]) + a[2] * root(b[3] * (root(b[0] * b[1]) + b[2]))


def some_number(rnd, big):
    return Decimal(rnd.choice((0, rnd.randint(-3, 3), rnd.randint(-big, big), rnd.randint(-big, big))))


def draw(rnd, kind, k):
    big = rnd.choice((2, 5, 100, 10 ** 9))
    a = [some_number(rnd, big) for _ in range(k)]
    b = [abs(some_number(rnd, big)) for _ in range(k)]
    if kind == 'pss3':
        b[2], b[3] = Decimal(1), b[0] * b[1]
    if kind == 'pss4':
        b[2] = some_number(rnd, big)
        if root(b[0] * b[1]) + b[2] < 0:
            b[2] = -b[2]
        a[3] = rnd.choice((Decimal(0), a[3]))
    return a, b


def run(chk):
    terms.LET = 12
    for name, kind, k, want in (('eval1', 'sum', 1, plain(1)), ('eval2', 'sum', 2, plain(2)), ('eval3', 'sum', 3, plain(3)), ('eval4', 'sum', 4, plain(4)),
                                ('sqrt_expr_evaluator_pss3', 'pss3', 4, plain(4)), ('sqrt_expr_evaluator_pss4', 'pss4', 4, pss4)):
        chk.part(name, one, chk, name, kind, k, want)


def one(chk, name, kind, k, want):
    f = private(chk, M + name)
    ov = algebra.overrides(chk, algebra.XINT, algebra.XFPT)
    sums = []
    algebra.watch_sums(chk, ov, algebra.XFPT, sums)
    r, st, e = chk.summ(f, [None, None], ['a', 'b'], overrides=ov, inrange=True, unroll=8)
    r = e.read_ref(st, r) if f.ty(f.body['locals'][0]['ty'])[0] == 'ref' else r
    rnd = random.Random(name)
    bad, cancel = None, None
    unknown = [terms.show(t)[:80] for t in subterms(r).values() if t.op in ('call', 'out', 'mu', 'cont')]
    signs = set()
    for i in range(N):
        a, b = draw(rnd, kind, k)
        p = Vals(a, b, i)
        w = want(a, b)
        signs.add(tuple((x > 0) - (x < 0) for x in a))
        try:
            ok = close(p.num(r), w)
        except Undefined:
            ok = False
        if not ok:
            bad = bad or (a, b)
        c = algebra.cancels(p, sums, randeq.EPS)
        if c:
            cancel = cancel or c + (a, b)
    chk.count('interpreted points', N)
    chk.count('sign patterns', len(signs))
    if (bad or cancel) and unknown:
        return chk.undecided(name, 'unknown operations: %s' % unknown[:2])
    n = lambda z: [str(x) for x in z]
    chk.ob(name + ':value', not bad, '%s computes %s%s' % (chk.loc(f), name, '' if not bad else ' wrongly for a=%s b=%s' % (n(bad[0]), n(bad[1]))))
    chk.ob(name + ':cancellation', not cancel, '%s never cancels%s' % (chk.loc(f), '' if not cancel else ': %s in %s for a=%s b=%s' % (cancel[1], cancel[0], n(cancel[2]), n(cancel[3]))))
