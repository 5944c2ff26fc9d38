"""The circles of the four kinds of site triple, as formulas over the reals.

Used by the checks of the fast and of the exact circle computations.  All
formulas are written over value numbers (class E), so that they can be compared
with the value numbers of the program; `touches` checks at interpreted points
that the specified circle is tangent to its three sites."""
from builder_roles import *
import random
from decimal import Decimal, getcontext
import randeq
from randeq import Point, rand_same, Undefined, close
getcontext().prec = 150

PT = CORE + '::geometry::Point'


class E:
    """number expression"""

    def __init__(s, n): s.n = n_num(n) if isinstance(n, (int, float)) else n
    def __add__(s, o): return E(n_add(s.n, ex(o).n))
    __radd__ = __add__
    def __sub__(s, o): return E(n_sub(s.n, ex(o).n))
    def __rsub__(s, o): return ex(o) - s
    def __mul__(s, o): return E(n_mul(s.n, ex(o).n))
    __rmul__ = __mul__
    def __truediv__(s, o): return E(n_div(s.n, ex(o).n))
    def __neg__(s): return E(n_neg(s.n))
    def sqrt(s): return E(n_sqrt(s.n))
    def zero(s): return n_cmp('eq', s.n, n_num(0), False)
    def neg(s): return n_cmp('lt', s.n, n_num(0), False)
    def abs(s): return E(ite(s.neg(), (-s).n, s.n))


def ex(x): return x if isinstance(x, E) else E(x)
def pick(c, a, b): return E(ite(c, ex(a).n, ex(b).n))
def cross(a, b, c, d): return a * d - b * c


class P2:
    def __init__(s, x, y): s.x, s.y = ex(x), ex(y)
    def __sub__(s, o): return P2(s.x - o.x, s.y - o.y)
    def cross(s, o): return s.x * o.y - s.y * o.x
    def dot(s, o): return s.x * o.x + s.y * o.y


def ppp(p, q, r):
    """circumscribed circle"""
    d1, d2, d3 = p - q, q - r, p - r
    o = d1.cross(d2)
    n1, n2 = d1.x * (p.x + q.x) + d1.y * (p.y + q.y), d2.x * (q.x + r.x) + d2.y * (q.y + r.y)
    x, y = (n1 * d2.y - n2 * d1.y) / (2 * o), (n2 * d1.x - n1 * d2.x) / (2 * o)
    rad = (d1.dot(d1) * d2.dot(d2) * d3.dot(d3)).sqrt() / (2 * o.abs())
    return x, y, x + rad


def pps(p, q, s, e, middle):
    """circle through p and q, tangent to the line s-e: the centre lies on the
    perpendicular bisector of p and q, t turned steps from its foot"""
    d, h = e - s, q - p
    th, a, b, D2 = d.dot(h), d.cross(e - p), d.cross(e - q), sq(h.cross(d))
    root = ((sq(th) + D2) * a * b).sqrt() / D2
    t = pick(D2.zero(), th / (8 * a) - a / (2 * th), (-root if middle else root) + th * (a + b) / (2 * D2))
    c = P2((p.x + q.x) * HALF + t * h.y, (p.y + q.y) * HALF - t * h.x)
    return c.x, c.y, c.x + (d.cross(c - s)).abs() / length(d)


def pss(p, s2, s3, middle):
    """circle through p, tangent to the lines of two segments; the first one is
    walked backwards.  No circle formula where both share the end point p."""
    (e1, s1), (a2, e2) = s2, s3
    u, v = e1 - s1, e2 - a2
    lu, lv = length(u), length(v)
    o = u.cross(v)
    # parallel
    mid = P2((s1.x + a2.x) * HALF, (s1.y + a2.y) * HALF)
    det = u.cross(p - s1) * u.cross(a2 - p)
    r = det.sqrt()
    tp = ((r if middle else -r) - u.dot(mid - p)) / (lu * lu)
    par = (mid.x + tp * u.x, mid.y + tp * u.y, mid.x + tp * u.x + u.cross(a2 - s1).abs() / (2 * lu))
    # crossing lines: from their intersection along the bisecting direction
    A = u.dot(v) + lu * lv
    c1, c2 = u.cross(e1), v.cross(e2)
    I = P2((v.x * c1 - u.x * c2) / o, (v.y * c1 - u.y * c2) / o)
    w = P2(u.x * lv + v.x * lu, u.y * lv + v.y * lu)
    det = 2 * A * u.cross(p - e1) * v.cross(e2 - p)
    r = det.sqrt()
    t = ((r if middle else -r) - w.dot(I - p)) / (A * A)
    cr = (I.x + t * w.x, I.y + t * w.y, I.x + t * w.x + t.abs() * o.abs())
    return tuple(pick(o.zero(), x, y) for x, y in zip(par, cr))


def sss(sites):
    """circle tangent to three directed lines, on the same side of all"""
    d = [e - s for s, e in sites]
    l = [length(x) for x in d]
    c = [s.cross(e) for s, e in sites]
    n = [(1, 2), (2, 0), (0, 1)]
    den = sum((d[i].cross(d[j]) * l[k] for k, (i, j) in enumerate(n)), ex(0))
    rad = -sum((d[i].cross(d[j]) * c[k] for k, (i, j) in enumerate(n)), ex(0))
    x = sum(((d[i].x * c[j] - d[j].x * c[i]) * l[k] for k, (i, j) in enumerate(n)), ex(0))
    y = sum(((d[i].y * c[j] - d[j].y * c[i]) * l[k] for k, (i, j) in enumerate(n)), ex(0))
    return x / den, y / den, (x + rad) / den


def sq(x): return x * x
def length(d): return (sq(d.x) + sq(d.y)).sqrt()


HALF = E(n_div(n_num(1), n_num(2)))


def touching(p, xyl, points, lines):
    """at an interpreted point: the circle goes through the points and touches the lines"""
    x, y, lx = (p.num(e.n) for e in xyl)
    r = lx - x
    ok = True
    for q in points:
        ok &= close((x - p.num(q.x.n)) ** 2 + (y - p.num(q.y.n)) ** 2, r * r)
    for s, e in lines:
        sx, sy, dx, dy = p.num(s.x.n), p.num(s.y.n), p.num((e - s).x.n), p.num((e - s).y.n)
        cr = dx * (y - sy) - dy * (x - sx)
        ok &= close(cr * cr, r * r * (dx * dx + dy * dy))
    return ok
