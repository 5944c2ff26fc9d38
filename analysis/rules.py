"""Obligation bookkeeping and helpers shared by all checks."""
import json, os, time
from terms import *
import terms
from facts import Facts, Missing, strip_generics, subst, unify
import gvn
from gvn import *
from gvn import OPTV, RESV, ORDV, OPTION, RESULT, ORDERING
import models

CORE = 'boostvoronoi_core'
EXT = 'boostvoronoi_ext'


class OutOfTime(BaseException):
    """the time for the check is used up"""


class Private(Exception):
    """a private construct the rule locates by shape is not there"""


class Check:
    """One run of one property's check."""

    def __init__(s, prop, facts, repo):
        s.prop = prop
        s.facts = facts
        s.repo = repo
        s.obligations = 0
        s.discharged = 0
        s.viol = []          # (key, text)
        s.undec = []         # (key, text)
        s.samples = []
        s.functions = set()
        s.counts = {}
        s.notes = []
        s.rule = ''
        s.late = False       # the time for the check is used up
        models.learn_iterators(facts)
        s.opts = {'unroll': 4}      # options of every summary: loops over a fixed number of things

    # ------------------------------------------------------------ outcomes
    def count(s, name, n=1):
        s.counts[name] = s.counts.get(name, 0) + n

    def ob(s, key, okv, text, sample=None):
        """one obligation; key identifies the construct (no line numbers)"""
        s.obligations += 1
        if okv:
            s.discharged += 1
            if len(s.samples) < 12:
                s.samples.append(sample or ('%s: %s' % (key, text))[:300])
        else:
            s.viol.append((key, text))
        return okv

    def undecided(s, key, text):
        s.obligations += 1
        s.undec.append((key, text))

    def missing(s, what):
        s.ob('missing:' + what, False, 'the rule needs %s, which is not in the program any more' % what)

    def floor(s, name, n):
        """instance count confirmed by hand on the base revision"""
        got = s.counts.get(name, 0)
        if got < n and s.undec:
            return s.undecided('floor:' + name, 'found %d instances of %s of at least %d; parts of the program were not analysed' % (got, name, n))
        s.ob('floor:' + name, got >= n, 'found %d instances of %s, at least %d were confirmed by hand' % (got, name, n))

    def part(s, name, f, *a, **kw):
        """run one group of obligations; what the engine cannot analyse is
        undecided, never a verdict"""
        if s.late:
            return s.undecided(name, 'not analysed: out of time')
        try:
            return f(*a, **kw)
        except OutOfTime:
            s.late = True
            s.undecided(name, 'not analysed: out of time')
        except Missing as ex:
            s.missing(str(ex))
        except Private as ex:
            s.undecided(name, 'private construct not found: %s' % ex)
        except (Unsupported, TooBig) as ex:
            s.undecided(name, 'not analysed: %s' % ex)
        except MemoryError:
            s.undecided(name, 'not analysed: out of memory')
        except RecursionError:
            s.undecided(name, 'not analysed: recursion depth')
        except Exception as ex:
            if os.environ.get('VP_DEBUG'):
                raise
            s.undecided(name, 'not analysed: internal %s: %s' % (type(ex).__name__, ex))

    def best(s, alternatives, f):
        """run f under every assignment of roles to private constructs and keep
        the one with which most obligations hold"""
        import copy
        names = ('obligations', 'discharged', 'viol', 'undec', 'samples', 'counts')
        start = {k: copy.copy(getattr(s, k)) for k in names}
        found = None
        for a in alternatives:
            for k in names:
                setattr(s, k, copy.copy(start[k]))
            f(a)
            bad = (len(s.viol) + len(s.undec), len(s.undec))
            if found is None or bad < found[0]:
                found = bad, {k: getattr(s, k) for k in names}
            if not bad[0] - len(start['viol']) - len(start['undec']):
                break
        if found is None:
            raise Private('no assignment of roles')
        for k in names:
            setattr(s, k, found[1][k])

    # ------------------------------------------------------------ lookups
    def fn(s, path, crate=CORE):
        f = s.facts.one(path, crate)
        s.functions.add(f.spath)
        return f

    def method(s, adt, name, trait=None, crate=CORE):
        key = adt if '::' in adt and adt.startswith(('boost', 'core', 'alloc')) else crate + '::' + adt
        r = s.facts.method(key, name, trait)
        if len(r) != 1:
            raise Missing('%s::%s (%d definitions)' % (adt, name, len(r)))
        s.functions.add(r[0].spath)
        return r[0]

    def traitfn(s, trait, name, self_pred):
        out = []
        for f in s.facts.implfn.get((trait, name), []):
            t = f.ty(f.d['impl_self'])
            if self_pred(t):
                out.append(f)
        return out

    def summ(s, f, args=None, argnames=None, **kw):
        r, st, e = analyse(s.facts, f, args, argnames=argnames, **{**s.opts, **kw})
        s.functions.add(f.spath)
        for k in e.visited:
            if k in s.facts.fns:
                s.functions.add(s.facts.fns[k].spath)
        return r, st, e

    # ------------------------------------------------------------ reasoning
    def loc(s, f):
        sp = f.sp
        return '%s (%s)' % (f.spath, sp if isinstance(sp, str) else sp)

    def equal(s, key, f, got, want, what, assume=None, base=(), mult=()):
        """got and want denote the same function of the inputs"""
        if assume:
            got, want = assume(got), assume(want)
        g, w = simplify_dc(got), simplify_dc(want)
        if w is BOT:
            return s.undecided(key, what + ': the case never occurs')
        if g is w:
            return s.ob(key, True, what)
        okv = same_under_dc(got, want)
        if not okv and (base or any(a.op in ('sgn', 'fsgn') for a in atoms_in(g) | atoms_in(w))):
            import linear
            okv = linear.same_linear(purify(got), purify(want), base, mult, fast=same_under_dc)
        strange = [] if okv else unknowns(g, w)
        if strange:
            return s.undecided(key, '%s: %s uses what the model does not resolve: %s' % (what, s.loc(f), ', '.join(strange)[:300]))
        return s.ob(key, okv, '%s: %s computes %s, required %s' % (what, s.loc(f), shown(g, 1200), shown(w, 800)))


def unknowns(got, want):
    """library calls and loop results in got that the specification does not speak of"""
    def names(n):
        r = set()
        for x in (subterms(n).values() if n else ()):
            if x.op in ('call', 'out'):
                r.add(str(x.a[0]))
            elif x.op == 'mu':
                r.add('loop of ' + str(x.a[0].a[0]))
        return r
    return sorted(names(got) - names(want))


def same_under_dc(a, b):
    """equal wherever b is defined (BOT in b = unreachable)"""
    seen = {}

    def go(x, y):
        if y is BOT or x is y:
            return True
        if x is BOT:
            return False
        k = (x.id, y.id)
        if k in seen:
            return seen[k]
        seen[k] = True
        if x.leaf is not None and y.leaf is not None:
            tx, ty = x.leaf, y.leaf
            r = tx is ty or eq_leaf(tx, ty, go)
        else:
            top = x.atom if y.atom is None or (x.atom is not None and terms.atomkey(x.atom) <= terms.atomkey(y.atom)) else y.atom
            r = all(go(cof(x, top, i), cof(y, top, i)) for i in range(len(outcomes(top))))
        seen[k] = r
        return r
    return go(a, b)


def eq_leaf(x, y, go):
    if x.op == 'S' and y.op == 'S' and x.a[0] == y.a[0] and x.a[1] == y.a[1] and len(x.a[3]) == len(y.a[3]):
        return all(ka == kb and go(va, vb) for (ka, va), (kb, vb) in zip(x.a[3], y.a[3]))
    if x.op == 'poly' or y.op == 'poly':
        try:
            return is_zero_num(padd(x, y, -1))
        except TooBig:
            return False
    return False


def sym(n):
    return L(T('sym', n))


def fld(base, *path):
    for p in path:
        base = getf(base, p)
    return base


def okpart(r):
    """Result -> Option (the error text is not part of the comparison)"""
    return ite(is_ok(r), models.some_of(getv(r, 'Ok', '0')), none())


def assume_in(node, rel):
    """restrict: rel is a list of (atom, outcome-label)"""
    for atom, lab in rel:
        node = restrict(node, atom, list(outcomes(atom)).index(lab))
    return node


def assume_pred(node, pred):
    """pred(atom) -> index of the outcome to assume, or None"""
    again = True
    done = set()
    while again:
        again = False
        for at in sorted(atoms_in(node), key=lambda a: a.id):
            if at in done:
                continue
            i = pred(at)
            if i is not None:
                done.add(at)
                node = restrict(node, at, i)
                again = True
                break
            done.add(at)
    return node


def field_names(facts, adtkey):
    a = facts.adts.get(adtkey)
    if a is None:
        raise Missing('type ' + adtkey)
    return [f['name'] for f in a['variants'][0]['fields']]


def role_field(chk, f, argname='self_'):
    """name of the single field of self an accessor reads"""
    r, st, e = chk.summ(f, argnames=[argname])
    names = set()
    base = T('sym', argname)
    for t in subterms(r).values():
        if t.op == 'f' and t.a[0] is base:
            names.add(t.a[1])
        if t.op == 'ref' and t.a[0].op == 'O' and t.a[1]:
            names.add(t.a[1][0][1])
    if len(names) != 1:
        raise Missing('accessor %s reads %s' % (f.spath, sorted(names)))
    return names.pop()


def nonan(n, cache=None):
    """unordered comparisons (a NaN operand) become don't-care"""
    if cache is None:
        cache = {}
    r = cache.get(n.id)
    if r is not None:
        return r
    if n.leaf is not None:
        t = n.leaf
        r = L(T('S', t.a[0], t.a[1], t.a[2], tuple((k, nonan(v, cache)) for k, v in t.a[3]))) if t.op == 'S' else n
    else:
        ch = [nonan(c, cache) for c in n.ch]
        if n.atom.op == 'fsgn':
            r = case(n.atom, ch[:3] + [BOT])
        else:
            r = case(n.atom, ch)
    cache[n.id] = r
    return r


def reals(n, cache=None, keep=()):
    """comparisons of floats as comparisons of reals (a NaN operand is
    don't-care), so that integer and float comparisons of one quantity agree; the terms in
    keep may be NaN"""
    if cache is None:
        cache = {}
    r = cache.get(n.id)
    if r is not None:
        return r
    if n.leaf is not None:
        t = n.leaf
        r = L(T('S', t.a[0], t.a[1], t.a[2], tuple((k, reals(v, cache, keep)) for k, v in t.a[3]))) if t.op == 'S' else n
    else:
        ch = [reals(c, cache, keep) for c in n.ch]
        r = case(T('sgn', n.atom.a[0]), ch[:3]) if n.atom.op == 'fsgn' and n.atom.a[0] not in keep else case(n.atom, ch)
    cache[n.id] = r
    return r


def arr(n, k):
    """array / vector value as a struct of its first k elements"""
    from diag import ENG
    return struct('arr', [(str(i), bind(n, lambda t, i=i: ENG.vidx(t, terms.num(i)))) for i in range(k)])


def value_acc(chk, name, adt, trait=None, extra=()):
    """function Node -> Node: the accessor `name` of a type applied to a value"""
    f = chk.method(adt, name, trait)
    cache = {}

    def g(v, *more):
        k = (v.id,) + tuple(m.id for m in more)
        r = cache.get(k)
        if r is None:
            res, st, e = chk.summ(f, [v] + list(more), ['obj'] + ['arg%d' % i for i in range(len(more))])
            for p in e.panics:
                if simplify_dc(p['guard']) is not FALSE:
                    chk.ob(name + ':panic', False, '%s can panic when %s' % (name, shown(p['guard'], 200)))
            if f.ty(f.body['locals'][0]['ty'])[0] == 'ref':
                res = e.read_ref(st, res)
            r = cache[k] = res
        return r
    return g


def post(st, name):
    """value behind the reference argument `name` after the call"""
    return st[T('O', name)]


class MapLoop:
    """a vector built by one pass over a sequence (see map_loop)"""


def mu_sym(lp, root, path):
    nm = root
    if root.op == 'L':
        nm = T('lv', root.a[1]) if root.a[0] is lp.frame.id else root
    return T('mu', lp.hid, nm, tuple(e[1] for e in path))


def walk(n, path):
    for e in path:
        n = getf(n, e[1])
    return n


def map_loop(e, t):
    """t: the term of a vector after a loop.  Recognises the loop that visits
    the positions 0.. of a sequence once, in order, and appends to the vector:
    returns src (Node of the sequence), elem (Node of the visited element),
    pushed (what one iteration appends: Node of the new vector in terms of the
    old one), vec (the old vector term), first (start position), last (bound)."""
    if t.op != 'mu':
        raise Unsupported('not built by a loop: %s' % show(t)[:200])
    cands = []
    for lp in e.loops:
        if lp.hid is not t.a[0]:
            continue
        for root, path in lp.havoc:
            if mu_sym(lp, root, path) is t:
                cands.append((lp, root, path))
    if not cands:
        raise Unsupported('loop of %s' % show(t)[:200])
    lp, root, path = cands[-1]
    m = MapLoop()
    m.lp, m.vec = lp, t
    m.entry = walk(lp.entry[root], path) if root in lp.entry else None
    g = FALSE
    for gg, b in lp.backs:
        g = n_or(g, gg)
    m.guard = simplify_dc(ite(lp.guard, g, BOT))
    # the position: a loop variable that advances by one
    pos = []
    for r2, p2 in lp.havoc:
        s2 = mu_sym(lp, r2, p2)
        if s2 is t or r2 not in lp.entry:
            continue
        nx = simplify_dc(cases([(gg, walk(b[r2], p2)) for gg, b in lp.backs]))
        if nx is L(terms.padd(s2, terms.ONE)):
            pos.append((s2, simplify_dc(walk(lp.entry[r2], p2))))
    at = sorted(atoms_in(m.guard), key=lambda a: a.id)
    m.pos = None
    for s2, first in pos:
        if len(at) == 1 and at[0].op == 'sgn':
            # pos < bound
            for bound in bounds_of(at[0].a[0], s2):
                if simplify_dc(n_cmp('lt', L(s2), bound, False)) is m.guard or same_under_dc(n_cmp('lt', L(s2), bound, False), m.guard):
                    m.pos, m.first, m.bound = s2, first, bound
    m.next = simplify_dc(cases([(gg, walk(b[root], path)) for gg, b in lp.backs]))
    return m


def bounds_of(p, s2):
    """bound b with p proportional to s2 - b"""
    d = terms.poly_of(p)
    m = ((s2.id, 1),)
    if m not in d:
        return []
    c = d[m]
    return [L(terms.padd(s2, terms.pmul(p, terms.num(1 / c)), -1))]


def cases(pairs):
    """value of a gated join: pairs of (guard, value); BOT elsewhere"""
    r = BOT
    for g, v in reversed(pairs):
        r = ite(g, v, r)
    return r


def copied_in_order(chk, key, f, e, node, src, what, elem=None):
    """node is a new vector holding elem(x) for every x of src, in order"""
    ts = [t for t in leafset(simplify_dc(node)) if t.op != 'bot']
    if len(ts) == 1 and elem is None and ts[0] is src.leaf:
        return chk.ob(key, True, what)
    if len(ts) != 1 or ts[0].op != 'mu':
        if all(t.op in ('vnew', 'vpush', 'f', 'sym') for t in ts):
            return chk.ob(key, False, '%s: %s builds %s' % (what, chk.loc(f), shown(node, 300)))
        raise Unsupported('vector %s' % shown(node, 200))
    m = map_loop(e, ts[0])
    if m.pos is None:
        raise Unsupported('loop guard %s' % shown(m.guard, 300))
    from diag import ENG
    x = bindn([src, L(m.pos)], ENG.vidx)
    want = (elem or (lambda y: y))(x)
    n = bind(src, ENG.vlen)
    chk.equal(key + ':start', f, m.first, n_num(0), what + ': from the first element')
    chk.equal(key + ':empty', f, m.entry, L(T('vnew')), what + ': nothing else in the list')
    chk.equal(key + ':all', f, m.bound, n, what + ': up to the last element')
    chk.equal(key + ':each', f, ite(m.guard, pushes(m.next, m.vec), BOT), ite(m.guard, struct('appended', [('0', want)]), BOT), what + ': each element once, unchanged')


def pushes(n, vec):
    """vector value -> the elements appended to vec"""
    def g(t):
        xs = []
        while t.op == 'vpush':
            xs.append(t.a[1])
            t = t.a[0]
        if t is not vec:
            raise Unsupported('list %s' % show(t)[:200])
        return struct('appended', [(str(i), x) for i, x in enumerate(reversed(xs))])
    return bind(n, g)
