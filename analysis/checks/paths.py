"""Comparison of value numbers path by path.

Two values are compared on every combination of outcomes of the decisions they
(and everything nested in them) contain; on each combination both are reduced
to terms without decisions.  Reads of a list at a position that was written are
resolved; different position terms are different positions."""
from sweep import *
import terms


class Split(Exception):
    def __init__(s, atom):
        s.atom = atom


class Path:
    def __init__(s, ctx, assume, law=None):
        s.ctx, s.assume, s.law = ctx, assume, law
        s.tc, s.nc = {}, {}

    def node(s, n):
        """the term n stands for on this path; None if it is never reached"""
        seen = []
        while n.leaf is None:
            r = s.nc.get(n.id)
            if r is not None:
                n = r
                continue
            k = n
            n = n.ch[s.outcome(n.atom)]
            s.nc[k.id] = n
        if n is BOT:
            return None
        return s.term(n.leaf)

    def outcome(s, atom):
        kinds = outcomes(atom)
        t = s.term(atom.a[0]) if isinstance(atom.a[0], terms.Term) else s.node(atom.a[0])
        idx = [L(T('sym', '#%d' % i)) for i in range(len(kinds))]
        if atom.op in ('sgn', 'fsgn'):
            n = n_sign(L(t), atom.op == 'fsgn', *idx)
        elif atom.op == 'disc':
            if t.op == 'S':
                return list(kinds).index(t.a[1])
            if t.op == 'upv':
                return list(kinds).index(t.a[1])
            n = case(T('disc', t, *atom.a[1:]), idx)
        elif atom.op == 'bv':
            if t.op == 'bool':
                return 1 if t.a[0] else 0
            n = case(T('bv', t), idx)
        else:
            raise Unsupported('decision ' + atom.op)
        if n.leaf is None:
            a = n.atom
            i = s.assume(a)
            if i is None:
                i = s.ctx.get(a)
            if i is None:
                raise Split(a)
            n = n.ch[i]
        return int(n.leaf.a[0][1:])

    def truth(s, t):
        """a boolean, decided on this path"""
        if t.op == 'bool':
            return t
        a = T('bv', t)
        i = s.assume(a)
        if i is None:
            i = s.ctx.get(a)
        if i is None:
            raise Split(a)
        return (TRUE if i else FALSE).leaf

    def term(s, t):
        r = s.tc.get(t)
        if r is None:
            r = s.term_(t)
            if s.law is not None:
                r = s.law(s, r)
            s.tc[t] = r
        return r

    def arg(s, x):
        if isinstance(x, terms.Term):
            return s.term(x)
        if isinstance(x, Node):
            r = s.node(x)
            return BOT if r is None else L(r)
        if isinstance(x, tuple):
            return tuple(s.arg(y) for y in x)
        return x

    def lf(s, n):
        if n.leaf is None:
            r = s.node(n)
            return BOT.leaf if r is None else r
        return n.leaf

    def term_(s, t):
        if not t.a or t.op in ('sym', 'mu', 'bool', 'O', 'tag'):
            return t
        if t.op == 'poly':
            out = terms.ZERO
            for mono, k in t.a[0]:
                m = terms.num(k)
                for a, e in mono:
                    m = terms.pmul(m, terms.ppow(s.term(terms._tlist[a]), e))
                out = terms.padd(out, m)
            return out
        a = tuple(s.arg(x) for x in t.a)
        nd = lambda x: x if isinstance(x, Node) else L(x)
        if t.op == 'pk':
            return unpk(T('pk', *a))
        if t.op == 'S':
            fs = tuple((k, v) for k, v in a[3])
            n = enum(a[0], a[1], fs) if a[2] else struct(a[0], fs)
            return n.leaf
        if t.op == 'f':
            return s.lf(getf(nd(a[0]), a[1]))
        if t.op == 'v':
            b = a[0]
            while b.op == 'upv':
                if b.a[2] == a[2]:
                    return s.lf(nd(b.a[3]))
                b = b.a[0]
            return s.lf(getv(L(b), a[1], a[2]))
        if t.op == 'upf':
            return s.lf(setf(nd(a[0]), a[1], nd(a[2])))
        if t.op == 'upv' and a[1] in ('Some', 'Ok', 'Err'):
            adt = OPTION if a[1] == 'Some' else RESULT
            return enum(adt, a[1], (('0', nd(a[3])),)).leaf
        if t.op == 'upv':
            return T('upv', a[0], a[1], a[2], s.lf(nd(a[3])))
        if t.op == 'idx':
            return s.lf(MODEL.vidx(a[0], a[1]))
        if t.op == 'vupd':
            return s.lf(MODEL.vset(a[0], a[1], nd(a[2])))
        return T(t.op, *a)


def every_path(comps, assume, report, limit=20000, feasible=None, law=None, facts=()):
    """comps: [(name, value, [accepted values])]; report(name, path, got, want)
    is called once per name that differs; returns the number of paths"""
    stack, n, bad = [{}], 0, set()
    ban = getattr(assume, 'ban', {})
    while stack:
        ctx = stack.pop()
        p = Path(ctx, assume, law)
        try:
            res = []
            for name, got, want in comps:
                if name in bad:
                    continue
                ws = [p.node(w) for w in want]
                if all(w is None for w in ws):
                    continue
                g = p.node(got)
                if g is not None and any(w is not None and w is not g for w in ws):
                    kinds = {x.op == 'bool' for x in ws + [g] if x is not None}
                    if kinds == {True, False}:
                        g, ws = p.truth(g), [None if w is None else p.truth(w) for w in ws]
                res.append((name, g, ws))
        except Split as e:
            for i in range(len(outcomes(e.atom)) - (1 if e.atom.op == 'fsgn' else 0)):
                c = dict(ctx)
                c[e.atom] = i
                if i not in ban.get(e.atom, ()) and (feasible is None or feasible(c)):
                    stack.append(c)
            if len(stack) > limit:
                raise Unsupported('too many paths')
            continue
        n += 1
        if n > limit:
            raise Unsupported('too many paths')
        for name, g, ws in res:
            if g not in ws and consistent(ctx, facts):
                bad.add(name)
                report(name, ctx, g, ws[0])
    return n


def consistent(ctx, facts):
    """whether the comparisons of a path can all come out this way; facts:
    [(term, relation to 0)]"""
    import linear
    sy = linear.Sys()
    for t, rel in facts:
        sy = sy.add(linear.lin(t), rel)
    for a, i in ctx.items():
        if a.op in ('sgn', 'fsgn') and isinstance(a.a[0], terms.Term):
            sy = linear.sign_constraint(sy, a, i)
            if sy is None:
                return False
    return True


def foreign(t):
    """calls the model does not know"""
    return sorted({x.a[0] for x in subterms(t).values() if x.op in ('call', 'out') and 'circle_formation' not in x.a[0]})


def path_text(ctx, limit=1500):
    return '; '.join('%s = %s' % (show(a), outcomes(a)[i]) for a, i in ctx.items())[:limit]


def domain(have, lack=()):
    """assume function: the given conditions hold, those in lack do not"""
    known, ban = {}, {}
    for c in have:
        force(c, TRUE, known, ban)
    for c in lack:
        force(c, FALSE, known, ban)

    def assume(a): return known.get(a)
    assume.ban = ban
    return assume


def force(c, want, known, ban):
    """c is one decision with boolean leaves; record the outcome that gives want,
    or, if there are several, those that do not"""
    c = simplify_dc(c)
    if c.leaf is not None and c.leaf.op != 'bool':
        known[T('bv', c.leaf)] = 1 if want is TRUE else 0
        return
    if c.leaf is not None:
        if c is not want:
            raise Unsupported('contradictory domain %s' % shown(c, 300))
        return
    ways = [i for i, x in enumerate(c.ch) if x is want]
    if len(ways) == 1:
        known[c.atom] = ways[0]
        return
    if ways and all(x is TRUE or x is FALSE for x in c.ch):
        ban.setdefault(c.atom, set()).update(i for i, x in enumerate(c.ch) if x is not want)
        return
    raise Unsupported('domain condition ' + shown(c, 200))


def role_of(chk, adt, of=None):
    """the field of the builder that holds a value of this type"""
    a = chk.facts.adts[of or BUILDER]
    out = [x['name'] for x in a['variants'][0]['fields'] if chk.facts.ty(a['crate'], x['ty'])[:2] == ('adt', adt)]
    if len(out) != 1:
        raise Private('field of type %s' % adt)
    return out[0]


def agree(chk, f, key, what, got, want, assume, law, e=None, facts=()):
    """obligation: got is one of the accepted values on every path"""
    chk.count('decided')
    diff = []

    def report(name, ctx, g, w):
        diff.append((ctx, g, w))
    n = every_path([(key, got, want)], assume, report, law=law, facts=facts)
    if not n:
        return chk.undecided(key, what + ': no path')
    if not diff:
        return chk.ob(key, True, '%s (%d paths)' % (what, n))
    ctx, g, w = diff[0]
    x = foreign(g) if g is not None else ['nothing']
    if x:
        return chk.undecided(key, '%s uses %s' % (what, ', '.join(x)[:200]))
    chk.ob(key, False, '%s: %s gives %s, required %s; on the path %s' % (what, chk.loc(f), show(g)[:600], show(w)[:600], path_text(ctx)))


def substitute(n, sub, read=None):
    """the value with terms (keys of sub) replaced by values; read gives what a
    reference refers to"""
    nc, tc = {}, {}

    def node(x):
        r = nc.get(x.id)
        if r is None:
            if x.leaf is not None:
                r = term(x.leaf)
            else:
                a = x.atom
                ch = [node(c) for c in x.ch]
                b = a.a[0] if isinstance(a.a[0], Node) else L(a.a[0])
                b = purify(node(b))
                if a.op in ('sgn', 'fsgn'):
                    r = n_sign(b, a.op == 'fsgn', *ch)
                elif a.op == 'bv':
                    r = bind(b, lambda t: (ch[1] if t.a[0] else ch[0]) if t.op == 'bool' else case(T('bv', t), ch))
                elif a.op == 'disc':
                    kinds = outcomes(a)
                    r = bind(b, lambda t: ch[list(kinds).index(t.a[1])] if t.op == 'S' else case(T('disc', t, *a.a[1:]), ch))
                else:
                    raise Unsupported('decision ' + a.op)
            nc[x.id] = r
        return r

    def term(t):
        r = tc.get(t)
        if r is None:
            r = tc[t] = term_(t)
        return r

    def arg(x):
        return node(x) if isinstance(x, Node) else term(x)

    def term_(t):
        if t in sub:
            return sub[t]
        if t.op == 'O' or not t.a or t.op in ('sym', 'mu', 'bool'):
            return L(t)
        if t.op == 'poly':
            out = n_num(0)
            for mono, k in t.a[0]:
                m = L(terms.num(k))
                for a, ex in mono:
                    if ex < 0 or ex > 4:
                        raise Unsupported('power')
                    for _ in range(ex):
                        m = n_mul(m, term(terms._tlist[a]))
                out = n_add(out, m)
            return out
        if t.op == 'pk':
            return bind(purify(term(t.a[0])), lambda x: L(unpk(x)))
        if t.op == 'S':
            fs = tuple((k, arg(v)) for k, v in t.a[3])
            return enum(t.a[0], t.a[1], fs) if t.a[2] else struct(t.a[0], fs)
        if t.op == 'f':
            return getf(arg(t.a[0]), t.a[1])
        if t.op == 'v':
            return getv(arg(t.a[0]), t.a[1], t.a[2])
        if t.op == 'idx':
            return vidx(arg(t.a[0]), arg(t.a[1]))
        if t.op == 'upf':
            return setf(arg(t.a[0]), t.a[1], arg(t.a[2]))
        if t.op == 'vupd':
            x = arg(t.a[2])
            return bindn([arg(t.a[0]), arg(t.a[1])], lambda b, i: MODEL.vset(b, i, x))
        if t.op == 'deref' and read is not None:
            return bind(purify(arg(t.a[0])), lambda x: read(L(x)) if x.op == 'ref' else L(T('deref', x)))
        if t.op == 'ref':
            at = [k for k, q in enumerate(t.a[1]) if q[0] == 'i']

            def ref(*ix):
                q = list(t.a[1])
                for k, x in zip(at, ix):
                    q[k] = ('i', x if isinstance(q[k][1], terms.Term) else L(x))
                return L(T('ref', t.a[0], tuple(q)))
            return bindn([purify(arg(t.a[1][k][1])) for k in at], ref)
        if all(isinstance(x, (terms.Term, Node)) for x in t.a):
            return u(t.op, *[arg(x) for x in t.a])
        raise Unsupported('substitution in ' + t.op)
    return node(n)
