"""Point sites go in before segment sites.

The error condition of adding points is read off its summary and evaluated on
the results of the other builder operations: false on a fresh builder,
preserved by adding points, and true on every result of adding segments
(whatever the segments are, none included)."""
from builder_roles import *

RULE = 'guard of the refusal, evaluated on the summaries of the operations that can precede it'


def run(chk):
    wv = chk.method(BUILDER, 'with_vertices')
    ws = chk.method(BUILDER, 'with_segments')
    df = chk.method(BUILDER, 'default', 'core::default::Default')
    b = sym('builder')
    it = sym('items')
    S = lambda f, v, nm: chk.summ(f, [v, sym(nm)], ['self_', nm])
    rv, st, e1 = S(wv, b, 'p')
    chk.count('operations', 3)
    for p in e1.panics:
        chk.ob('with_vertices:panic', False, 'adding points can panic when %s' % shown(p['guard'], 300))
    refuse = simplify_dc(n_not(is_ok(rv)))

    def on(v):
        """refusal condition on builder value v (points stay arbitrary)"""
        r, _, e = S(wv, v, 'p')
        return simplify_dc(n_not(is_ok(r)))
    # fresh
    rd, _, _ = chk.summ(df)
    chk.ob('fresh', on(rd) is FALSE, 'a new builder accepts points; it refuses when %s' % shown(on(rd), 300))
    # after points: whatever the previous builder refused stays as it was
    okb = getv(rv, 'Ok', '0')
    after = ite(n_not(refuse), on2(chk, on, okb), FALSE)
    chk.ob('points-then-points', simplify_dc(after) is FALSE, 'after points were accepted more points are accepted; they are refused when %s' % shown(simplify_dc(after), 300))
    # after segments
    rs, _, e2 = S(ws, b, 's')
    for p in e2.panics:
        chk.ob('with_segments:panic', False, 'adding segments can panic when %s' % shown(p['guard'], 300))
    chk.ob('segments-accepted', simplify_dc(is_ok(rs)) is TRUE, 'adding segments is accepted in every state; it fails when %s' % shown(simplify_dc(n_not(is_ok(rs))), 300))
    r2 = simplify_dc(on2(chk, on, getv(rs, 'Ok', '0')))
    chk.ob('segments-then-points', r2 is TRUE, 'once segments were added (even an empty list of them) points are refused; refused only when %s' % shown(r2, 300))
    # which error
    er = getv(rv, 'Err', '0')
    kinds = {t.a[1] for t in leafset(er) if t.op == 'S' and t.a[2]}
    chk.ob('error-kind', kinds == {'VerticesGoesFirst'}, 'the refusal is the vertices-go-first error, not %s' % sorted(kinds))
    # points then segments then segments
    r3, _, e3 = S(ws, getv(rs, 'Ok', '0'), 's2')
    chk.ob('segments-then-segments', simplify_dc(is_ok(r3)) is TRUE, 'segments may be added in several calls')


def on2(chk, on, v):
    return on(v)
