"""Shared by the builder checks."""
from diag import *

BUILDER = CORE + '::builder::Builder'
SITE = CORE + '::site_event::SiteEvent'


def root_of(lp_state, self_sym):
    """store roots whose value is the builder (possibly with fields replaced)"""
    out = []
    for k, v in lp_state.items():
        if v.leaf is not None and strip_upf(v.leaf)[0] is self_sym:
            out.append(k)
    return out


def value_acc(chk, name, adt=SITE):
    """function Node -> Node: the accessor `name` of a type applied to a value"""
    f = chk.method(adt, name)
    cache = {}

    def g(v):
        r = cache.get(v.id)
        if r is None:
            st = {}
            res, st, e = chk.summ(f, [v], ['obj'])
            if e.panics:
                raise Unsupported('panicking accessor ' + name)
            if f.ty(f.body['locals'][0]['ty'])[0] == 'ref':
                res = e.read_ref(st, res)
            r = cache[v.id] = res
        return r
    return g


def same_loop_states(e, self_sym):
    """loops that carry the builder"""
    return [lp for lp in e.loops if root_of(lp.head, self_sym)]
