"""Call graph over the resolved MIR: direct calls, trait dispatch on unknown
types to every implementation in the workspace, functions and closures taken
as values."""
from facts import strip_generics


def operands(x):
    """all operand dicts of a statement's rvalue / a terminator"""
    if isinstance(x, dict):
        if x.get('k') in ('copy', 'move', 'const'):
            yield x
        for v in x.values():
            if isinstance(v, (dict, list)):
                yield from operands(v)
    elif isinstance(x, list):
        for v in x:
            if isinstance(v, (dict, list)):
                yield from operands(v)


def bodies(f):
    yield f.body
    pr = f.promoted
    if isinstance(pr, dict):
        pr = list(pr.values())
    for b in pr or []:
        yield b


def callees(facts, f):
    """(callee dict, terminator or None, block) for every function mentioned"""
    for body in bodies(f):
        for bi, b in enumerate(body['blocks']):
            t = b['term']
            tf = t['f'].get('fn') if t['k'] == 'call' else None
            for st in b['st']:
                for o in operands(st):
                    if o['k'] == 'const' and 'fn' in o:
                        yield o['fn'], None, bi
                for c in closures(st):
                    yield {'key': c, 'path': c, 'args': []}, None, bi
            if t['k'] == 'call':
                if tf is not None:
                    yield tf, t, bi
                for a in t['args']:
                    if a['k'] == 'const' and 'fn' in a:
                        yield a['fn'], None, bi


def closures(x):
    if isinstance(x, dict):
        if x.get('k') == 'agg' and x.get('agg') == 'closure':
            yield x['def']
        for v in x.values():
            if isinstance(v, (dict, list)):
                yield from closures(v)
    elif isinstance(x, list):
        for v in x:
            if isinstance(v, (dict, list)):
                yield from closures(v)


def targets(facts, c):
    """workspace functions a callee may resolve to"""
    k = c.get('rkey') or c['key']
    if k in facts.fns:
        out = [facts.fns[k]]
        if not c.get('rkey') and c.get('trait'):
            out += facts.implfn.get((c['trait'], c.get('name')), [])
        return out
    if c.get('trait') and not c.get('rkey'):
        return facts.implfn.get((c['trait'], c.get('name')), [])
    return []


def reach(facts, roots):
    """functions reachable from roots, with one predecessor each"""
    pred = {}
    wl = []
    for r in roots:
        if r.key not in pred:
            pred[r.key] = None
            wl.append(r)
    while wl:
        f = wl.pop()
        for c, t, bi in callees(facts, f):
            for g in targets(facts, c):
                if g.key not in pred:
                    pred[g.key] = f.key
                    wl.append(g)
        # constants evaluated in f
        for body in bodies(f):
            for b in body['blocks']:
                for o in operands([b['st'], b['term']]):
                    k = o.get('def')
                    if k and k in facts.fns and k not in pred:
                        pred[k] = f.key
                        wl.append(facts.fns[k])
    return pred


def chain(facts, pred, key):
    out = []
    while key is not None:
        out.append(facts.fns[key].spath)
        key = pred[key]
    return ' <- '.join(out)


def api_roots(facts):
    """functions a user of the library can call: exported ones, trait impls"""
    out = []
    for f in facts.fns.values():
        if f.kind in ('Fn', 'AssocFn') and (f.d.get('exported') or 'trait' in f.d):
            out.append(f)
    return sorted(out, key=lambda f: f.key)


def mentions(facts, f, names):
    """does a parameter type of f mention one of the types?"""
    def walk(t):
        if t[0] == 'adt' and t[1].split('::')[-1] in names:
            return True
        for x in t[1:]:
            if isinstance(x, tuple):
                if x and isinstance(x[0], tuple):
                    if any(walk(y) for y in x):
                        return True
                elif x and isinstance(x[0], str) and walk(x):
                    return True
        return False
    return any(walk(f.ty(f.body['locals'][i + 1]['ty'])) for i in range(f.body['argc']))


def std_path(p):
    """library path without the facade crate it was named through"""
    p = strip_generics(p)
    for c in ('std::', 'core::', 'alloc::'):
        if p.startswith(c):
            return p[len(c):]
        if p.startswith('<' + c):
            return p[1 + len(c):]
    return p
