"""An error makes the caller fail: none is dropped, replaced or made a panic.

Typestate over the type-checked bodies: every value of type Result whose error
is the library's, the beach-line container's or an I/O error is followed from
where it appears.  Before a branch on its outcome nothing but moving it,
mapping it or returning it may happen to it; after the error branch every path
that returns must return an error."""
from rules import *
from builder_roles import BUILDER
import graph

RULE = 'on every path after a failure the function returns Err, or the Result itself is returned'
RESULT, OPTION = 'core::result::Result', 'core::option::Option'
ERRS = ('BvError', 'MapError', 'LinkedListError', 'Error')
KEEP = {'map', 'map_err', 'inspect', 'inspect_err', 'and_then', 'cloned', 'copied', 'and', 'clone'}
GIVE = {'unwrap_or', 'unwrap_or_default', 'unwrap_or_else', 'or', 'or_else', 'map_or', 'map_or_else', 'is_ok_and', 'is_err_and', 'iter', 'into_iter', 'into_ok'}
PANIC = {'unwrap', 'expect', 'unwrap_unchecked'}


def is_err(t):
    """an error type in scope"""
    return t[0] == 'adt' and (t[1].startswith((CORE + '::', 'cpp_map::')) or t[1] in ('std::io::error::Error', 'std::io::Error', 'alloc::io::error::Error', 'core::io::error::Error') or t[1].endswith('::io::error::Error'))


def is_res(t):
    return t[0] == 'adt' and t[1] == RESULT and len(t[2]) > 1 and t[2][0] not in (('never',), ('prim', '!'), ('prim', 'never')) and is_err(t[2][1])


class Flow:
    """follows one value through one body; the kinds of places are
    res (the Result), ref (a reference to it), cf (after `?` looked at it), opt
    (its ok() or err() with the variant that means failure), dis (a
    discriminant and the values that mean failure), bool, errres (a Result
    that is certainly an error)"""

    def __init__(s, F, f, start, init):
        s.F, s.f, s.bad, s.open = F, f, [], []
        s.blocks = f.body['blocks']
        s.seen = set()
        s.todo = [(start, 0, frozenset(init.items()), False, None)]
        s.steps = 0

    def run(s):
        while s.todo:
            x = s.todo.pop()
            if x in s.seen:
                continue
            s.seen.add(x)
            if len(s.seen) > 20000:
                s.open.append('too many states')
                return
            s.block(*x)

    def block(s, b, i, tr, failed, ret):
        bb = s.blocks[b]
        if bb['cleanup']:
            return
        tr = dict(tr)
        for st in bb['st'][i:]:
            if st['k'] != 'assign':
                continue
            d, r = st['p'], st['r']
            kind = s.value(tr, r)
            if len(d) == 1:
                if d[0] == 0:
                    ret = s.returned(kind, r)
                    if ret == 'same':
                        return
                if kind is None:
                    tr.pop(d[0], None)
                else:
                    tr[d[0]] = kind
            elif kind is not None and kind[0] in ('res', 'cf', 'opt'):
                s.open.append('the value is stored at %s' % st.get('sp'))
                return
        s.term(b, bb['term'], tr, failed, ret)

    def returned(s, kind, r):
        if kind is not None and kind[0] == 'res':
            return 'same'
        if kind is not None and kind[0] == 'errres':
            return 'err'
        if kind is not None and kind[0] == 'opt':
            return 'lost'
        return 'other'

    def operand(s, tr, a):
        if a.get('k') not in ('copy', 'move'):
            return None
        p = a['p']
        k = tr.get(p[0])
        if k is None or len(p) == 1:
            return k
        return None

    def value(s, tr, r):
        k = r['k']
        if k in ('use', 'cast'):
            return s.operand(tr, r['a']) if 'a' in r else None
        if k == 'ref':
            p = r['p']
            t = tr.get(p[0])
            if t is not None and (len(p) == 1 and t[0] in ('res', 'opt') or len(p) == 2 and p[1][0] == '*' and t[0] == 'ref'):
                return ('ref', t) if t[0] != 'ref' else t
        if k == 'discr':
            p = r['p']
            t = tr.get(p[0])
            if t is not None and t[0] == 'ref' and len(p) == 2 and p[1][0] == '*':
                t = t[1]
            elif len(p) != 1:
                t = None
            if t is not None:
                if t[0] in ('res', 'cf'):
                    return ('dis', ('1',))
                if t[0] == 'opt':
                    return ('dis', (t[1],))
        if k == 'agg' and r.get('agg') == 'adt' and r.get('def') == RESULT and r.get('variant') == 'Err':
            return ('errres',)
        if k == 'agg':
            for a in r['ops']:
                t = s.operand(tr, a)
                if t is not None and t[0] in ('res', 'cf', 'opt'):
                    return ('held', t)
        if k == 'un' and r.get('op', '').lower() == 'not':
            t = s.operand(tr, r['a'])
            if t is not None and t[0] == 'bool':
                return ('bool', not t[1])
        return None

    def term(s, b, t, tr, failed, ret):
        k = t['k']
        go = lambda n, tr=tr, failed=failed, ret=ret: s.todo.append((n, 0, frozenset(tr.items()), failed, ret))
        if k == 'return':
            if failed and ret not in ('err', 'same'):
                s.bad.append(('swallowed', 'the function goes on and returns without an error'))
            elif ret == 'lost':
                s.bad.append(('lost', 'the error is turned into None'))
            elif not failed and ret not in ('same',):
                s.bad.append(('ignored', 'nobody looks at the outcome'))
        elif k in ('goto', 'drop', 'assert'):
            if k == 'drop' and len(t['p']) == 1:
                tr = {l: v for l, v in tr.items() if l != t['p'][0]}
                s.todo.append((t['t'], 0, frozenset(tr.items()), failed, ret))
            else:
                go(t['t'])
        elif k == 'switch':
            d = t['d']
            kd = tr.get(d['p'][0]) if d.get('k') in ('copy', 'move') and len(d['p']) == 1 else None
            if kd is None or kd[0] not in ('dis', 'bool') or failed:
                for v, n in t['arms']:
                    go(n)
                if t['otherwise'] is not None:
                    go(t['otherwise'])
                return
            fails = kd[1] if kd[0] == 'dis' else (('1',) if kd[1] else ('0',))
            arms = {str(v): n for v, n in t['arms']}
            for v in ('0', '1'):
                n = arms.get(v, t['otherwise'])
                if n is not None and v in fails:
                    s.todo.append((n, 0, frozenset(tr.items()), True, None))
        elif k == 'call':
            s.call(b, t, tr, failed, ret)

    def call(s, b, t, tr, failed, ret):
        f = t['f'].get('fn', {})
        name, path = f.get('name'), f.get('path', '')
        args = [s.operand(tr, a) for a in t['args']]
        mine = [a for a in args if a is not None]
        kind = None
        d = t['d']
        if t['t'] is None:
            if failed or any(a[0] in ('res', 'opt', 'cf') for a in mine):
                s.bad.append(('panic', 'the failure ends in a panic (%s)' % path))
            return
        std = not path.startswith((CORE + '::', EXT + '::'))
        if mine and mine[0][0] in ('res', 'opt', 'ref', 'errres') and std:
            m = mine[0]
            inner = m[1] if m[0] == 'ref' else m
            if name == 'branch':
                kind = ('cf',)
            elif name == 'from_residual':
                kind = ('errres',)
            elif name in PANIC and not failed:
                s.bad.append(('panic', 'the failure ends in a panic (%s)' % name))
                return
            elif name in GIVE and not failed:
                s.bad.append(('replaced', 'the error is replaced by a value (%s)' % name))
                return
            elif name in ('is_err', 'is_none', 'is_ok', 'is_some'):
                fail = {'is_err': True, 'is_ok': False}.get(name)
                if inner[0] == 'opt':
                    fail = (inner[1] == '0') == (name == 'is_none')
                kind = ('bool', fail)
            elif name == 'ok':
                kind = ('opt', '0')
            elif name == 'err':
                kind = ('opt', '1')
            elif name in ('ok_or', 'ok_or_else') and inner[0] == 'opt' and inner[1] == '0':
                kind = ('res',)
            elif name in ('as_ref', 'as_mut', 'deref'):
                kind = m
            elif name in KEEP:
                kind = inner
            elif name in ('drop', 'forget') and inner[0] != 'errres' and m[0] != 'ref':
                if not failed:
                    s.bad.append(('ignored', 'the outcome is dropped'))
                    return
            elif name == 'into' or name == 'from':
                kind = m
            elif m[0] in ('res', 'opt') and not failed:
                s.open.append('the value goes into %s' % path)
                return
        elif name == 'from_residual':
            kind = ('errres',)
        elif any(a[0] in ('res', 'opt', 'cf') for a in mine) and not failed:
            s.open.append('the value goes into %s' % path)
            return
        if len(d) == 1:
            if d[0] == 0:
                ret = 'err' if kind == ('errres',) else 'same' if kind is not None and kind[0] == 'res' else 'lost' if kind is not None and kind[0] == 'opt' else 'other'
                if ret == 'same':
                    return
                if ret == 'other' and failed and is_res(s.f.ty(s.f.body['locals'][0]['ty'])):
                    s.open.append('the result after the failure comes from %s' % path)
                    return
            if kind is None:
                tr.pop(d[0], None)
            else:
                tr[d[0]] = kind
        s.todo.append((t['t'], 0, frozenset(tr.items()), failed, ret))


def sources(f):
    """(block, statement, local, what) of every Result in scope that appears"""
    locs = f.body['locals']
    T = lambda l: f.ty(locs[l]['ty'])
    for b, bb in enumerate(f.body['blocks']):
        if bb['cleanup']:
            continue
        for i, st in enumerate(bb['st']):
            if st['k'] == 'assign' and len(st['p']) == 1 and st['r']['k'] == 'use' and st['r']['a'].get('k') in ('copy', 'move') and len(st['r']['a']['p']) > 1 and is_res(T(st['p'][0])):
                p = st['r']['a']['p']
                yield b, i + 1, st['p'][0], 'the Result taken out of another value', st.get('sp')
        t = bb['term']
        if t['k'] == 'call' and len(t['d']) == 1 and t['t'] is not None and is_res(T(t['d'][0])):
            fn = t['f'].get('fn', {})
            if fn.get('name') in ('from_residual',):
                continue
            if fn.get('name') in KEEP | {'ok_or', 'ok_or_else'} and any(a.get('k') in ('copy', 'move') and len(a['p']) == 1 and is_res(T(a['p'][0])) for a in t['args']):
                continue
            yield b, None, t['d'][0], fn.get('path', 'a call'), t.get('sp')


def scope(F):
    for f in F.fns.values():
        if f.body is None or f.d.get("krate", f.key.split("::")[0]) not in (CORE, EXT) or 'serde' in f.spath or 'Serialize' in f.spath or 'Deserialize' in f.spath:
            continue
        yield f


def run(chk):
    F = chk.facts
    n = {}
    for f in sorted(scope(F), key=lambda f: f.key):
        used = False
        for b, i, l, what, sp in sources(f):
            used = True
            short = what.split('::')[-1] if '::' in what else what
            c = n[(f.spath, short)] = n.get((f.spath, short), 0) + 1
            key = '%s:%s:%d' % (f.spath, short, c)
            if i is None:
                t = f.body['blocks'][b]['term']
                if l == 0:
                    chk.ob(key, True, 'the outcome of %s is returned' % what)
                    chk.count('fallible operations')
                    continue
                fl = Flow(F, f, t['t'], {l: ('res',)})
            else:
                fl = Flow(F, f, b, {l: ('res',)})
                fl.todo = [(b, i, frozenset({l: ('res',)}.items()), False, None)]
            fl.run()
            chk.count('fallible operations')
            if fl.bad:
                chk.ob(key, False, '%s: the outcome of %s (%s): %s' % (chk.loc(f), what, sp, '; '.join(sorted({x[1] for x in fl.bad}))))
            elif fl.open:
                chk.undecided(key, '%s: the outcome of %s: %s' % (chk.loc(f), what, fl.open[0]))
            else:
                chk.ob(key, True, 'a failure of %s makes %s fail' % (what, f.spath))
        if used:
            chk.functions.add(f.spath)
        # Result::ok and the like as function values
        for bb in f.body['blocks']:
            for a in values(bb):
                fn = a.get('fn')
                if fn and fn.get('key', '').startswith('core::result') and fn.get('name') in GIVE | PANIC | {'ok', 'err'}:
                    ts = [f.tyn(x) if hasattr(f, 'tyn') else f.ty(x) for x in fn.get('args', []) if isinstance(x, int)]
                    if any(is_err(t) for t in ts):
                        chk.ob('%s:%s' % (f.spath, fn['name']), False, '%s: Result::%s is passed on: errors are dropped' % (chk.loc(f), fn['name']))
    build = [f for f in F.fns.values() if f.spath == BUILDER + '::build']
    if len(build) != 1:
        raise Missing('Builder::build')
    reach = graph.reach(F, build)
    for k in sorted(reach):
        f = F.fns[k]
        if f.body is not None and any(True for _ in sources(f)):
            chk.count('functions of build that can fail')
            t = f.ty(f.body['locals'][0]['ty'])
            chk.ob('%s:fails' % f.spath, t[0] == 'adt' and t[1] == RESULT, '%s: it performs operations that can fail and must be able to report that' % chk.loc(f))
    chk.floor('fallible operations', 60)


def values(bb):
    def ops(r):
        for k in ('a', 'b'):
            if isinstance(r.get(k), dict):
                yield r[k]
        for a in r.get('ops', []):
            yield a
    for st in bb['st']:
        if st['k'] == 'assign':
            yield from ops(st['r'])
    t = bb['term']
    if t['k'] == 'call':
        yield from t['args']
