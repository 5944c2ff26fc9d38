"""Results depend on the arguments only.

Effect analysis over the call graph: from every exported function and trait
implementation, no reachable function uses an ambient source of variation:
clocks, environment, process or thread identity, randomness, iteration order
of hash tables, memory addresses turned into numbers, global or thread-local
mutable state."""
from rules import *
import graph

RULE = 'no call, cast or constant reachable from the public API is a source of nondeterminism or hidden state'
DENY = ('time::Instant', 'time::SystemTime', 'env::', 'process::', 'thread::', 'rand::', 'rand_core::', 'getrandom::', 'fastrand::', 'random::',
        'hash::RandomState', 'hash::random::', 'collections::hash_map::RandomState', 'ahash::RandomState', 'ahash::random_state', 'hash::BuildHasher',
        'sync::atomic::', 'sync::Mutex', 'sync::RwLock', 'sync::OnceLock', 'sync::LazyLock', 'sync::Once', 'cell::LazyCell', 'sync::poison::', 'sync::once', 'sync::lazy',
        'fmt::rt::Argument::new_pointer', 'net::', 'panic::Location::caller')
HASH = ('HashMap', 'HashSet', 'AHashMap', 'AHashSet')
ORDERED = ('iter', 'iter_mut', 'keys', 'values', 'values_mut', 'into_iter', 'drain', 'into_keys', 'into_values', 'extract_if')


def is_hash(t):
    while t[0] == 'ref':
        t = t[2]
    return t[0] == 'adt' and t[1].split('::')[-1] in HASH


def sources(facts, f):
    for c, t, bi in graph.callees(facts, f):
        p = graph.std_path(c['path'])
        for d in DENY:
            if p.startswith(d):
                yield p, 'call of ' + p
        last = p.split('::')
        if len(last) >= 2 and last[-2] in HASH and last[-1] in ORDERED:
            yield p, 'iteration over a hash table (%s)' % p
        elif t is not None and last[-1] == 'into_iter' and t['atys'] and is_hash(f.ty(t['atys'][0])):
            yield p, 'iteration over a hash table'
        if last[-1] in ('addr', 'expose_provenance') and 'ptr' in p:
            yield p, 'address observation ' + p
    for body in graph.bodies(f):
        for b in body['blocks']:
            for st in b['st']:
                r = st.get('r') or {}
                if r.get('k') == 'cast' and 'Expose' in r.get('kind', ''):
                    yield 'cast', 'an address is turned into a number'
                if r.get('k') == 'other' and ('tls' in r.get('dbg', '') or 'ThreadLocal' in r.get('dbg', '')):
                    yield 'tls', 'thread-local state'
            for o in graph.operands([b['st'], b['term']]):
                if o['k'] == 'const' and o.get('sstate'):
                    yield o['static'], 'mutable global state ' + o['static']


def run(chk):
    F = chk.facts
    roots = graph.api_roots(F)
    chk.counts['entry points'] = len(roots)
    pred = graph.reach(F, roots)
    n = 0
    for k in sorted(pred):
        f = F.fns[k]
        chk.functions.add(f.spath)
        bad = sorted(set(sources(F, f)))
        for p, text in bad:
            chk.ob('%s:%s' % (f.spath, p), False, '%s: %s; reachable through %s' % (chk.loc(f), text, graph.chain(F, pred, k)))
        if not bad:
            chk.ob(f.spath, True, 'no ambient input in %s' % f.spath)
        n += sum(1 for _ in graph.callees(F, f))
    chk.counts['reachable functions'] = len(pred)
    chk.counts['call sites'] = n
    chk.floor('entry points', 100)
    chk.floor('reachable functions', 350)
    chk.floor('call sites', 1500)
    # the rule recognises its positives
    chk.ob('self-test', is_hash(('ref', False, ('adt', 'ahash::AHashMap', ()))), 'hash tables are recognised')
