"""The algorithm is silent and self-contained.

Effect analysis over the call graph: apart from the text-file reader (the
public functions that take a path or a reader), nothing reachable from the
public API writes to the console, touches the file system, starts threads,
or terminates the process."""
from rules import *
import graph

RULE = 'no output, file-system, thread or process operation is reachable from the non-reader public API'
DENY = ('io::', 'fs::', 'process::', 'thread::', 'net::', 'env::', 'os::', 'log::', 'panic::set_hook', 'panic::take_hook', 'intrinsics::abort')
READER = {'Path', 'PathBuf', 'BufReader', 'File'}


def run(chk):
    F = chk.facts
    roots = []
    for f in graph.api_roots(F):
        if graph.mentions(F, f, READER):
            chk.count('reader entry points')
        else:
            roots.append(f)
    chk.counts['entry points'] = len(roots)
    pred = graph.reach(F, roots)
    n = 0
    for k in sorted(pred):
        f = F.fns[k]
        chk.functions.add(f.spath)
        bad = set()
        for c, t, bi in graph.callees(F, f):
            n += 1
            p = graph.std_path(c['path'])
            if any(p.startswith(d) for d in DENY):
                # constructing or converting an io::Error value is not output
                if p.startswith('io::Error') or p.startswith('io::error'):
                    continue
                bad.add(p)
        for p in sorted(bad):
            chk.ob('%s:%s' % (f.spath, p), False, '%s calls %s; reachable through %s' % (chk.loc(f), p, graph.chain(F, pred, k)))
        if not bad:
            chk.ob(f.spath, True, 'no output in %s' % f.spath)
    chk.counts['reachable functions'] = len(pred)
    chk.counts['call sites'] = n
    chk.floor('entry points', 100)
    chk.floor('reachable functions', 350)
    chk.floor('call sites', 1500)
    # positive example: the reader, which does print, must be recognised
    pos = [f for f in F.fns.values() if f.spath.startswith(CORE + '::file_reader') and any(graph.std_path(c['path']).startswith('io::_print') for c, t, b in graph.callees(F, f))]
    chk.count('positive examples', len(pos))
