"""run.py PROPERTY FACTSDIR: decide one property and report."""
import sys, os, json, time, importlib, traceback, signal, resource
HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
sys.path.insert(0, os.path.join(HERE, 'checks'))
VERIF = os.path.dirname(HERE)


def known():
    p = os.path.join(VERIF, 'known_findings.jsonl')
    out = {}
    if os.path.exists(p):
        for line in open(p):
            line = line.strip()
            if not line or line.startswith('#'):
                continue
            d = json.loads(line)
            if d.get('status') == 'known':
                out[(d['property'], d['key'])] = d['what']
    return out


SECONDS, BYTES = 600, 20 << 30


def limits(rules):
    """what takes too long or too much memory to analyse stays undecided"""
    def late(sig, frame):
        signal.setitimer(signal.ITIMER_REAL, 30)
        raise rules.OutOfTime()
    signal.signal(signal.SIGALRM, late)
    signal.setitimer(signal.ITIMER_REAL, float(os.environ.get('VP_SECONDS', SECONDS)))
    resource.setrlimit(resource.RLIMIT_AS, (BYTES, BYTES))


def main():
    prop, factsdir = sys.argv[1], sys.argv[2]
    repo = os.environ.get('VP_REPO', '/repo')
    t0 = time.time()
    import rules
    F = rules.Facts(factsdir)
    chk = rules.Check(prop, F, repo)
    mod = importlib.import_module(prop.lower())
    sys.setrecursionlimit(20000)
    limits(rules)
    chk.part('run', mod.run, chk)
    signal.setitimer(signal.ITIMER_REAL, 0)
    kn = known()
    viol = []
    for key, text in chk.viol:
        if (prop, key) in kn:
            print('KNOWN-FINDING: property=%s %s [%s]' % (prop, kn[(prop, key)], key))
        else:
            viol.append((key, text))
    os.makedirs(os.path.join(VERIF, 'evidence'), exist_ok=True)
    ev = os.path.join(VERIF, 'evidence', prop + '.json')
    rep = os.path.join(VERIF, 'evidence', prop + '.report.txt')
    with open(rep, 'w') as fh:
        for key, text in viol:
            fh.write('VIOLATION %s\n  %s\n' % (key, text))
        for key, text in chk.undec:
            fh.write('UNDECIDED %s\n  %s\n' % (key, text))
        for key, text in chk.viol:
            if (prop, key) in kn:
                fh.write('KNOWN %s\n  %s\n' % (key, text))
    cov = {
        'explanation': getattr(mod, 'EXPLANATION', mod.__doc__ or '').strip(),
        'rule': getattr(mod, 'RULE', chk.rule) or (mod.__doc__ or '').strip().split('\n')[0],
        'obligations': chk.obligations,
        'discharged': chk.discharged,
        'undecided': len(chk.undec),
        'functions_analysed': len(chk.functions),
        'functions': sorted(chk.functions)[:200],
        'instances': chk.counts,
        'samples': chk.samples[:12],
        'undecided_keys': [k for k, _ in chk.undec][:40],
        'known_findings': [k for k, _ in chk.viol if (prop, k) in kn],
    }
    json.dump({'property': prop, 'tier': os.environ.get('VERIF_TIER', 'quick'), 'seed': int(os.environ.get('VERIF_SEED', '1') or 1),
               'level': 'other', 'coverage': cov,
               'assumptions': getattr(mod, 'ASSUMPTIONS', []) + rules_assumptions(),
               'wall_s': round(time.time() - t0, 2), 'violations': len(viol)}, open(ev, 'w'), indent=1)
    for key, text in viol[:40]:
        print('%s: %s' % (key, text[:1500]))
    if chk.obligations == 0:
        print('no obligation was generated')
        return 3
    print('%s: %d obligations, %d discharged, %d undecided, %d violated (%.1fs)' % (prop, chk.obligations, chk.discharged, len(chk.undec), len(viol), time.time() - t0))
    if viol:
        print('VIOLATION property=%s replay=%s' % (prop, rep))
        return 1
    return 0


def rules_assumptions():
    return [
        'facts come from the MIR that nightly rustc builds for the library targets with the features of the pinned build (debug assertions and overflow checks on)',
        'library operations behave as their transfer functions in analysis/models.py say; calls without one are uninterpreted but deterministic',
        'floating-point operations are identified with the real operations of their formula (rounding is not modelled) unless the property says otherwise',
    ]


if __name__ == '__main__':
    sys.exit(main())
