#!/usr/bin/python3
"""python3 check.py <property> [quick|thorough]   decide one property from the source in /repo (nothing of it is run)

exit 0: no obligation of the property is violated; exit 1 + "VIOLATION property=<id> replay=<path>": one is.
"""
import json
import os
import sys
import time

HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
sys.setrecursionlimit(20000)
REPO = os.environ.get('SA_REPO', '/repo')

from sa.repo import Repo                                             # noqa: E402
from sa.obl import Context                                           # noqa: E402
from sa.compare import EQUAL, DIFFERENT, UNKNOWN, Outcome            # noqa: E402
import rules.props as props                                          # noqa: E402
import rules.catalog as catalog                                      # noqa: E402


def known_findings(pid):
    out = []
    try:
        for ln in open(os.path.join(HERE, 'known_findings.txt')):
            ln = ln.strip()
            if ln.startswith('finding: property=%s ' % pid):
                rest = ln.split(' ', 2)[2]
                key, _, what = rest.partition(' ')
                out.append((key, what))
    except FileNotFoundError:
        pass
    return out


def decide(ctx, key):
    t = time.time()
    o = props.O[key]
    try:
        out, info = o.run(ctx)
    except RecursionError:
        out, info = Outcome(UNKNOWN, 'recursion limit'), {'functions': set()}
    except Exception as e:                      # an engine error decides nothing
        out, info = Outcome(UNKNOWN, 'analysis error %s: %s' % (type(e).__name__, e)), {'functions': set()}
    return key, out, info, time.time() - t


def run_all(ctx, keys, tier):
    if tier == 'quick' or len(keys) < 2:
        return [decide(ctx, k) for k in keys]
    return [decide(ctx, k) for k in keys]


def main():
    pid = sys.argv[1]
    if pid == '--selftest':
        r = Repo(REPO, os.path.join(HERE, 'specs'))
        print('%d modules parsed, %d obligations, %d properties' % (len(r.modules), len(props.O), len(catalog.P)))
        return 0
    tier = sys.argv[2] if len(sys.argv) > 2 else os.environ.get('VERIF_TIER', 'quick')
    t0 = time.time()
    p = catalog.P[pid]
    repo = Repo(REPO, os.path.join(HERE, 'specs'))
    ctx = Context.build(repo, props.O)
    if tier == 'thorough':
        for o in props.O.values():
            if hasattr(o, 'limit'):
                o.limit *= 4
    keys = list(dict.fromkeys(p['obs']))
    results = run_all(ctx, keys, tier)
    closure = []
    if tier == 'thorough':
        # obligations on the functions that the obligations of this property use without looking into them
        done = set(keys)
        todo = list(results)
        while todo:
            _, _, info, _ = todo.pop()
            for k in ctx.obligations_for(info.get('calls', ()), props.O):
                if k not in done:
                    done.add(k)
                    r = decide(ctx, k)
                    closure.append(r)
                    todo.append(r)
    findings = known_findings(pid)
    bad, und, known = [], [], []
    for r in results + closure:
        key, out = r[0], r[1]
        if out.verdict == DIFFERENT:
            k = [w for kk, w in findings if kk == key]
            (known if k else bad).append((key, out, k))
        elif out.verdict == UNKNOWN:
            und.append((key, out))
    for key, out, k in known:
        print('KNOWN-FINDING: property=%s %s' % (pid, k[0]))
    ev = os.path.join(HERE, 'evidence')
    os.makedirs(ev, exist_ok=True)
    for key, out in und:
        print('UNDECIDED %s: %s %s' % (key, props.O[key].name, out.why))
    replay = os.path.join(ev, pid + '.violation.txt')
    if bad:
        with open(replay, 'w') as f:
            f.write('%s: %s\n\n%s\n' % (pid, p['title'], p['statement']))
            for key, out, _ in bad:
                o = props.O[key]
                f.write('\nobligation %s (%s): %s\n' % (key, o.kind, o.name))
                if out.loc:
                    f.write('at %s:%s in %s\n' % tuple(out.loc))
                for d in out.details:
                    f.write('  %s\n' % d)
        for key, out, _ in bad:
            print('violated: %s %s at %s' % (key, props.O[key].name, out.loc))
            for d in out.details[:12]:
                print('   ' + d[:600])
        print('VIOLATION property=%s replay=%s' % (pid, replay))
    else:
        try:
            os.remove(replay)
        except FileNotFoundError:
            pass
    allr = results + closure
    functions = sorted({f for r in allr for f in r[2].get('functions', ()) if not f.startswith('spec.')})
    kinds = {}
    for r in allr:
        kinds[props.O[r[0]].kind] = kinds.get(props.O[r[0]].kind, 0) + 1
    evidence = {
        'property': pid, 'tier': tier, 'seed': int(os.environ.get('VERIF_SEED', '0') or 0), 'level': 'other',
        'coverage': {
            'explanation': 'Static analysis of the current source under %s (parsed on this run, never executed): each '
                           'obligation compares the canonical gated value graph (result and ordered effects) of a '
                           'function with that of its reference, compares a table with its reference, or applies a '
                           'custom rule to all matching constructs. DIFFERENT is a violation; undecided obligations '
                           'are listed.' % REPO,
            'obligations': len(allr), 'discharged': sum(r[1].verdict == EQUAL for r in allr),
            'violated': len(bad), 'undecided': [[k, props.O[k].name, o.why] for k, o in und],
            'known_findings': [k for k, _, _ in known],
            'rules': kinds,
            'functions_analysed': functions,
            'places_examined': sum(r[2].get('places', 0) for r in allr),
            'source_files': sorted(m.relpath for m in repo.modules.values() if not m.name.startswith('spec.')),
            'samples': [{'obligation': r[0], 'what': props.O[r[0]].name, 'rule': props.O[r[0]].kind,
                         'verdict': r[1].verdict, 'at': list(r[1].loc) if r[1].loc else None,
                         'seconds': round(r[3], 3)} for r in allr],
            'exhaustive': not und,
        },
        'assumptions': ['the reference functions in /verif/specs state the property',
                        'values are compared over the reals (floating point rounding and reassociation are ignored)',
                        'attributes hold what the code of the repository puts there; no outside code rebinds them',
                        'library functions (mesa, sortedcontainers, statistics, numpy) behave as documented'],
        'wall_s': round(time.time() - t0, 3), 'violations': len(bad),
    }
    with open(os.path.join(ev, pid + '.json'), 'w') as f:
        json.dump(evidence, f, indent=1)
    print('%s %s: %d obligations, %d discharged, %d violated, %d undecided (%.1f s)' % (
        pid, tier, len(allr), sum(r[1].verdict == EQUAL for r in allr), len(bad), len(und), time.time() - t0))
    return 1 if bad else 0


if __name__ == '__main__':
    sys.exit(main())
