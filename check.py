#!/usr/bin/env python3
"""Runs one property check:  check.py C02 [--thorough]   |   check.py --setup"""
import sys, os, json, time, importlib, traceback, re

HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
sys.setrecursionlimit(20000)


def known(prop):
    """known findings: {key: text}; 'fixed:' lines suppress nothing"""
    out = {}
    p = os.path.join(HERE, 'known_findings.txt')
    for line in open(p) if os.path.exists(p) else []:
        m = re.match(r'known: property=(\S+) key=(\S+) (.*)', line)
        if m and m.group(1) == prop:
            out[m.group(2)] = m.group(3).strip()
    return out


def key_of(rule, construct):
    return re.sub(r'\s+', '_', '%s@%s' % (rule, construct))


def main(argv):
    if '--setup' in argv:
        import ast
        for d in ('sa', 'checks'):
            for f in sorted(os.listdir(os.path.join(HERE, d))):
                if f.endswith('.py'):
                    ast.parse(open(os.path.join(HERE, d, f)).read())
        os.makedirs(os.path.join(HERE, 'evidence'), exist_ok=True)
        print('setup ok')
        return 0
    prop = argv[0]
    thorough = '--thorough' in argv or os.environ.get('VERIF_TIER') == 'thorough'
    t0 = time.time()
    from sa.report import Report
    from sa.interp import Undecided
    from sa.drive import Gone
    rep = Report(prop, thorough)
    mod = importlib.import_module('checks.' + prop.lower())
    ev = os.path.join(HERE, 'evidence')
    os.makedirs(ev, exist_ok=True)
    replay = os.path.join(ev, prop + '.report.txt')
    if os.path.exists(replay):
        os.remove(replay)
    try:
        mod.run(rep)
    except Gone as e:
        print('ANALYSIS-BROKEN property=%s: anchor vanished: %s' % (prop, e))
        return 2
    except Undecided as e:
        rep.unk('analysis', 'whole check', str(e))
    viol = [o for o in rep.obs if o[2] == 'violation']
    kn = known(prop)
    new = [o for o in viol if key_of(o[0], o[1]) not in kn]
    old = [o for o in viol if key_of(o[0], o[1]) in kn]
    okn = [o for o in rep.obs if o[2] == 'ok']
    unk = [o for o in rep.obs if o[2] == 'undecided']
    floor = getattr(mod, 'FLOOR', 1)
    cov = dict(explanation=mod.EXPLAIN, obligations=len(rep.obs), discharged=len(okn), undecided=len(unk), known_findings=len(old),
               rules=sorted({o[0] for o in rep.obs}), samples=[dict(rule=o[0], construct=o[1], status=o[2], detail=o[3][:300]) for o in (viol + okn)[:12]],
               undecided_list=[dict(rule=o[0], construct=o[1], why=o[3][:300]) for o in unk[:60]], **rep.stats)
    data = dict(property=prop, tier='thorough' if thorough else 'quick', seed=int(os.environ.get('VERIF_SEED', '1') or 1), level='other', coverage=cov,
                assumptions=list(getattr(mod, 'ASSUME', [])), wall_s=round(time.time() - t0, 3), violations=len(new))
    json.dump(data, open(os.path.join(ev, prop + '.json'), 'w'), indent=1, default=str)
    for o in old:
        print('KNOWN-FINDING: property=%s %s' % (prop, kn[key_of(o[0], o[1])]))
    for o in unk:
        print('UNDECIDED: %s %s: %s' % (o[0], o[1], o[3][:200]))
    print('%s: %d obligations, %d discharged, %d undecided, %d violated (%d known)' % (prop, len(rep.obs), len(okn), len(unk), len(viol), len(old)))
    if new:
        with open(replay, 'w') as f:
            for o in new:
                f.write('property=%s rule=%s\nconstruct: %s\nwhere: %s\n%s\nkey=%s\n\n' % (prop, o[0], o[1], o[4], o[3], key_of(o[0], o[1])))
        for o in new[:20]:
            print('%s: [%s] %s -- %s' % (o[4], o[0], o[1], o[3][:400]))
        print('VIOLATION property=%s replay=%s' % (prop, replay))
        return 1
    if len(okn) < floor and not unk:
        print('ANALYSIS-BROKEN property=%s: only %d obligations found (floor %d)' % (prop, len(okn), floor))
        return 2
    return 0


if __name__ == '__main__':
    sys.exit(main(sys.argv[1:]))
