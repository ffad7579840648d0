#!/usr/bin/env python3
"""check.py <PROPERTY> [--tier quick|thorough]
exit 0: property holds on everything analysed; 1: violation; 2: no answer."""
import sys, os, json, time, importlib
sys.setrecursionlimit(20000)
HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
EVID = os.environ.get('VP_EVID') or os.path.join(HERE, 'evidence')


def main():
    pid = sys.argv[1]
    tier = 'quick'
    if '--tier' in sys.argv:
        tier = sys.argv[sys.argv.index('--tier') + 1]
    t0 = time.time()
    from vp.rule import Ctx, AnchorError
    mod = importlib.import_module('vp.rules.' + pid.lower())
    ctx = Ctx(pid)
    ctx.tier = tier
    known = []
    kf = os.path.join(HERE, 'known_findings.json')
    if os.path.exists(kf):
        known = [k for k in json.load(open(kf))['findings'] if k['property'] == pid]
    err = None
    try:
        mod.run(ctx)
    except AnchorError as ex:
        err = str(ex)
    n = len(ctx.obls)
    viol, und, ok, kn = [], [], 0, []
    for name, status, detail, site in ctx.obls:
        if status == 'ok':
            ok += 1
        elif status == 'undecided':
            und.append((name, detail, site))
        else:
            k = [f for f in known if f['obligation'] == name]
            (kn if k else viol).append((name, detail, site))
    if err is None and ok < getattr(mod, 'MIN_OBLIGATIONS', 1) and not viol:
        err = 'only %d obligations were discharged (expected at least %d)' % (ok, getattr(mod, 'MIN_OBLIGATIONS', 1))
    os.makedirs(EVID, exist_ok=True)
    ev = {
        'property': pid, 'tier': tier, 'seed': int(os.environ.get('VERIF_SEED', '1') or 1),
        'level': getattr(mod, 'LEVEL', 'other'),
        'coverage': {
            'explanation': getattr(mod, 'EXPLANATION', ''),
            'rules': ctx.rules,
            'translation_units': ctx.units,
            'functions_analysed': len(ctx.functions),
            'functions': sorted(x.split('(')[0] for x in ctx.functions)[:400],
            'call_sites': ctx.sites,
            'abstract_paths': ctx.paths,
            'obligations': n, 'discharged': ok,
            'undecided': [{'obligation': a, 'why': b, 'site': c} for a, b, c in und],
            'known_findings': [a for a, _, _ in kn],
            'obligation_names': [o[0] for o in ctx.obls][:600],
            'notes': ctx.notes,
        },
        'wall_s': round(time.time() - t0, 2),
        'violations': [{'obligation': a, 'detail': b, 'site': c} for a, b, c in viol],
    }
    if ev['level'] == 'proof':
        ev['coverage']['checker_cmd'] = 'python3 /verif/check.py ' + pid
        ev['coverage']['trusted_base'] = getattr(mod, 'TRUSTED', [])
    if err:
        ev['coverage']['error'] = err
    json.dump(ev, open(os.path.join(EVID, pid + '.json'), 'w'), indent=1)
    print('%s: %d units, %d functions, %d call sites, %d abstract paths; %d obligations: %d discharged, %d undecided, %d violated'
          % (pid, len(ctx.units), len(ctx.functions), ctx.sites, ctx.paths, n, ok, len(und), len(viol)))
    for a, b, c in kn:
        print('KNOWN-FINDING: property=%s %s: %s' % (pid, a, b))
    for a, b, c in und:
        print('UNDECIDED %s [%s] %s' % (a, c, b))
    if viol:
        rp = os.path.join(EVID, pid + '.violation.txt')
        with open(rp, 'w') as f:
            for a, b, c in viol:
                f.write('obligation: %s\nsite: %s\nwhy: %s\n\n' % (a, c, b))
        for a, b, c in viol[:40]:
            print('  violated: %s\n     at %s\n     %s' % (a, c, b))
        print('VIOLATION property=%s replay=%s' % (pid, rp))
        return 1
    if err:
        print('NO ANSWER: ' + err)
        return 2
    return 0


if __name__ == '__main__':
    sys.exit(main())
