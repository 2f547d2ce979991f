#!/usr/bin/env python3
"""check.py <property>: decide one property on /repo's current source by static analysis."""
import importlib
import json
import os
import sys
import time
import traceback

HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, os.path.join(HERE, 'lib'))
sys.path.insert(0, os.path.join(HERE, 'rules'))
sys.setrecursionlimit(20000)

if os.environ.get('PYTHONHASHSEED') != '0':
    os.environ['PYTHONHASHSEED'] = '0'
    os.execv(sys.executable, [sys.executable] + sys.argv)

import core  # noqa: E402
import facts  # noqa: E402


def main():
    prop = sys.argv[1]
    tier = os.environ.get('VERIF_TIER', 'quick')
    if tier not in ('quick', 'thorough'):
        tier = 'quick'
    seed = int(os.environ.get('VERIF_SEED', '0') or 0)
    t0 = time.time()
    mod = importlib.import_module(prop.lower())
    ctx = core.Ctx(prop, tier)
    try:
        for config in getattr(mod, 'CONFIGS', ('default', 'all')):
            ctx.use(core.Prog(config))
            mod.run(ctx)
        if hasattr(mod, 'finish'):
            mod.finish(ctx)
    except facts.FactsError as e:
        print(f'ERROR property={prop} {e}')
        sys.exit(2)
    except Exception:
        traceback.print_exc()
        print(f'ERROR property={prop} internal error of the analysis')
        sys.exit(2)
    ev, viol, known = ctx.result(time.time() - t0, seed, mod.EXPLANATION, getattr(mod, 'ASSUMPTIONS', []),
                                 getattr(mod, 'LEVEL', 'other'))
    evdir = os.environ.get('VERIF_EVIDENCE', os.path.join(HERE, 'evidence'))
    os.makedirs(evdir, exist_ok=True)
    with open(os.path.join(evdir, prop + '.json'), 'w') as f:
        json.dump(ev, f, indent=1)
        f.write('\n')
    for key, what, o in known:
        print(f'KNOWN-FINDING: property={prop} {key} ({what}) at {o["loc"]}')
    print(f'{prop}: {ev["coverage"]["obligations"]} obligations, {ev["coverage"]["discharged"]} discharged, '
          f'{ev["coverage"]["functions_analysed"]} functions analysed, {len(known)} known findings')
    rep = os.path.join(evdir, prop + '.violations.txt')
    if viol:
        with open(rep, 'w') as f:
            for full, o in viol:
                f.write(f'{full}\n  at {o["loc"]}\n  rule: {ctx.rules[o["rule"]]}\n  found: {o["msg"]}\n')
                if o['path']:
                    f.write('  path: ' + ' -> '.join(map(str, o['path'])) + '\n')
                f.write(f'  configurations: {", ".join(sorted(o["configs"]))}\n')
        for full, o in viol:
            print(f'{full}\n  at {o["loc"]}: {o["msg"]}')
            if o['path']:
                print('  path: ' + ' -> '.join(map(str, o['path'])))
        print(f'VIOLATION property={prop} replay={rep}')
        sys.exit(1)
    if os.path.exists(rep):
        os.unlink(rep)
    sys.exit(0)


if __name__ == '__main__':
    main()
