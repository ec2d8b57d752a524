import importlib, sys, json
sys.path.insert(0, '/verif')
sys.setrecursionlimit(20000)
from pydv import unit
m = importlib.import_module('contracts.' + sys.argv[1].lower())
want = sys.argv[2] if len(sys.argv) > 2 else ''
for x in m.UNITS:
    if want in x.name:
        r = unit.run_unit(x)
        print('%-10s %s  obl %d/%d  %.1fs (solver %.1f) paths %d covers %s %s' % (r['status'], r['unit'], r['discharged'], r['obligations'], r['wall_s'], r['solver_s'], r['paths'], r['covers'], r['reason'][:700]))
        print('    fns', r['functions'], 'trusted', r['trusted'], 'models', r['models'])
        for l in r['loops']:
            print('    loop', l[0], 'INV', l[1], 'DROPPED', l[2])
        for f in r['failed'][:int(sys.argv[3]) if len(sys.argv)>3 else 4]:
            print('    FAILED', f['name'], f['where'], f['status'], f['reason']); print('       ', f['goal'][:300]); print('       ', f['model'][:1500].replace('\n','\n        '))
