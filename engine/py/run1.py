import sys, time
import os; sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from absint import *
import model, specs
P = Prog(sys.argv[1])
for name in sys.argv[2:] or list(specs.SPECS):
    sp = specs.SPECS[name]
    it = Interp(P, model.models_for(sp), model.World(sp), deadline=time.time()+500)
    it.recur = model.recursion(sp)
    it.binop_hook = model.dist_hook
    it.ret_kinds = set()
    it.graph = {}
    t = time.time()
    try:
        it.run(P.roots['roots::' + name])
    except Budget:
        print('BUDGET')
    print(name, 'states', it.nstates, 'steps', it.steps, '%.1fs' % (time.time() - t), 'funcs', len(it.funcs), 'imprecise', it.imprecise)
    cy = it.cycles()
    print('   edges', sum(map(len, it.graph.values())), 'cycles', len(cy), 'panics', [(k, v[0]) for k, v in it.panics.items() if not k[2]])
    for c in cy[:2]:
        fr, tr = it.nodes[c[0]]
        print('   CYCLE', [P.insts[i]['path'] for i in fr][-3:])
        ev = []
        while tr:
            ev.append(tr[0]); tr = tr[1]
        print('       ', ' ; '.join(' '.join(str(x) for x in e) for e in ev[::-1]))
    print('   returns', sorted(it.ret_kinds))
    for r, (m, ev, stk) in it.violations.items():
        print('   VIOL', r, '|', m)
        if '-v' in sys.argv or True:
            print('       ', ' ; '.join(' '.join(str(x) for x in e) for e in ev))
