import sys, time
sys.path.insert(0, __import__('os').path.dirname(__import__('os').path.abspath(__file__)))
import lin, lspecs
from absint import *
P = Prog(sys.argv[1])
names = [n for n in lspecs.L if not sys.argv[2:] or any(n.startswith(a) for a in sys.argv[2:])]
for name in names:
    sp = lspecs.L[name]
    if 'roots::' + name not in P.roots:
        continue
    it = lin.interp(P, sp, deadline=time.time() + 300)
    it.ret_kinds = set()
    it.graph = {}
    t = time.time()
    try:
        it.run(P.roots['roots::' + name])
    except Budget:
        print('BUDGET')
    print(name, 'states', it.nstates, 'steps', it.steps, '%.1fs' % (time.time() - t), 'imprecise', it.imprecise, 'cycles', len(it.cycles()))
    for k, v in it.panics.items():
        if not k[2]: print('   maybe', k)
    print('   returns', sorted(it.ret_kinds))
    for r, (m, ev, stk) in it.violations.items():
        print('   VIOL', r, '|', m)
        print('       ', ' ; '.join(' '.join(str(x) for x in e) for e in ev))
