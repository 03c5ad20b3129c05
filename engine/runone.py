import sys, json
sys.path.insert(0, '/verif/engine'); sys.setrecursionlimit(100000)
import symex
m = symex.Module(sys.argv[1])
for e in (sys.argv[2:] or m.entries):
    E = symex.Engine(m)
    r = E.run(e)
    print(e, 'paths', r.paths, 'done', r.done, 'assumed', r.assumed_out, 'thr', r.throws, 'steps', r.steps, 'time %.2f solver %.2f q %d' % (r.time, r.solver_time, r.queries), 'bounds', r.bounds)
    for k, v in r.obl.items(): print('   ', k, v)
    print('   ', r.backends, r.covers)
    for u in r.unknowns[:10]: print('   UNK', u)
    for f in r.failures[:4]: print('   FAIL', json.dumps(f, indent=1)[:1800])
