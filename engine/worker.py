import sys, json, os, threading, re
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
sys.setrecursionlimit(50000); threading.stack_size(512 * 1024 * 1024)
import symex
def go():
    js, entry, tier, tmo = sys.argv[1], sys.argv[2], sys.argv[3], float(sys.argv[4])
    m = symex.Module(js)
    E = symex.Engine(m, dict(time=tmo, paths=200000 if tier == 'thorough' else 60000, steps=600000))
    r = E.run(entry)
    repo = set()
    for f in r.funcs:
        for s in m.raw.get(f, {}).get('inl', []):
            n, _, p = s.rpartition(' @ ')
            if '/boost/accumulators/' in p:
                n = re.sub(r'<.*', '', n.replace('boost::accumulators::', '').replace('(anonymous namespace)', ''))
                repo.add('%s @ %s' % (n[:120], p[p.index('/boost/accumulators/') + 1:]))
    d = dict(name=r.name, paths=r.paths, done=r.done, assumed_out=r.assumed_out, obl=r.obl, backends=r.backends, failures=r.failures,
             unknowns=r.unknowns, covers=sorted(r.covers), funcs=sorted(repo), bounds=r.bounds, time=r.time, solver_time=r.solver_time,
             queries=r.queries, throws=r.throws, steps=r.steps)
    print('RESULT ' + json.dumps(d)); sys.stdout.flush()
t = threading.Thread(target=go); t.start(); t.join()
