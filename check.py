#!/usr/bin/env python3
"""Decide one property:  check.py C01 [--tier quick|thorough] [--repo /repo] [-v]

1. compile the property's contracts against the current /repo headers to LLVM IR;
2. generate and discharge all verification conditions (worker processes, python3-vt);
3. on a failed obligation, replay the verifier's counterexample on the natively compiled
   real code, else search for a failing input there;
4. write evidence/<id>.json; exit 0, or exit 1 with a VIOLATION line."""
import sys, os, json, subprocess, time, glob, shutil, re, tempfile
from concurrent.futures import ThreadPoolExecutor
V = os.path.dirname(os.path.abspath(__file__))
PY = '/opt/veriftools/pyvenv/bin/python'
if not os.path.exists(PY): PY = shutil.which('python3-vt') or 'python3'
CLANG = '/usr/bin/clang++-18'; OPT = '/usr/bin/opt-18'
IRDUMP = os.path.join(V, '.build', 'irdump')
PASSES = 'function(sroa,early-cse,simplifycfg<no-sink-common-insts;no-hoist-common-insts;no-switch-to-lookup>),cgscc(inline),function(sroa,early-cse)'
CFLAGS = ['-std=gnu++17', '-I' + os.path.join(V, 'contracts'), '-DNDEBUG', '-fno-exceptions', '-fno-access-control', '-ffp-contract=off', '-w', '-fno-vectorize', '-fno-slp-vectorize']

class Ctx: pass
C = Ctx()

def log(*a):
    if C.verbose: print(*a, file=sys.stderr, flush=True)

def run(cmd, timeout=None, **kw):
    try:
        return subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=timeout, text=True, errors='replace', **kw)
    except subprocess.TimeoutExpired as e:
        class R: pass
        r = R(); r.returncode = -9; r.stdout = (e.stdout or b'').decode(errors='replace') if isinstance(e.stdout, bytes) else (e.stdout or ''); r.stdout += '\n[timeout]'
        return r

def setup():
    os.makedirs(os.path.join(V, '.build'), exist_ok=True)
    src = os.path.join(V, 'engine', 'irdump.cpp')
    if os.path.exists(IRDUMP) and os.path.getmtime(IRDUMP) >= os.path.getmtime(src): return
    tmp = IRDUMP + '.%d' % os.getpid()
    r = run([CLANG, '-O1', '-std=c++17', '-fno-rtti', '-I/usr/lib/llvm-18/include', src, '-o', tmp, '-L/usr/lib/llvm-18/lib', '-lLLVM', '-Wl,-rpath,/usr/lib/llvm-18/lib'])
    if r.returncode != 0: sys.exit('cannot build irdump:\n' + r.stdout)
    os.replace(tmp, IRDUMP)

def compile_ir(tu):
    """contract TU -> JSON IR; returns (tu, json path or None, message)"""
    b = os.path.join(C.work, os.path.basename(tu)[:-4])
    extra = tu_flags(tu)
    r = run([CLANG] + CFLAGS + extra + ['-I' + C.repo + '/include', '-O1', '-Xclang', '-disable-llvm-passes', '-gline-tables-only', '-emit-llvm', '-c', tu, '-o', b + '.bc'], timeout=300)
    if r.returncode != 0: return tu, None, r.stdout
    r = run([OPT, '-passes=' + PASSES, b + '.bc', '-o', b + '.o.bc'], timeout=120)
    if r.returncode != 0: return tu, None, r.stdout
    with open(b + '.json', 'w') as f:
        r = subprocess.run([IRDUMP, b + '.o.bc', 'ob_'], stdout=f, stderr=subprocess.PIPE, text=True)
    if r.returncode != 0: return tu, None, r.stderr
    return tu, b + '.json', ''

def tu_flags(tu):
    for l in open(tu).read().split('\n')[:5]:
        if l.startswith('// flags:'): return [f.replace('@', os.path.join(V, 'contracts')) for f in l.split(':', 1)[1].split()]
    return []

def tu_libs(tu):
    for l in open(tu).read().split('\n')[:5]:
        if l.startswith('// libs:'): return l.split(':', 1)[1].split()
    return []

SHAPE = re.compile(r'\s*0 \| (?:struct|class) (boost::accumulators::(?:impl::|droppable|with_cached|accumulator_set|reference_|value_|external_).*)')

def shapes(tu):
    """fingerprints of the data members of every accumulator class the unit instantiates"""
    import hashlib
    out = set(); head = None; mem = []
    q = subprocess.Popen([CLANG] + CFLAGS + tu_flags(tu) + ['-I' + C.repo + '/include', '-O1', '-Xclang', '-disable-llvm-passes', '-Xclang', '-fdump-record-layouts', '-emit-llvm', '-c', tu, '-o', '/dev/null'], stdout=subprocess.PIPE, stderr=subprocess.DEVNULL, text=True, errors='replace')
    for l in q.stdout:
        if l.startswith('***'): head = None; mem = []
        elif head is None and not mem:
            m = SHAPE.match(l)
            head = m.group(1).rstrip() if m else ''
            mem = [1]
        elif head:
            if '[sizeof=' in l:
                if not head.endswith('(empty)'): out.add(hashlib.sha1((head + '|' + '|'.join(mem[1:])).encode()).hexdigest()[:10])
                head = ''
            else:
                m = re.match(r'\s*\d*(?::\S+)? \|   (\S.*)', l)
                if m and not m.group(1).rstrip().endswith('(empty)'): mem.append(m.group(1).rstrip())
    q.wait()
    return out

def shape_changed(tu):
    """have classes the contract unit fabricates states of lost, gained or retyped data members?"""
    try: base = set(json.load(open(os.path.join(V, 'shapes.json'))).get(os.path.basename(tu), []))
    except Exception: return False
    return bool(base - shapes(tu))

def native_ok(tu):
    """public-API contracts can be run natively: bounded histories, and functions of plain values ('// native')"""
    return '_hist' in os.path.basename(tu) or any(l.startswith('// native') for l in open(tu).read().split('\n')[:5])

def entries(tu):
    return re.findall(r'^OB\((\w+)\)', open(tu).read(), re.M) + re.findall(r'^OBT?_\w+\((\w+)', open(tu).read(), re.M)

def prove(job):
    js, entry, tmo = job
    t = C.tmo if tmo is None else tmo
    out = os.path.join(C.work, entry + '.res.json')
    # the whole proof phase has a deadline; once an obligation has failed the remaining work is cut short
    t = min(t, max(5, C.deadline - time.time()))
    class r: stdout = ''
    with open(out, 'w+') as h:
        q = subprocess.Popen([PY, os.path.join(V, 'engine', 'worker.py'), js, entry, C.tier, str(t)], stdout=h, stderr=subprocess.STDOUT)
        t1 = time.time() + t + 60
        while q.poll() is None:
            time.sleep(0.05)
            if time.time() > min(t1, C.fail_at + (45 if C.tier == 'quick' else 300)): q.kill(); q.wait(); h.write('\n[stopped]'); break
    r.stdout = open(out, errors='replace').read()
    try:
        line = [l for l in r.stdout.split('\n') if l.startswith('RESULT ')][-1]
        d = json.loads(line[7:])
    except Exception:
        d = dict(name=entry, error=r.stdout[-2000:], obl={}, failures=[], unknowns=[['worker', r.stdout[-300:]]], backends={}, paths=0, done=0, covers=[], funcs=[], time=0, solver_time=0, queries=0, bounds=0, throws=0, assumed_out=0, steps=0)
    if any((entry, f['obligation']) not in C.known for f in d['failures']): C.fail_at = min(C.fail_at, time.time())
    log('  %-40s %s  paths=%d done=%d t=%.1f  %s%s' % (entry, 'FAIL' if d['failures'] else 'unknown' if d['unknowns'] else 'ok', d['paths'], d['done'], d['time'], {k: v for k, v in d['obl'].items() if v[1] or v[2]} or sum(v[0] for v in d['obl'].values()), ' ' + str(d['unknowns'][:2]) if d['unknowns'] else ''))
    return d

def native_build(tus):
    """native binary of the public-API contracts (sanitizers on)"""
    exe = os.path.join(C.work, 'native')
    objs = []
    def one(tu):
        o = os.path.join(C.work, os.path.basename(tu)[:-4] + '.n.o')
        ex = [] if 'vnative' in tu else tu_flags(tu)
        fl = [x for x in CFLAGS if not (x == '-fno-exceptions' and 'vnative' in tu)]
        r = run([CLANG] + fl + ex + ['-DVS_NATIVE', '-I' + C.repo + '/include', '-O1', '-g1', '-fsanitize=address', '-fno-omit-frame-pointer', '-c', tu, '-o', o], timeout=400)
        return o if r.returncode == 0 else None, r.stdout
    with ThreadPoolExecutor(8) as ex:
        rs = list(ex.map(one, tus + [os.path.join(V, 'contracts', 'vnative.cpp')]))
    objs = [o for o, m in rs if o]
    for o, m in rs:
        if not o: log('native compile failed: ' + m[:1500])
    if rs[-1][0] is None or len(objs) < 2: return None
    r = run([CLANG, '-fsanitize=address'] + objs + ['-o', exe] + sorted({l for t in tus for l in tu_libs(t)}), timeout=200)
    if r.returncode != 0:
        log(r.stdout[:1500]); return None
    return exe

NENV = dict(os.environ, ASAN_OPTIONS='detect_leaks=0:abort_on_error=0:exitcode=1:allocator_may_return_null=1')

def native_replay(exe, entry, inputs):
    f = os.path.join(C.work, 'in.txt')
    with open(f, 'w') as h:
        for k, v in inputs: h.write('INPUT %s %s\n' % (k, v))
    r = run([exe, 'replay', entry, f], timeout=60, env=NENV)
    return r.returncode == 1 and 'FAIL ' in r.stdout, r.stdout

def native_search(exe, names, hints, secs, seed):
    hf = os.path.join(C.work, 'hints.txt')
    open(hf, 'w').write('\n'.join(str(float(h)) for h in hints))
    def one(n):
        return n, run([exe, 'search', n, str(seed), str(secs), hf], timeout=secs + 60, env=NENV)
    with ThreadPoolExecutor(8) as ex:
        rs = list(ex.map(one, names))
    runs = 0
    for n, r in rs:
        if 'FAIL ' in r.stdout and r.returncode != 0: return n, r.stdout
        m = re.search(r'runs=(\d+)', r.stdout)
        if m: runs += int(m.group(1))
    C.search_runs += runs
    return None, None

def hint_numbers(fails):
    H = set()
    from fractions import Fraction
    for f in fails:
        for k, v in f.get('inputs', []):
            try: H.add(Fraction(v))
            except Exception: pass
        for m in re.findall(r'(?<![\w.@:#])-?\d+(?:/\d+)?', ' '.join(f.get('path', [])) + f.get('detail', '')):
            try: H.add(Fraction(m))
            except Exception: pass
    H = {h for h in H if abs(h) < 10**7}
    return sorted(H)[:200]

def known_findings(pid):
    p = os.path.join(V, 'known_findings.txt')
    out = []
    if os.path.exists(p):
        for l in open(p):
            m = re.match(r'finding:\s+property=(\w+)\s+entry=(\w+)/(\S+)\s+(.*)', l)
            if m and m.group(1) == pid: out.append(((m.group(2), m.group(3)), m.group(4).strip()))
    return out

def main():
    a = sys.argv[1:]
    C.verbose = '-v' in a
    C.native = '--native' in a
    C.repo = a[a.index('--repo') + 1] if '--repo' in a else '/repo'
    C.tier = a[a.index('--tier') + 1] if '--tier' in a else os.environ.get('VERIF_TIER', 'quick')
    only = a[a.index('--only') + 1] if '--only' in a else None
    if C.tier not in ('quick', 'thorough'): C.tier = 'quick'
    seed = int(os.environ.get('VERIF_SEED', '1') or 1)
    setup()
    if a and a[0] == 'setup': return 0
    if a and a[0] == 'shapes':
        tus = [t for t in sorted(glob.glob(os.path.join(V, 'contracts', 'C??_*.cpp'))) if '_hist' not in t]
        with ThreadPoolExecutor(6) as ex: r = list(ex.map(shapes, tus))
        with open(os.path.join(V, 'shapes.json'), 'w') as f: json.dump({os.path.basename(t): sorted(x) for t, x in zip(tus, r)}, f, indent=0)
        return 0
    pid = a[0]
    t0 = time.time()
    C.search_runs = 0
    C.tmo = 240 if C.tier == 'quick' else 1500
    C.work = tempfile.mkdtemp(prefix='vc-%s-' % pid, dir=os.path.join(V, '.build'))
    try:
        return decide(pid, seed, t0, only)
    finally:
        if '--keep' not in a: shutil.rmtree(C.work, ignore_errors=True)

def decide(pid, seed, t0, only):
    tus = sorted(glob.glob(os.path.join(V, 'contracts', pid + '_*.cpp')))
    if C.tier == 'quick': tus = [t for t in tus if not t.endswith('_thorough.cpp')]
    with ThreadPoolExecutor(8) as ex:
        comp = list(ex.map(compile_ir, tus))
    jobs = []; notcompiled = []
    for tu, js, msg in comp:
        if js is None:
            notcompiled.append((tu, msg)); log('COMPILE FAILED', tu, msg[:3000]); continue
        for e in json.load(open(js))['entries']:
            if only and only not in e: continue
            if C.tier == 'quick' and e.startswith('ob_slow_'): continue
            jobs.append((js, e, None))
    log('compiled %d contract units in %.1fs, %d entry points' % (len(comp), time.time() - t0, len(jobs)))
    C.known = known = dict(known_findings(pid)); C.fail_at = float('inf'); C.deadline = t0 + (480 if C.tier == 'quick' else 3600)
    with ThreadPoolExecutor(8) as ex:
        res = list(ex.map(prove, jobs))
    fails = [(d, f) for d in res for f in d['failures'] if (d['name'], f['obligation']) not in known]
    kent = {e for e, _ in known}
    unk = [(d['name'], u) for d in res for u in d['unknowns']]
    vac = [d['name'] for d in res if not d['failures'] and not d['unknowns'] and (d['done'] == 0 or sum(v[0] for v in d['obl'].values()) == 0 or 'end' not in d['covers'])]
    hist_tus = [t for t in tus if native_ok(t) and not any(t == n for n, _ in notcompiled)]
    hist_bases = {os.path.basename(t)[:-4] for t in hist_tus}
    hist_names = [j[1] for j in jobs if os.path.basename(j[0])[:-5] in hist_bases]
    verdict = 0; lines = []
    replay = None; note = ''
    need_native = bool(fails or unk or vac or notcompiled) or C.native
    undecided = bool(unk or vac or notcompiled)
    confirmed = False
    if need_native:
        exe = native_build(hist_tus) if hist_tus else None
        hints = hint_numbers([f for _, f in fails])
        out = None
        if exe:
            for d, f in fails:
                if d['name'] in hist_names and f.get('inputs') is not None:
                    ok, o = native_replay(exe, d['name'], f['inputs'])
                    if ok: out = (d['name'], o); break
            if out is None:
                names = [n for n in hist_names if n not in kent]
                # entries whose proof failed first, then all
                pri = [n for n in names if any(d['name'] == n for d, _ in fails)]
                secs = (20 if fails else 10) * (1 if C.tier == 'quick' else 6)
                for group in ([pri] if pri else []) + [names]:
                    n, o = native_search(exe, group, hints, max(3, min(secs, secs * 40 / max(1, len(group)))), seed)
                    if n: out = (n, o); break
        if fails and out is None:
            # the inductive contracts fabricate states member by member: against classes whose members changed a failed
            # inductive obligation says nothing, so it counts as undecided (failures of public-API contracts stay)
            at = {j[1]: [t for t in tus if os.path.basename(t)[:-4] == os.path.basename(j[0])[:-5]][0] for j in jobs}
            ft = sorted({at[d['name']] for d, _ in fails if '_hist' not in os.path.basename(at[d['name']])})
            with ThreadPoolExecutor(6) as ex: ch = [t for t, c in zip(ft, ex.map(shape_changed, ft)) if c]
            moved = [(d, f) for d, f in fails if at[d['name']] in ch]
            if moved:
                fails = [x for x in fails if x not in moved]; undecided = True
                unk += [(d['name'], ['state-shape-changed', f['obligation']]) for d, f in moved]
        if out or fails:
            os.makedirs(os.path.join(V, '.build', 'replay'), exist_ok=True)
            replay = os.path.join(V, '.build', 'replay', '%s-%d.txt' % (pid, os.getpid()))
            with open(replay, 'w') as h:
                h.write('property %s\n' % pid)
                if out:
                    h.write('# failing input on the real code (contract function %s)\n' % out[0])
                    h.write('# rerun: check.py replay %s <this file>\n' % out[0])
                    h.write(out[1])
                for d, f in fails[:6]:
                    h.write('\nFAILED OBLIGATION %s / %s\n%s\n' % (d['name'], f['obligation'], json.dumps(f, indent=1)))
            verdict = 1
            confirmed = out is not None
            line = 'VIOLATION property=%s replay=%s' % (pid, replay)
            if not confirmed: line += ' no-failing-input-found'
            for d, f in fails[:4]:
                print('failed obligation: %s / %s: %s' % (d['name'], f['obligation'], f['detail'][:200]))
            if out: print('\n'.join(out[1].split('\n')[:12]))
            lines.append(line)
    for e, what in known.items():
        d = [x for x in res if x['name'] == e[0]]
        if d and any(f['obligation'] == e[1] for f in d[0]['failures']): print('KNOWN-FINDING: property=%s %s' % (pid, what))
        elif d and not d[0]['failures'] and not d[0]['unknowns']: print('note: known finding %s no longer fails' % e[0])
    write_evidence(pid, seed, t0, res, fails, unk, vac, notcompiled, verdict, confirmed, tus)
    for l in lines: print(l)
    if verdict == 0:
        ob = sum(v[0] for d in res for v in d['obl'].values())
        st = 'held' if not undecided else 'held on everything decided (some obligations undecided, bounded stand-in used)'
        print('property %s %s: %d obligations discharged, %d undecided, %.1fs' % (pid, st, ob, len(unk) + len(vac) + len(notcompiled), time.time() - t0))
        for n, u in unk[:5]: print('  undecided: %s %s' % (n, u))
        for n in vac[:5]: print('  vacuous: %s' % n)
        for n, m in notcompiled[:5]: print('  contract does not fit the changed source: %s' % os.path.basename(n))
        if not jobs:
            print('error: no contract of %s compiles against the current source' % pid); return 2
    return verdict

def write_evidence(pid, seed, t0, res, fails, unk, vac, notcompiled, verdict, confirmed, tus):
    obl = {}
    for d in res:
        for k, v in d['obl'].items(): obl[d['name'][3:] + '/' + k] = v
    be = {}
    for d in res:
        for k, v in d['backends'].items(): be[k] = be.get(k, 0) + v
    funcs = sorted({f for d in res for f in d['funcs']})
    bnd = [d['name'][3:] for d in res if not re.match(r'ob_(?:slow_)?(?:step|base|inv|fn|lem)_', d['name'])]
    prf = [d['name'][3:] for d in res if re.match(r'ob_(?:slow_)?(?:step|base|inv|fn|lem)_', d['name'])]
    prf_ob = sum(sum(v) for d in res if d['name'][3:] in prf for v in d['obl'].values())
    done_prf = sum(v[0] for d in res if d['name'][3:] in prf for v in d['obl'].values())
    level = 'proof' if prf_ob and done_prf else 'other'
    try: scope = json.load(open(os.path.join(V, 'levels.json'))).get(pid, '')
    except Exception: scope = ''
    ev = dict(property=pid, tier=C.tier, seed=seed, level=level, wall_s=round(time.time() - t0, 2), violations=1 if verdict else 0,
      coverage=dict(
        obligations=prf_ob, discharged=done_prf, bounded_obligations=sum(sum(v) for v in obl.values()) - prf_ob, bounded_discharged=sum(v[0] for v in obl.values()) - done_prf, scope=scope,
        explanation='inductive contracts discharged for all histories; bounded entry points counted separately' if level == 'proof' else 'the inductive contracts could not be generated from this source (they name private state that is not there): only bounded histories through the public interface were decided',
        memory_safety_obligations=sum(d['bounds'] for d in res),
        checker_cmd='python3 check.py %s' % pid,
        trusted_base=['clang 18 front end and SROA/early-cse/simplifycfg/inline passes', 'irdump (IR to JSON)', 'symex.py VC generator and its LLVM IR semantics', 'terms.py normal form', 'z3 5.3'],
        contract_units=[os.path.basename(t) for t in tus],
        inductive_or_total_entry_points=prf, bounded_entry_points=bnd,
        paths=sum(d['paths'] for d in res), paths_completed=sum(d['done'] for d in res),
        per_obligation={k: dict(discharged=v[0], failed=v[1], undecided=v[2]) for k, v in sorted(obl.items())},
        backends=be, solver_seconds=round(sum(d['solver_time'] for d in res), 2), solver_queries=sum(d['queries'] for d in res),
        functions_under_contract=funcs, n_functions=len(funcs),
        undecided=[list(u) for u in unk][:40], vacuous=vac, contracts_not_compiling=[os.path.basename(n) for n, _ in notcompiled],
        native_search_runs=C.search_runs, failing_input_confirmed=confirmed),
      assumptions=['floating-point + - * / treated as exact real arithmetic (division by zero and NaN/Inf modelled); rounding is not, except where the contract is run in the bit-exact uninterpreted mode',
                   'inputs are finite reals', 'sqrt/log/pow/exp by axioms or uninterpreted', 'counts below 2^52',
                   'signed overflow flagged nsw by the compiler does not occur',
                   'entry points listed under bounded_entry_points are bounded in history length or configuration as written in the contract file']
                  + [l[11:].strip() + ' (' + os.path.basename(t) + ')' for t in tus for l in open(t).read().split('\n') if l.startswith('// assumes:')])
    os.makedirs(os.path.join(V, 'evidence'), exist_ok=True)
    p = os.path.join(V, 'evidence', pid + '.json')
    with open(p + '.tmp', 'w') as f: json.dump(ev, f, indent=1)
    os.replace(p + '.tmp', p)

if __name__ == '__main__':
    sys.exit(main())
