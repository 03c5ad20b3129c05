"""VC generator: symbolic execution of LLVM IR (as dumped by irdump) over exact
arithmetic, one path at a time, discharging every vs_check / bounds / initialisation /
assertion obligation for all values of the symbolic inputs."""
import json, os, sys, time, struct
if hasattr(sys, "set_int_max_str_digits"): sys.set_int_max_str_digits(0)
from fractions import Fraction
import z3
from terms import *
import terms as T

class Undef:
    def __repr__(self): return 'UNDEF'
UNDEF = Undef()
class Special:
    def __init__(self, k): self.k = k
    def __repr__(self): return self.k
NAN, PINF, NINF = Special('nan'), Special('inf'), Special('-inf')

class Ptr:
    __slots__ = ('obj', 'off')
    def __init__(self, obj, off): self.obj, self.off = obj, off
    def __repr__(self): return '&%s+%s' % (self.obj, self.off)
NULL = Ptr(0, 0)

class K:
    __slots__ = ('v',)
    def __init__(self, v): self.v = v

class Fork(Exception):
    def __init__(self, cond): self.cond = cond
class Enum(Exception):
    """fork on all values of an integer term"""
    def __init__(self, term): self.term = term
class PathEnd(Exception):
    def __init__(self, why): self.why = why
class Fail(Exception):
    """an obligation that fails outright on this path"""
    def __init__(self, name, detail=''): self.name, self.detail = name, detail
class OutOfBudget(Exception): pass

class Obj:
    __slots__ = ('size', 'cells', 'zero', 'name', 'kind', 'sa')
    def __init__(self, size, name, kind):
        self.size, self.name, self.kind = size, name, kind
        self.cells = {}; self.zero = (); self.sa = None
    def clone(self):
        o = Obj(self.size, self.name, self.kind)
        o.cells = dict(self.cells); o.zero = self.zero; o.sa = self.sa
        return o

class Frame:
    __slots__ = ('fn', 'blk', 'ip', 'prev', 'regs', 'allocas', 'dst', 'nblk')
    def clone(self):
        f = Frame()
        f.fn, f.blk, f.ip, f.prev, f.dst, f.nblk = self.fn, self.blk, self.ip, self.prev, self.dst, self.nblk
        f.regs = dict(self.regs); f.allocas = list(self.allocas)
        return f

class State:
    def __init__(self):
        self.frames = []; self.mem = {}; self.owned = set()
        self.pc = []; self.lin = []; self.facts = {}; self.model = None
        self.inputs = []; self.nextobj = 1; self.steps = 0; self.allow_throw = False
        self.checks = 0; self.subst = None; self.flags = {}; self.trace = None
        self.names = {}
    def clone(self):
        s = State()
        s.frames = [f.clone() for f in self.frames]
        s.mem = dict(self.mem); s.owned = set(); self.owned = set()
        s.pc = list(self.pc); s.lin = list(self.lin); s.facts = dict(self.facts); s.model = self.model
        s.inputs = list(self.inputs); s.nextobj = self.nextobj; s.steps = self.steps
        s.allow_throw = self.allow_throw; s.checks = self.checks; s.flags = dict(self.flags)
        s.names = dict(self.names)
        return s

ZERO = const(0); ONE = const(1); I0 = const(0, 'I')
SIZES = {'d': 8, 'f': 4, 'p': 8, 'x': 16, 'i1': 1, 'i8': 1, 'i16': 2, 'i32': 4, 'i64': 8, 'i128': 16}

def tysize(t):
    if isinstance(t, str):
        if t in SIZES: return SIZES[t]
        if t[0] == 'i': return (int(t[1:]) + 7) // 8
        raise Unsupported('type ' + t)
    return t[1]

def wrap(v, bits):
    v &= (1 << bits) - 1
    if v >> (bits - 1): v -= 1 << bits
    return v

def iterm(v):
    return v if isinstance(v, Term) else const(v, 'I')

def rng(t):
    """interval of an Int term from variable bounds (None = unbounded)"""
    if isinstance(t, int): return t, t
    if t.op == 'const': return t.val, t.val
    if t.op in ('var', 'uf', 'floor', 'ceil', 'idiv', 'sel'): return t.lo, t.hi
    if t.op == 'imod':
        if isc(t.args[1]): return 0, t.args[1].val - 1
        return None, None
    if t.op == 'add':
        (a, b), (c, d) = rng(t.args[0]), rng(t.args[1])
        return (None if a is None or c is None else a + c), (None if b is None or d is None else b + d)
    if t.op == 'mul':
        (a, b), (c, d) = rng(t.args[0]), rng(t.args[1])
        if None in (a, b, c, d):
            if isc(t.args[0]):
                k = t.args[0].val
                lo = None if c is None else k * c
                hi = None if d is None else k * d
                return (lo, hi) if k >= 0 else (hi, lo)
            return None, None
        ps = (a * c, a * d, b * c, b * d)
        return min(ps), max(ps)
    return None, None

class Solver:
    """incremental relaxed (Real) solver following the DFS path, plus exact fallbacks"""
    def __init__(self, rl=4000000):
        self.s = z3.Solver(); self.s.set('rlimit', rl); self.s.set('timeout', 20000)
        self.z = Z(True); self.stack = []
        self.queries = 0; self.time = 0.0; self.rl = rl
        self.asserted_ax = 0
    def _flush(self, s, z):
        while z.pend:
            a = z.pend.pop()
            s.add(a[1] if isinstance(a, tuple) else z.c(a))
    def sync(self, pc):
        i = 0; n = min(len(pc), len(self.stack))
        while i < n and pc[i] is self.stack[i]: i += 1
        while len(self.stack) > i:
            self.s.pop(); self.stack.pop()
        # terms memoised under a popped scope lose their axioms: rebuild the memo then
        if i < n or len(pc) < getattr(self, '_maxd', 0): pass
        for c in pc[i:]:
            self.s.push(); self._assert(c); self.stack.append(c)
    def _assert(self, c):
        # axioms for atoms: kept per formula so that push/pop stays sound
        f, ax = self.form(c)
        self.s.add(f)
        for a in ax: self.s.add(a)
    def form(self, c):
        k = c._k
        if k is None:
            z = self.z
            # translation memo is global; collect the axioms of all atoms in c each time
            f = z.c(c)
            while z.pend:
                a = z.pend.pop()
                if not isinstance(a, tuple): z.c(a)
            ax = []
            seen = set()
            self._axioms(c.a, ax, seen); self._axioms(c.b, ax, seen)
            c._k = k = (f, ax)
        return k
    def _axioms(self, t, ax, seen):
        z = self.z
        st = [t]
        while st:
            y = st.pop()
            if y.id in seen: continue
            seen.add(y.id)
            st.extend(y.args)
            op = y.op
            if op == 'const' or op == 'add' or op == 'mul' or op == 'toreal': continue
            L = []
            if op == 'var':
                if y.lo is not None: L.append(Cond('<=', const(y.lo, y.sort), y))
                if y.hi is not None: L.append(Cond('<=', y, const(y.hi, y.sort)))
            elif op == 'div':
                ax.append(z.t(y) * z.t(y.args[1]) == z.t(y.args[0])); continue
            elif op == 'floor':
                i = toreal(y); L += [Cond('<=', i, y.args[0]), Cond('<', y.args[0], add(i, const(1)))]
            elif op == 'ceil':
                i = toreal(y); L += [Cond('<=', y.args[0], i), Cond('<', i, add(y.args[0], const(1)))]
            elif op == 'idiv':
                a, b = y.args
                if isc(b) and b.val > 0:
                    q = mul(y, b); L += [Cond('<=', q, a), Cond('<', a, add(q, b))]
            elif op == 'imod':
                a, b = y.args
                if isc(b) and b.val > 0:
                    q = T._mk('idiv', (a, b), 'I'); st.append(q)
                    L += [Cond('==', a, add(mul(q, b), y)), Cond('<=', const(0, 'I'), y), Cond('<', y, b)]
            elif op == 'uf' and y.name == 'sqrt':
                L += [Cond('<=', const(0), y), Cond('==', mul(y, y), y.args[0])]
            for a in y.axioms:
                L.append(a); st.append(a.a); st.append(a.b)
            for c in L:
                ax.append(z.c(c))
            while z.pend:
                a = z.pend.pop()
    def check(self, pc, extra=None):
        self.sync(pc)
        t0 = time.time(); self.queries += 1
        self.s.push()
        try:
            if extra is not None: self._assert(extra)
            r = self.s.check()
            m = None
            if r == z3.sat: m = self.model(self.s.model(), self.z)
        except z3.Z3Exception:
            r = z3.unknown; m = None
        self.s.pop()
        self.time += time.time() - t0
        return str(r), m
    def model(self, m, z):
        out = {}
        for v, e in z.vars.items():
            if v.op in ('div', 'floor', 'ceil', 'idiv', 'imod'): continue
            r = m.eval(e, model_completion=True)
            if z3.is_rational_value(r): val = Fraction(r.numerator_as_long(), r.denominator_as_long())
            elif z3.is_int_value(r): val = r.as_long()
            else:
                try:
                    r = r.approx(20); val = Fraction(r.numerator_as_long(), r.denominator_as_long())
                except Exception: return None
            if v.sort == 'I':
                if Fraction(val).denominator != 1: return None
                val = int(val)
            out[v] = val
        return out
    def exact(self, pc, extra, timeout=20000, nlsat=False, pure=True):
        """one-shot query, sliced to the constraints connected to `extra`"""
        t0 = time.time(); self.queries += 1
        z = Z(pure)
        s = z3.SolverFor('QF_NRA') if nlsat else z3.Solver()
        s.set('timeout', timeout)
        try:
            for c in slice_pc(pc, extra): s.add(z.c(c))
            if extra is not None: s.add(z.c(extra))
            done = set()
            while z.pend:
                a = z.pend.pop()
                s.add(a[1] if isinstance(a, tuple) else z.c(a))
            # congruence for uninterpreted functions
            ufs = [v for v in z.vars if v.op == 'uf' and v.name not in ('sqrt',)]
            for i in range(len(ufs)):
                for j in range(i):
                    a, b = ufs[i], ufs[j]
                    if a.name == b.name and len(a.args) == len(b.args):
                        s.add(z3.Implies(z3.And(*[z.t(p) == z.t(q) for p, q in zip(a.args, b.args)]), z.t(a) == z.t(b)))
            r = s.check()
            m = None
            if r == z3.sat: m = self.model(s.model(), z)
        except z3.Z3Exception:
            r = z3.unknown; m = None
        self.time += time.time() - t0
        return str(r), m

def slice_pc(pc, extra):
    if extra is None: return list(pc)
    vs = vars_of(extra.a) | vars_of(extra.b)
    items = [(c, vars_of(c.a) | vars_of(c.b)) for c in pc]
    used = [False] * len(items); ch = True
    while ch:
        ch = False
        for i, (c, v) in enumerate(items):
            if not used[i] and (v & vs):
                used[i] = True; vs |= v; ch = True
    return [c for i, (c, v) in enumerate(items) if used[i]]

class Fn:
    pass

class Module:
    def __init__(self, path):
        j = json.load(open(path))
        self.raw = j['functions']; self.globals = j['globals']
        self.ctors = j['ctors']; self.entries = j['entries']
        self.fns = {}
    def fn(self, name):
        f = self.fns.get(name)
        if f is None and name in self.raw:
            r = self.raw[name]
            f = Fn(); f.name = name; f.dem = r['dem']; f.nargs = r['nargs']; f.byval = r['byval']
            f.ret = r['ret']; f.argtys = r['args']; f.blocks = r['blocks']; f.file = r['file']; f.line = r['line']
            f.dec = {}
            self.fns[name] = f
        return f

class Result:
    """outcome of one obligation entry point"""
    def __init__(self, name):
        self.name = name; self.paths = 0; self.done = 0; self.assumed_out = 0
        self.obl = {}          # check name -> [discharged, failed, unknown]
        self.backends = {}; self.failures = []; self.unknowns = []; self.covers = set()
        self.funcs = set(); self.bounds = 0; self.time = 0; self.solver_time = 0; self.queries = 0
        self.throws = 0; self.steps = 0; self.calls_external = set(); self.enum = 0
    def rec(self, name, ok, backend):
        o = self.obl.setdefault(name, [0, 0, 0])
        o[0 if ok else 1] += 1
        self.backends[backend] = self.backends.get(backend, 0) + 1
    def unk(self, name, why):
        o = self.obl.setdefault(name, [0, 0, 0]); o[2] += 1
        if len(self.unknowns) < 20: self.unknowns.append([name, why])

class Engine:
    def __init__(self, mod, budget=None):
        self.m = mod
        self.solver = Solver()
        self.budget = dict(paths=20000, steps=400000, time=600, fails=3)
        if budget: self.budget.update(budget)
        self.gaddr = {}
        self.fresh = 0
        self.ufmode = False
        self.setup_base()

    # ------------------------------------------------------------ globals
    def setup_base(self):
        st = State(); st.nextobj = 1
        self.base = st
        self.in_ctor = False
    def gobj(self, st, name):
        oid = self.gaddr.get(name)
        if oid is None:
            oid = self.gaddr[name] = 'G:' + name
        if oid not in st.mem:
            if name in self.m.globals:
                size, isc_, ty, init = self.m.globals[name]
                o = Obj(size, name, 'global')
                st.mem[oid] = o; st.owned.add(oid)
                if init is not None: self.init_mem(st, o, 0, ty, init)
                else: o.zero = ((0, size),) if False else ()
            else:
                o = Obj(1, name, 'func'); st.mem[oid] = o
        return oid
    def init_mem(self, st, o, off, ty, c):
        k = c[0]
        if k == 'z': o.zero = o.zero + ((off, off + tysize(ty)),); return
        if k == 'u': return
        if k == 'str':
            for i, b in enumerate(c[1]): o.cells[off + i] = (1, b)
            return
        if k == 'a':
            if ty[0] == 's':
                for (fo, ft), x in zip(ty[2:], c[1]): self.init_mem(st, o, off + fo, ft, x)
            else:
                for i, x in enumerate(c[1]): self.init_mem(st, o, off + i * ty[3], ty[4], x)
            return
        o.cells[off] = (tysize(ty), self.cval(st, c))
    def cval(self, st, c):
        k = c[0]
        if k == 'c':
            return c[2] & 1 if c[1] == 1 else c[2]
        if k == 'f':
            if c[1] == 'nan': return NAN
            if c[1] == 'inf': return PINF
            if c[1] == '-inf': return NINF
            return const(Fraction(float.fromhex(c[1])))
        if k == 'n': return NULL
        if k == 'u': return UNDEF
        if k == 'g': return Ptr('G:' + c[1], c[2])
        if k == 'z': return self.zero_of(c[1])
        if k == 'a': return [self.cval(st, x) for x in c[1]]
        if k == 'i2p': return Ptr(0, self.cval(st, c[1]))
        if k == 'str': return list(c[1])
        if k == 'ce':
            if c[1] in ('ptrtoint', 'bitcast'): return self.cval(st, c[3][0])
        raise Unsupported('constant ' + str(c)[:80])
    def zero_of(self, t):
        if isinstance(t, str):
            if t in ('d', 'f', 'x'): return ZERO
            if t == 'p': return NULL
            return 0
        if t[0] == 's': return [self.zero_of(f[1]) for f in t[2:]]
        return [self.zero_of(t[4]) for _ in range(t[2])]

    # ------------------------------------------------------------ memory
    def alloc(self, st, size, name, kind):
        oid = st.nextobj; st.nextobj += 1
        st.mem[oid] = Obj(size, name, kind); st.owned.add(oid)
        return oid
    def wobj(self, st, oid):
        o = st.mem.get(oid)
        if o is None: return None
        if oid not in st.owned:
            o = o.clone(); st.mem[oid] = o; st.owned.add(oid)
        return o
    def off(self, st, off):
        if isinstance(off, int): return off
        v = simp_const(off)
        if v is not None: return int(v)
        v = self.known_value(st, off)
        if v is not None: return v
        raise Enum(off)
    def known_value(self, st, t):
        return st.names.get(('ival', t.id))
    def resolve(self, st, p, size, what):
        if p is UNDEF: raise Fail('mem.uninit-pointer', what)
        if not isinstance(p, Ptr):
            raise Fail('mem.bad-pointer', what + ' through ' + repr(p))
        oid = p.obj
        if isinstance(oid, str) and oid not in st.mem: self.gobj(st, oid[2:])
        o = st.mem.get(oid)
        if o is None:
            raise Fail('mem.null-deref' if oid == 0 else 'mem.dangling', what)
        if o.sa is not None and not isinstance(p.off, int):
            return o, p.off
        off = self.off(st, p.off)
        if off < 0 or off + size > o.size if o.sa is None else False:
            raise Fail('mem.out-of-bounds', '%s at offset %d size %d of %s[%d]' % (what, off, size, o.name, o.size))
        self.res.bounds += 1
        return o, off
    def load(self, st, p, ty):
        if not isinstance(ty, str):
            off0 = p.off
            if ty[0] == 's': return [self.load(st, self.padd(p, fo), ft) for fo, ft in ty[2:]]
            return [self.load(st, self.padd(p, i * ty[3]), ty[4]) for i in range(ty[2])]
        size = tysize(ty)
        o, off = self.resolve(st, p, size, 'load')
        if o.sa is not None: return self.sa_load(st, o, off, ty)
        return self.rawload(o, off, size, ty)
    def rawload(self, o, off, size, ty):
        c = o.cells.get(off)
        if c is not None and c[0] == size: return self.conv(c[1], ty)
        if c is None and not any(off - k in o.cells and o.cells[off - k][0] > k for k in range(1, 16)) \
           and not any(off + k in o.cells for k in range(1, size)):
            for (a, b) in o.zero:
                if a <= off and off + size <= b: return self.zero_of(ty)
            return UNDEF
        # byte-wise composition of concrete integers
        v = 0
        for i in range(size):
            b = self.byte(o, off + i)
            if b is None: return UNDEF
            v |= b << (8 * i)
        if ty in ('d',): return const(Fraction(struct.unpack('<d', struct.pack('<Q', v))[0]))
        if ty == 'p':
            if v == 0: return NULL
            raise Unsupported('pointer bytes')
        return wrap(v, size * 8)
    def byte(self, o, off):
        for k in range(0, 16):
            c = o.cells.get(off - k)
            if c is not None and c[0] > k:
                v = c[1]
                if v is UNDEF: return None
                if isinstance(v, Term) and v.sort == 'R' and isc(v) and c[0] == 8:
                    v = struct.unpack('<Q', struct.pack('<d', float(v.val)))[0]
                if isinstance(v, Ptr) and v is NULL: v = 0
                if isinstance(v, Term) and v.sort == 'I' and isc(v): v = v.val
                if not isinstance(v, int): raise Unsupported('byte access to symbolic value')
                return (v >> (8 * k)) & 255
        for (a, b) in o.zero:
            if a <= off < b: return 0
        return None
    def conv(self, v, ty):
        if ty in ('d', 'f'):
            if isinstance(v, int):
                if v == 0: return ZERO
                if ty == 'd': return const(Fraction(struct.unpack('<d', struct.pack('<q', v))[0]))
                return const(Fraction(struct.unpack('<f', struct.pack('<i', v))[0]))
            if v is NULL: return ZERO
        elif ty == 'p':
            if isinstance(v, int):
                if v == 0: return NULL
                return Ptr(0, v)
        return v
    def padd(self, p, k):
        if k == 0: return p
        if p is UNDEF: return UNDEF
        if not isinstance(p, Ptr): raise Fail('mem.bad-pointer', 'arithmetic on ' + repr(p))
        if isinstance(p.off, int) and isinstance(k, int): return Ptr(p.obj, p.off + k)
        t = add(iterm(p.off), iterm(k))
        v = simp_const(t)
        return Ptr(p.obj, int(v) if v is not None else t)
    def clear(self, o, off, size):
        cells = o.cells
        for k in range(off, off + size):
            c = cells.pop(k, None)
            if c is not None and k + c[0] > off + size: self.split(o, k, c, off, size)
        for k in range(off - 15, off):
            c = cells.get(k)
            if c is not None and k + c[0] > off: del cells[k]; self.split(o, k, c, off, size)
    def split(self, o, k, c, off, size):
        v = c[1]
        if v is UNDEF: return
        if isinstance(v, Term) and v.sort == 'R' and isc(v) and c[0] == 8:
            v = struct.unpack('<Q', struct.pack('<d', float(v.val)))[0]
        if v is NULL: v = 0
        if not isinstance(v, int): raise Unsupported('partial overwrite of symbolic value')
        for i in range(c[0]):
            if not (off <= k + i < off + size): o.cells[k + i] = (1, wrap((v >> (8 * i)) & 255, 8))
    def store(self, st, p, v, ty):
        if not isinstance(ty, str):
            if ty[0] == 's': items = [(fo, ft) for fo, ft in ty[2:]]
            else: items = [(i * ty[3], ty[4]) for i in range(ty[2])]
            if v is UNDEF: v = [UNDEF] * len(items)
            for (fo, ft), x in zip(items, v): self.store(st, self.padd(p, fo), x, ft)
            return
        size = tysize(ty)
        o, off = self.resolve(st, p, size, 'store')
        if o.sa is not None: return self.sa_store(st, p.obj, off, v, ty)
        if o.kind == 'global' and self.m.globals[o.name][1] and not self.in_ctor:
            raise Fail('mem.write-to-constant', o.name)
        o = self.wobj(st, p.obj)
        c = o.cells.get(off)
        if c is None or c[0] != size: self.clear(o, off, size)
        o.cells[off] = (size, v)
    def memset(self, st, p, b, n):
        if n == 0: return
        o, off = self.resolve(st, p, n, 'memset')
        o = self.wobj(st, p.obj)
        self.clear(o, off, n)
        if b == 0:
            o.zero = o.zero + ((off, off + n),)
        elif b is UNDEF: pass
        else:
            self.unzero(o, off, n)
            if n > 4096: raise Unsupported('large memset')
            for i in range(n): o.cells[off + i] = (1, b)
    def unzero(self, o, off, n):
        z = []
        for (a, b) in o.zero:
            if b <= off or a >= off + n: z.append((a, b)); continue
            if a < off: z.append((a, off))
            if b > off + n: z.append((off + n, b))
        o.zero = tuple(z)
    def memcpy(self, st, d, s, n):
        if n == 0: return
        so, soff = self.resolve(st, s, n, 'memcpy-read')
        do, doff = self.resolve(st, d, n, 'memcpy-write')
        cells = [(k - soff, c) for k, c in so.cells.items() if soff <= k and k + c[0] <= soff + n]
        part = [k for k, c in so.cells.items() if (k < soff < k + c[0]) or (k < soff + n < k + c[0])]
        if part: raise Unsupported('memcpy splitting a value')
        zr = [(max(a, soff) - soff, min(b, soff + n) - soff) for a, b in so.zero if a < soff + n and b > soff]
        do = self.wobj(st, d.obj)
        self.clear(do, doff, n); self.unzero(do, doff, n)
        for k, c in cells: do.cells[doff + k] = c
        if zr: do.zero = do.zero + tuple((a + doff, b + doff) for a, b in zr)
    def sa_load(self, st, o, off, ty): raise Unsupported('symbolic array')
    def sa_store(self, st, oid, off, v, ty): raise Unsupported('symbolic array')

    # ------------------------------------------------------------ deciding conditions
    def sign_key(self, st, n):
        """(orientation, key): sign(n) == orientation * sign(poly key)"""
        num = n.num; orient = 1
        nl = st.flags.get('nlskip')
        for f, e in n.den.items():
            if e % 2 == 0: continue
            m = st.facts.get(f)
            if m == 4: continue
            if m == 1: orient = -orient; continue
            if nl:
                sg = self.lin_sign(st, f)
                if sg:
                    orient *= sg; continue
            num = p_mul(num, dict(f))
        if nl and len(num) > 1 and len(num) < 400:
            num, o = self.strip_factors(st, num); orient *= o
        c, p = p_norm(num)
        if c < 0: orient = -orient
        return orient, p_key(p)
    def strip_factors(self, st, num):
        """divide out factors of known sign: common variables and scale factors seen in products"""
        orient = 1
        common = None
        for m in num:
            d = {v for v, _ in m}
            common = d if common is None else common & d
            if not common: break
        for v in common or ():
            f = p_key({((v, 1),): 1})
            sg = self.lin_sign(st, f)
            while sg:
                q = p_div(num, dict(f))
                if q is None: break
                num = q; orient *= sg
        for f in T.scales:
            if len(num) < 2: break
            fd = dict(f)
            q = p_div(num, fd)
            if q is None: continue
            sg = self.lin_sign(st, f)
            while q is not None and sg:
                num = q; orient *= sg; q = p_div(num, fd)
        return num, orient
    def lin_sign(self, st, f):
        """sign of the linear polynomial f when the path's linear facts imply it, else 0"""
        m = st.facts.get(f)
        if m == 4: return 1
        if m == 1: return -1
        if any(sum(e for _, e in m) > 1 for m, _ in f): return 0
        t = T.poly_term(f)
        if len(f) == 1:
            (mm, k), = f
            if mm:
                x = T._byid[-mm[0][0] - 1]
                if x.lo is not None and x.lo > 0 and k > 0: st.facts[f] = 4; return 1
        lin = self.linpc(st)
        r, _ = self.solver.check(lin, Cond('<=', t, const(0)))
        if r == 'unsat': st.facts[f] = 4; return 1
        r, _ = self.solver.check(lin, Cond('<=', const(0), t))
        if r == 'unsat': st.facts[f] = 1; return -1
        return 0
    @staticmethod
    def relmask(rel):
        return {'<': 1, '<=': 3, '==': 2, '!=': 5}[rel]
    @staticmethod
    def flipmask(m):
        return (m & 2) | ((m & 1) << 2) | ((m & 4) >> 2)
    def decide(self, st, c):
        """True/False if determined by facts; None otherwise. Returns (verdict, key, mask)"""
        n = c.diff()
        k = nf_const(n)
        if k is not None:
            return {'<': k < 0, '<=': k <= 0, '==': k == 0, '!=': k != 0}[c.rel], None, None
        o, key = self.sign_key(st, n)
        want = self.relmask(c.rel)
        if o < 0: want = self.flipmask(want)
        cur = st.facts.get(key, 7)
        if cur & want == 0: return False, key, want
        if cur & ~want == 0: return True, key, want
        return None, key, want
    def assume(self, st, c, check=False):
        """add c to the path; returns False if it is syntactically contradictory"""
        v, key, want = self.decide(st, c)
        if v is False: return False
        if v is True and key is None: return True
        if v is None:
            st.facts[key] = st.facts.get(key, 7) & want
            self.add_pc(st, c)
        return True
    def add_pc(self, st, c):
        st.pc.append(c); st.subst = None
        if st.flags.get('nlskip'): self.linpc(st)
        if st.model is not None:
            try:
                if not evalc(c, st.model, {}): st.model = None
            except EvalFail: st.model = None
    def force(self, st, c):
        """concrete truth value of c on this path, forking if both are possible"""
        if c is True or c is False: return c
        if c is UNDEF: raise Fail('mem.uninit-branch', 'branch or select on an uninitialised value')
        if isinstance(c, int): return bool(c & 1)
        if isinstance(c, Term):
            if c.sort == 'I': return self.force(st, Cond('!=', c, I0))
            raise Unsupported('bool term')
        v, key, want = self.decide(st, c)
        if v is not None: return v
        nc = c.neg()
        pc = st.pc
        if st.flags.get('nlskip'):
            cl, ncl = self.linear(st, c), self.linear(st, nc)
            if cl is None: raise Fork(c)
            pc = self.linpc(st)
        else: cl, ncl = c, nc
        mv = None
        if st.model is not None:
            try: mv = evalc(c, st.model, {})
            except EvalFail: mv = None
        if mv is None or mv is False:
            r, m = self.solver.check(pc, cl)
            if r == 'unsat':
                st.facts[key] = st.facts.get(key, 7) & ~want & 7
                return False
            if m is not None: mt = m
            else: mt = None
        else: mt = st.model
        if mv is None or mv is True:
            r, m = self.solver.check(pc, ncl)
            if r == 'unsat':
                st.facts[key] = st.facts.get(key, 7) & want
                return True
            mf = m
        else: mf = st.model
        f = Fork(c); f.mt, f.mf = mt, mf
        raise f
    def linpc(self, st):
        """the path condition with nonlinear monomials abstracted (facts known when each conjunct was added)"""
        L = st.lin
        while len(L) < len(st.pc):
            L.append(None); i = len(L) - 1
            L[i] = self.linear(st, st.pc[i])
        return [q for q in L if q is not None]
    def linear(self, st, c):
        """c with its nonlinear monomials abstracted to fresh variables; None when it is dropped"""
        if not self.res_nlskip(st, c): return c
        n = c.diff()
        if len(n.num) > 400: return None
        o, key = self.sign_key(st, n)
        if len(key) > 24: return None
        t = const(0)
        for m, k in key:
            a = const(k)
            if len(m) == 1 and m[0][1] == 1:
                x = T._byid[-m[0][0] - 1]; a = mul(a, toreal(x) if x.sort == 'I' else x)
            elif m: a = mul(a, T.var('mono%r' % (m,)))
            t = add(t, a)
        if o > 0: return Cond(c.rel, t, const(0))
        return Cond(c.rel, const(0), t)
    def lin_round(self, st, v, up):
        """the integer ceil(v) (floor(v)) when the path's linearised facts determine it, else None"""
        n = nf(v)
        if n.den or len(n.num) > 24: return None
        t = const(0)
        for m, k in n.num.items():
            a = const(k)
            if len(m) == 1 and m[0][1] == 1:
                x = T._byid[-m[0][0] - 1]; a = mul(a, toreal(x) if x.sort == 'I' else x)
            elif m: a = mul(a, T.var('mono%r' % (m,)))
            t = add(t, a)
        lin = self.linpc(st); y = T.var('round%d' % t.id)
        r, mo = self.solver.check(lin, Cond('==', y, t))
        if r != 'sat' or mo is None or y not in mo: return None
        k = mo[y].__ceil__() if up else mo[y].__floor__()
        for c in ([Cond('<=', t, const(k - 1)), Cond('<', const(k), t)] if up else [Cond('<', t, const(k)), Cond('<=', const(k + 1), t)]):
            r, _ = self.solver.check(lin, c)
            if r != 'unsat': return None
        return k
    def res_nlskip(self, st, c):
        k = st.flags.get('nlskip')
        if not k: return False
        if c._nl is not None and c._nl[0] == k: return c._nl[1]
        n = c.diff()
        deg = max((sum(e for _, e in m) for m in n.num), default=0)
        r = deg > k or len(n.den) > 0 and deg + len(n.den) > k
        c._nl = (k, r); return r

    # ------------------------------------------------------------ discharging obligations
    def subst_zero(self, st, num):
        """substitute the path's linear equalities into the polynomial num"""
        if st.subst is None:
            sub_ = []
            eqs = [c for c in st.pc if c.rel == '==']
            for key, mask in st.facts.items():
                if mask == 2: eqs.append(key)
            for c in eqs:
                p = dict(c) if isinstance(c, tuple) else c.diff().num
                for (v, rep) in sub_: p = psub(p, v, rep)
                cand = None
                for m in p:
                    if len(m) == 1 and m[0][1] == 1 and not any(mm != m and any(x == m[0][0] for x, _ in mm) for mm in p):
                        cand = m; break
                if cand is None: continue
                v = cand[0][0]; k = p[cand]
                rep = {m: _i(-Fraction(cc) / k) for m, cc in p.items() if m != cand}
                sub_ = [(w, psub(r, v, rep)) for w, r in sub_] + [(v, rep)]
            st.subst = sub_
        for v, rep in st.subst: num = psub(num, v, rep)
        return num
    def check_cond(self, st, c, name):
        """obligation: c holds on this path for all inputs"""
        res = self.res; st.checks += 1
        if c is UNDEF:
            res.rec(name, False, 'const'); self.fail(st, name, 'condition is uninitialised', None); return
        if isinstance(c, (bool, int)):
            if c: res.rec(name, True, 'const'); return
            self.prove_unreachable(st, name, 'condition is false'); return
        v, key, want = self.decide(st, c)
        if v is True: res.rec(name, True, 'normal-form'); return
        if v is False:
            self.prove_unreachable(st, name, '%r' % c); return
        if c.rel == '==':
            if not self.subst_zero(st, c.diff().num): res.rec(name, True, 'normal-form+equalities'); return
        else:
            num = self.subst_zero(st, c.diff().num)
        self.solve_goal(st, c.neg(), name, '%r' % c)
    def prove_unreachable(self, st, name, detail):
        self.solve_goal(st, None, name, detail)
    def solve_goal(self, st, bad, name, detail):
        """pc and bad must be unsatisfiable"""
        res = self.res
        if bad is None and st.model is not None and self.model_ok(st, st.model, None):
            res.rec(name, False, 'model'); self.fail(st, name, detail, st.model); return
        if bad is not None and st.model is not None:
            try:
                if evalc(bad, st.model, {}) and self.model_ok(st, st.model, bad):
                    res.rec(name, False, 'model'); self.fail(st, name, detail, st.model); return
            except EvalFail: pass
        if st.flags.get('nlskip'):
            r, m = self.solver.check(self.linpc(st), self.linear(st, bad) if bad is not None else None)
            if r == 'unsat': res.rec(name, True, 'z3'); return
            if m is not None and self.model_ok(st, m, bad):
                res.rec(name, False, 'model'); self.fail(st, name, detail, m); return
            if os.environ.get('VS_DEBUG'): print('GOAL', name, detail[:3000], '\n', [repr(c)[:300] for c in st.pc], file=sys.stderr)
        r, m = self.solver.check(st.pc, bad)
        if r == 'unsat': res.rec(name, True, 'z3'); return
        if r == 'sat' and m is not None and self.model_ok(st, m, bad):
            res.rec(name, False, 'z3'); self.fail(st, name, detail, m); return
        full = list(st.pc) + ([bad] if bad is not None else [])
        for (pure, nl, to) in ((True, True, 15000), (False, False, 15000), (True, False, 15000)):
            r, m = self.solver.exact(st.pc, bad, to, nl, pure)
            if r == 'unsat': res.rec(name, True, 'z3-nlsat' if nl else 'z3-exact'); return
            if r == 'sat':
                if m is not None and self.model_ok(st, m, bad):
                    res.rec(name, False, 'z3'); self.fail(st, name, detail, m); return
                if not pure:
                    # a definite counterexample in the theory, not a rational point
                    res.rec(name, False, 'z3'); self.fail(st, name, detail, m); return
        res.unk(name, 'solver: ' + r + ' ' + detail[:200])
        self.note_hint(st)
    def model_ok(self, st, m, bad):
        try:
            memo = {}
            for c in st.pc:
                if not evalc(c, m, memo): return False
            if bad is not None and not evalc(bad, m, memo): return False
            return True
        except EvalFail:
            # atoms without an evaluation (uninterpreted functions): trust the solver's values
            try:
                mm = dict(m); memo = {}
                for c in st.pc:
                    if not evalc(c, mm, memo): return False
                return bad is None or evalc(bad, mm, memo)
            except EvalFail:
                return False
    def inputs_of(self, st, m):
        out = []
        for nm, t in st.inputs:
            if isinstance(t, Term):
                try: v = evalt(t, m, {}) if m else None
                except EvalFail: v = None
                if v is None: v = 0
                out.append([nm, str(v)])
            else: out.append([nm, str(t)])
        return out
    def note_hint(self, st): pass
    def fail(self, st, name, detail, m):
        res = self.res
        if len(res.failures) < 8:
            fr = st.frames[-1] if st.frames else None
            where = []
            for f in reversed(st.frames):
                try: ln = f.fn.blocks[f.blk][f.ip][3]
                except Exception: ln = 0
                where.append('%s (%s:%s)' % (f.fn.dem[:160], f.fn.file, ln))
            res.failures.append(dict(obligation=name, detail=detail[:600], inputs=self.inputs_of(st, m),
                                     where=where[:6], model=bool(m), path=[repr(c)[:160] for c in st.pc[-12:]]))

    # ------------------------------------------------------------ running
    def run(self, entry):
        res = self.res = Result(entry)
        t0 = time.time()
        st = self.base.clone()
        self.in_ctor = True
        for c in self.m.ctors:
            try:
                st2 = st.clone()
                self.push(st2, self.m.fn(c), [], None)
                self.loop(st2, [])
                st = st2
            except (Unsupported, Fail, Fork, Enum, PathEnd): pass
            st.frames = []
        self.in_ctor = False
        st.frames = []; st.pc = []; st.lin = []; st.facts = {}; st.steps = 0
        self.push(st, self.m.fn(entry), [], None)
        st.model = {}
        work = [st]
        nfail = 0
        self.t_end = t0 + self.budget['time']
        try:
            while work:
                st = work.pop()
                if time.time() > self.t_end or res.paths > self.budget['paths']:
                    res.unk('budget', 'path or time budget exhausted (%d paths)' % res.paths); break
                res.paths += 1
                try:
                    self.loop(st, work)
                    res.done += 1
                except PathEnd as e:
                    if e.why == 'assume': res.assumed_out += 1
                    elif e.why == 'throw':
                        res.throws += 1
                        if st.allow_throw: res.rec('no-throw', True, 'const')
                        else: self.prove_unreachable(st, 'no-throw', 'exception thrown')
                    elif e.why == 'fork': res.paths -= 1
                except Fail as e:
                    self.prove_unreachable(st, e.name, e.detail)
                except Unsupported as e:
                    fr = st.frames[-1]
                    # an infeasible path need not be supported
                    r, _ = self.solver.check(st.pc)
                    if r != 'unsat':
                        res.unk('unsupported', '%s in %s' % (e, fr.fn.dem[:120]))
                        if len(res.unknowns) > 15: break
                except OutOfBudget:
                    res.unk('budget', 'step budget exhausted in ' + st.frames[-1].fn.dem[:120])
                    if len(res.unknowns) > 15: break
                if len(res.failures) >= self.budget['fails']: break
        finally:
            res.time = time.time() - t0; res.solver_time = self.solver.time; res.queries = self.solver.queries
        return res

    def push(self, st, fn, args, dst, byval=None):
        fr = Frame()
        fr.fn = fn; fr.blk = 0; fr.ip = 0; fr.prev = None; fr.dst = dst; fr.allocas = []; fr.nblk = None
        fr.regs = {}
        for i, a in enumerate(args[:fn.nargs]):
            if byval and byval[i]:
                oid = self.alloc(st, byval[i], fn.name + '.byval', 'stack')
                fr.allocas.append(oid)
                self.memcpy(st, Ptr(oid, 0), a, byval[i])
                a = Ptr(oid, 0)
            fr.regs[i] = a
        st.frames.append(fr)
        if len(st.frames) > 400: raise Unsupported('recursion too deep')
        self.res.funcs.add(fn.name)

    def decode(self, fn, b, i):
        key = (b, i)
        d = fn.dec.get(key)
        if d is None:
            I = fn.blocks[b][i]
            d = fn.dec[key] = self.dec1(I)
        return d
    def opd(self, x):
        if isinstance(x, int): return x
        return K(self.cval(None, x))
    def dec1(self, I):
        op, rid, ty, line = I[0], I[1], I[2], I[3]
        a = I[4:]
        h = getattr(self, 'x_' + op, None)
        if h is None: raise Unsupported('instruction ' + op)
        if op in ('fadd', 'fsub', 'fmul', 'fdiv', 'add', 'sub', 'mul', 'udiv', 'sdiv', 'urem', 'srem', 'shl', 'lshr', 'ashr', 'and', 'or', 'xor', 'frem'):
            bits = int(ty[1:]) if isinstance(ty, str) and ty[0] == 'i' else 0
            return h, rid, (bits, a[0], self.opd(a[1]), self.opd(a[2]), ty)
        if op == 'fneg' or op == 'freeze': return h, rid, (self.opd(a[0]),)
        if op in ('icmp', 'fcmp'): return h, rid, (a[0], self.opd(a[1]), self.opd(a[2]), a[3])
        if op == 'br':
            if a[0] is None: return h, rid, (None, a[1], None)
            return h, rid, (self.opd(a[0]), a[1], a[2])
        if op == 'switch': return h, rid, (self.opd(a[0]), a[1], a[2])
        if op == 'load': return h, rid, (self.opd(a[0]), ty)
        if op == 'store': return h, rid, (self.opd(a[0]), self.opd(a[1]), a[2])
        if op == 'getelementptr': return h, rid, (self.opd(a[0]), a[1], [(self.opd(x), s) for x, s in a[2]])
        if op == 'phi': return h, rid, ({b: self.opd(v) for v, b in a[0]},)
        if op == 'alloca': return h, rid, (a[0], self.opd(a[1]))
        if op == 'ret': return h, rid, (self.opd(a[0]) if a else None,)
        if op == 'select': return h, rid, (self.opd(a[0]), self.opd(a[1]), self.opd(a[2]))
        if op in ('call', 'invoke'):
            f = a[0]
            return h, rid, (f if isinstance(f, str) else self.opd(f), [self.opd(x) for x in a[1]], a[2], ty, a[3] if op == 'invoke' else None)
        if op == 'extractvalue': return h, rid, (self.opd(a[0]), a[1])
        if op == 'insertvalue': return h, rid, (self.opd(a[0]), self.opd(a[1]), a[2], ty)
        if op == 'extractelement': return h, rid, (self.opd(a[0]), self.opd(a[1]))
        if op == 'insertelement': return h, rid, (self.opd(a[0]), self.opd(a[1]), self.opd(a[2]), ty)
        if op == 'shufflevector': return h, rid, (self.opd(a[0]), self.opd(a[1]), a[2])
        if op == 'unreachable': return h, rid, ()
        # casts
        return h, rid, (self.opd(a[0]), a[1], ty)

    def loop(self, st, work):
        frames = st.frames
        maxsteps = self.budget['steps']
        n = 0
        while frames:
            fr = frames[-1]
            d = fr.fn.dec.get((fr.blk, fr.ip))
            if d is None: d = self.decode(fr.fn, fr.blk, fr.ip)
            n += 1
            st.steps += 1; self.res.steps += 1
            if st.steps > maxsteps: raise OutOfBudget()
            if n & 4095 == 0 and hasattr(self, 't_end') and time.time() > self.t_end: raise OutOfBudget()
            try:
                d[0](st, fr, d[1], *d[2])
            except Fork as f:
                if self.in_ctor: raise
                c = f.cond; nc = c.neg()
                s2 = st.clone()
                frames = st.frames
                ok1 = self.assume(st, c); ok2 = self.assume(s2, nc)
                mt = getattr(f, 'mt', None); mf = getattr(f, 'mf', None)
                if mt is not None: st.model = mt
                if mf is not None: s2.model = mf
                if ok2: work.append(s2)
                if not ok1: raise PathEnd('fork')
            except Enum as e:
                if self.in_ctor: raise
                self.enumerate(st, e.term, work)
                raise PathEnd('fork')

    def enumerate(self, st, t, work):
        """fork on all feasible values of the Int term t"""
        self.res.enum += 1
        seen = []
        pc = list(st.pc)
        self.solver.form(Cond('<=', t, t))
        lo, hi = rng(t)
        if t.op == 'var' and lo is not None and hi is not None and hi - lo < 64:
            fresh = not any(t in vars_of(c.a) or t in vars_of(c.b) for c in pc)
            for v in range(lo, hi + 1):
                if fresh: seen.append((v, None)); continue
                r, m = self.solver.check(pc, Cond('==', t, const(v, 'I')))
                if r != 'unsat': seen.append((v, m))
            pc = None
        for _ in range(80 if pc is not None else 0):
            r, m = self.solver.check(pc)
            if r == 'unsat': break
            v = None
            if m is not None:
                try: v = evalt(t, m, {})
                except EvalFail: v = None
                if v is not None and any(v == w for w, _ in seen): v = None
            if v is None:
                r, m = self.solver.exact(pc, Cond('==', t, t) if not pc else pc[-1], 10000, False, False)
                if r == 'unsat': break
                if m is None: raise Unsupported('cannot enumerate index')
                try: v = evalt(t, m, {})
                except EvalFail: raise Unsupported('cannot enumerate index')
                if any(v == w for w, _ in seen): raise Unsupported('cannot enumerate index')
            v = int(v)
            seen.append((v, m))
            pc.append(Cond('!=', t, const(v, 'I')))
        else:
            if pc is not None: raise Unsupported('too many index values')
        for v, m in seen:
            s2 = st.clone()
            if not self.assume(s2, Cond('==', t, const(v, 'I'))): continue
            s2.names[('ival', t.id)] = v
            s2.model = m
            work.append(s2)

    def cint(self, st, v):
        """concrete integer value (forking by enumeration)"""
        if isinstance(v, int): return v
        if v is UNDEF: raise Fail('mem.uninit-value', 'uninitialised integer used')
        if isinstance(v, Cond): return 1 if self.force(st, v) else 0
        if isinstance(v, Term):
            k = simp_const(v)
            if k is not None: return int(k)
            k = self.known_value(st, v)
            if k is not None: return k
            raise Enum(v)
        if isinstance(v, Ptr) and v.obj == 0: return v.off
        raise Unsupported('integer ' + repr(v))

    # ------------------------------------------------------------ instructions
    def nxt(self, fr): fr.ip += 1
    def x_br(self, st, fr, rid, c, a, b):
        if c is None: t = a
        else:
            v = fr.regs[c] if type(c) is int else c.v
            t = a if (v if type(v) is bool else self.force(st, v)) else b
        self.goto(st, fr, t)
    def goto(self, st, fr, t):
        fr.prev = fr.blk
        # phis are evaluated simultaneously
        blk = fr.fn.blocks[t]
        ip = 0; vals = []
        prev = fr.prev
        regs = fr.regs
        while ip < len(blk) and blk[ip][0] == 'phi':
            d = fr.fn.dec.get((t, ip)) or self.decode(fr.fn, t, ip)
            x = d[2][0][prev]
            vals.append((d[1], regs.get(x, UNDEF) if type(x) is int else x.v)); ip += 1
        for r, v in vals: regs[r] = v
        fr.blk = t; fr.ip = ip
    def x_phi(self, *a): raise Unsupported('phi')
    def x_switch(self, st, fr, rid, c, dflt, cases):
        v = fr.regs[c] if type(c) is int else c.v
        if isinstance(v, Term) and simp_const(v) is None and self.known_value(st, v) is None:
            for k, t in cases:
                if self.force(st, self.mkcond('==', v, const(k, 'I'))): self.goto(st, fr, t); return
            self.goto(st, fr, dflt); return
        v = self.cint(st, v)
        for k, t in cases:
            if k == v: self.goto(st, fr, t); return
        self.goto(st, fr, dflt)
    def x_ret(self, st, fr, rid, x):
        v = None
        if x is not None: v = fr.regs[x] if type(x) is int else x.v
        for o in fr.allocas:
            st.mem.pop(o, None)
        st.frames.pop()
        if st.frames:
            c = st.frames[-1]
            if fr.dst is not None: c.regs[fr.dst] = v
            if fr.nblk is not None: self.goto(st, c, fr.nblk)
            else: c.ip += 1
    def x_unreachable(self, st, fr, rid):
        raise Fail('mem.unreachable-reached', 'unreachable')
    def x_alloca(self, st, fr, rid, size, n):
        n = fr.regs[n] if type(n) is int else n.v
        oid = self.alloc(st, size * self.cint(st, n), '%s.%d' % (fr.fn.name[:60], rid), 'stack')
        fr.allocas.append(oid)
        fr.regs[rid] = Ptr(oid, 0); fr.ip += 1
    def x_load(self, st, fr, rid, p, ty):
        p = fr.regs[p] if type(p) is int else p.v
        fr.regs[rid] = self.load(st, p, ty); fr.ip += 1
    def x_store(self, st, fr, rid, v, p, ty):
        v = fr.regs[v] if type(v) is int else v.v
        p = fr.regs[p] if type(p) is int else p.v
        if type(v) is Cond: v = 1 if self.force(st, v) else 0
        self.store(st, p, v, ty); fr.ip += 1
    def x_getelementptr(self, st, fr, rid, p, c, idx):
        p = fr.regs[p] if type(p) is int else p.v
        o = c
        for x, s in idx:
            v = fr.regs[x] if type(x) is int else x.v
            if type(v) is int and type(o) is int: o += v * s
            elif v is UNDEF: raise Fail('mem.uninit-value', 'uninitialised index')
            else:
                if isinstance(v, Cond): v = 1 if self.force(st, v) else 0
                if isinstance(v, Ptr): raise Unsupported('pointer as index')
                o = add(iterm(o), mul(iterm(v), const(s, 'I')))
        if isinstance(o, Term):
            k = simp_const(o)
            if k is not None: o = int(k)
        fr.regs[rid] = self.padd(p, o); fr.ip += 1
    def x_select(self, st, fr, rid, c, a, b):
        v = fr.regs[c] if type(c) is int else c.v
        t = v if type(v) is bool else self.force(st, v)
        x = a if t else b
        fr.regs[rid] = fr.regs[x] if type(x) is int else x.v; fr.ip += 1
    def x_freeze(self, st, fr, rid, x):
        v = fr.regs[x] if type(x) is int else x.v
        fr.regs[rid] = v; fr.ip += 1
    def x_extractvalue(self, st, fr, rid, x, idx):
        v = fr.regs[x] if type(x) is int else x.v
        for i in idx: v = UNDEF if v is UNDEF else v[i]
        fr.regs[rid] = v; fr.ip += 1
    def x_insertvalue(self, st, fr, rid, x, y, idx, ty):
        v = fr.regs[x] if type(x) is int else x.v
        w = fr.regs[y] if type(y) is int else y.v
        def ins(v, ty, idx):
            if not idx: return w
            if ty[0] == 's': n = len(ty) - 2; sub = ty[2 + idx[0]][1]
            else: n = ty[2]; sub = ty[4]
            v = [UNDEF] * n if v is UNDEF else list(v)
            v[idx[0]] = ins(v[idx[0]], sub, idx[1:])
            return v
        fr.regs[rid] = ins(v, ty, idx); fr.ip += 1
    def x_extractelement(self, st, fr, rid, x, i):
        v = fr.regs[x] if type(x) is int else x.v
        i = self.cint(st, fr.regs[i] if type(i) is int else i.v)
        fr.regs[rid] = UNDEF if v is UNDEF else v[i]; fr.ip += 1
    def x_insertelement(self, st, fr, rid, x, y, i, ty):
        v = fr.regs[x] if type(x) is int else x.v
        w = fr.regs[y] if type(y) is int else y.v
        i = self.cint(st, fr.regs[i] if type(i) is int else i.v)
        v = [UNDEF] * ty[2] if v is UNDEF else list(v)
        v[i] = w
        fr.regs[rid] = v; fr.ip += 1
    def x_shufflevector(self, st, fr, rid, x, y, mask):
        v = fr.regs[x] if type(x) is int else x.v
        w = fr.regs[y] if type(y) is int else y.v
        n = len(v) if v is not UNDEF else len(w)
        v = [UNDEF] * n if v is UNDEF else v
        w = [UNDEF] * n if w is UNDEF else w
        al = list(v) + list(w)
        fr.regs[rid] = [UNDEF if m < 0 else al[m] for m in mask]; fr.ip += 1

    # integers
    def ibin(self, st, fr, rid, bits, fl, x, y, op):
        a = fr.regs[x] if type(x) is int else x.v
        b = fr.regs[y] if type(y) is int else y.v
        fr.regs[rid] = self.iop(st, op, a, b, bits, fl)
        fr.ip += 1
    def inorm(self, st, t, bits, fl):
        k = simp_const(t)
        if k is not None: return wrap(int(k), bits)
        lo, hi = rng(t)
        L, H = -(1 << (bits - 1)), (1 << (bits - 1)) - 1
        if lo is not None and hi is not None and L <= lo and hi <= H: return t
        if fl & 1: return t
        # need the path to exclude (or fork on) wrap-around
        if lo is None or lo < L:
            if self.force(st, Cond('<', t, const(L, 'I'))):
                return self.inorm2(st, add(t, const(1 << bits, 'I')), bits)
        if hi is None or hi > H:
            if self.force(st, Cond('<', const(H, 'I'), t)):
                return self.inorm2(st, sub(t, const(1 << bits, 'I')), bits)
        return t
    def inorm2(self, st, t, bits): return t
    def iop(self, st, op, a, b, bits, fl):
        if a is UNDEF or b is UNDEF: return UNDEF
        if isinstance(a, list):
            if b is UNDEF: return UNDEF
            return [self.iop(st, op, p, q, bits, fl) for p, q in zip(a, b)]
        if bits == 1:
            if op in ('and', 'or', 'xor'):
                va = self.force(st, a)
                if op == 'and': return b if va else False
                if op == 'or': return True if va else b
                if not va: return b
                if isinstance(b, Cond): return b.neg()
                return not self.force(st, b)
        if isinstance(a, Cond): a = 1 if self.force(st, a) else 0
        if isinstance(b, Cond): b = 1 if self.force(st, b) else 0
        if isinstance(a, bool): a = int(a)
        if isinstance(b, bool): b = int(b)
        if isinstance(a, int) and isinstance(b, int):
            M = (1 << bits) - 1
            if op == 'add': r = a + b
            elif op == 'sub': r = a - b
            elif op == 'mul': r = a * b
            elif op == 'and': r = a & b
            elif op == 'or': r = a | b
            elif op == 'xor': r = a ^ b
            elif op == 'shl': r = a << (b & M)
            elif op == 'lshr': r = (a & M) >> (b & M)
            elif op == 'ashr': r = a >> (b & M)
            else:
                if b == 0: raise Fail('arith.div-by-zero', 'integer division by zero')
                if op == 'udiv': r = (a & M) // (b & M)
                elif op == 'urem': r = (a & M) % (b & M)
                else:
                    q = abs(a) // abs(b)
                    if (a < 0) != (b < 0): q = -q
                    r = q if op == 'sdiv' else a - q * b
            return wrap(r, bits)
        # pointers
        if isinstance(a, Ptr) or isinstance(b, Ptr):
            if op == 'sub' and isinstance(a, Ptr) and isinstance(b, Ptr):
                if a.obj == b.obj:
                    t = sub(iterm(a.off), iterm(b.off)); k = simp_const(t)
                    return int(k) if k is not None else t
                return wrap(self.addr(a) - self.addr(b), 64)
            if op == 'add' and isinstance(a, Ptr) and not isinstance(b, Ptr): return self.padd(a, b)
            if op == 'add' and isinstance(b, Ptr) and not isinstance(a, Ptr): return self.padd(b, a)
            if op == 'sub' and isinstance(a, Ptr) and not isinstance(b, Ptr): return self.padd(a, sub(I0, iterm(b)) if isinstance(b, Term) else -b)
            if isinstance(a, Ptr): a = self.addr(a)
            if isinstance(b, Ptr): b = self.addr(b)
            return self.iop(st, op, a, b, bits, fl)
        if (isinstance(a, Term) and a.sort == 'R') or (isinstance(b, Term) and b.sort == 'R') or isinstance(a, Special):
            raise Unsupported('integer op on double bits')
        ta, tb = iterm(a), iterm(b)
        if op == 'add': return self.inorm(st, add(ta, tb), bits, fl)
        if op == 'sub': return self.inorm(st, sub(ta, tb), bits, fl)
        if op == 'mul': return self.inorm(st, mul(ta, tb), bits, fl)
        if op == 'shl' and isinstance(b, int): return self.inorm(st, mul(ta, const(1 << b, 'I')), bits, fl)
        if op in ('sdiv', 'udiv', 'ashr', 'lshr', 'srem', 'urem') and isinstance(b, int) and (b > 0 or op in ('ashr', 'lshr')):
            k = (1 << b) if op in ('ashr', 'lshr') else b
            n = nf(ta)
            if not n.den and all(isinstance(c, int) and c % k == 0 for c in n.num.values()):
                if op in ('srem', 'urem'): return 0
                q = self.exact_div(ta, k)
                if q is not None: return q
            lo, hi = rng(ta)
            if lo is None or lo < 0:
                if self.force(st, Cond('<', ta, I0)):
                    if op == 'ashr': return T._mk('idiv', (ta, const(k, 'I')), 'I')
                    raise Unsupported('division of negative symbolic integer')
            if op in ('srem', 'urem'):
                t = T._mk('imod', (ta, const(k, 'I')), 'I'); return t
            t = T._mk('idiv', (ta, const(k, 'I')), 'I')
            if hi is not None: t.lo, t.hi = 0, hi // k
            return t
        if op == 'and' and isinstance(b, int) and b >= 0 and (b & (b + 1)) == 0:
            lo, hi = rng(ta)
            if lo is not None and lo >= 0 and hi is not None and hi <= b: return ta
            return T._mk('imod', (ta, const(b + 1, 'I')), 'I')
        if op in ('sdiv', 'udiv', 'srem', 'urem') and st.flags.get('uf') and isinstance(b, Term):
            return T.uf('int_' + op, (ta, tb), 'I')     # any function of the two operands: the identity asked for must hold for all of them
        # fall back to enumeration of a symbolic operand
        if isinstance(b, Term): b = self.cint(st, b)
        if isinstance(a, Term): a = self.cint(st, a)
        return self.iop(st, op, a, b, bits, fl)
    def exact_div(self, t, k):
        n = nf(t)
        r = I0
        for m, c in n.num.items():
            x = const(c // k, 'I')
            for v, e in m:
                a = T._byid[-v - 1]
                for _ in range(e): x = mul(x, a)
            r = add(r, x)
        return r
    def addr(self, p):
        if isinstance(p.off, Term): raise Unsupported('address of symbolic pointer')
        if p.obj == 0: return p.off
        if isinstance(p.obj, str):
            return ((abs(hash_str(p.obj)) & 0xffff) << 24 | 1 << 44) + p.off
        return (p.obj << 28 | 1 << 45) + p.off
    def x_add(self, st, fr, rid, bits, fl, x, y, ty):
        a = fr.regs[x] if type(x) is int else x.v
        b = fr.regs[y] if type(y) is int else y.v
        if type(a) is int and type(b) is int: fr.regs[rid] = wrap(a + b, bits)
        else: fr.regs[rid] = self.iop(st, 'add', a, b, bits, fl)
        fr.ip += 1
    def x_sub(self, st, fr, rid, bits, fl, x, y, ty): self.ibin(st, fr, rid, bits, fl, x, y, 'sub')
    def x_mul(self, st, fr, rid, bits, fl, x, y, ty): self.ibin(st, fr, rid, bits, fl, x, y, 'mul')
    def x_udiv(self, st, fr, rid, bits, fl, x, y, ty): self.ibin(st, fr, rid, bits, fl, x, y, 'udiv')
    def x_sdiv(self, st, fr, rid, bits, fl, x, y, ty): self.ibin(st, fr, rid, bits, fl, x, y, 'sdiv')
    def x_urem(self, st, fr, rid, bits, fl, x, y, ty): self.ibin(st, fr, rid, bits, fl, x, y, 'urem')
    def x_srem(self, st, fr, rid, bits, fl, x, y, ty): self.ibin(st, fr, rid, bits, fl, x, y, 'srem')
    def x_shl(self, st, fr, rid, bits, fl, x, y, ty): self.ibin(st, fr, rid, bits, fl, x, y, 'shl')
    def x_lshr(self, st, fr, rid, bits, fl, x, y, ty): self.ibin(st, fr, rid, bits, fl, x, y, 'lshr')
    def x_ashr(self, st, fr, rid, bits, fl, x, y, ty): self.ibin(st, fr, rid, bits, fl, x, y, 'ashr')
    def x_and(self, st, fr, rid, bits, fl, x, y, ty): self.ibin(st, fr, rid, bits, fl, x, y, 'and')
    def x_or(self, st, fr, rid, bits, fl, x, y, ty): self.ibin(st, fr, rid, bits, fl, x, y, 'or')
    def x_xor(self, st, fr, rid, bits, fl, x, y, ty): self.ibin(st, fr, rid, bits, fl, x, y, 'xor')

    def x_icmp(self, st, fr, rid, pred, x, y, ty):
        a = fr.regs[x] if type(x) is int else x.v
        b = fr.regs[y] if type(y) is int else y.v
        fr.regs[rid] = self.icmp(st, pred, a, b, ty); fr.ip += 1
    def icmp(self, st, pred, a, b, ty):
        if a is UNDEF or b is UNDEF: return UNDEF
        if isinstance(a, Cond): a = self.force(st, a)
        if isinstance(b, Cond): b = self.force(st, b)
        if isinstance(a, Ptr) or isinstance(b, Ptr):
            if not isinstance(a, Ptr): a = Ptr(0, a) if isinstance(a, int) else a
            if not isinstance(b, Ptr): b = Ptr(0, b) if isinstance(b, int) else b
            if not isinstance(a, Ptr) or not isinstance(b, Ptr): raise Unsupported('pointer/int compare')
            if a.obj == b.obj: a, b = a.off, b.off; 
            elif pred in ('eq', 'ne'): return pred == 'ne'
            else: a, b = self.addr(a), self.addr(b)
            if pred[0] == 'u': pred = 's' + pred[1:]
        if isinstance(a, int) and isinstance(b, int):
            a, b = int(a), int(b)
            if pred == 'eq': return a == b
            if pred == 'ne': return a != b
            if pred[0] == 'u':
                bits = 64 if ty == 'p' else int(ty[1:])
                a &= (1 << bits) - 1; b &= (1 << bits) - 1
            r = pred[1:]
            return a < b if r == 'lt' else a <= b if r == 'le' else a > b if r == 'gt' else a >= b
        if isinstance(a, (Special,)) or isinstance(b, Special): raise Unsupported('icmp on double bits')
        ta, tb = iterm(a), iterm(b)
        if ta.sort == 'R' or tb.sort == 'R': raise Unsupported('icmp on double bits')
        if pred in ('eq', 'ne'): return self.mkcond('==' if pred == 'eq' else '!=', ta, tb)
        if pred[0] == 'u':
            sa = self.nonneg(st, ta); sb = self.nonneg(st, tb)
            if sa != sb:
                # negative (as unsigned: huge) against non-negative
                lt = sa            # a < b  iff a nonneg and b "huge"
                r = pred[1:]
                return lt if r in ('lt', 'le') else not lt
        r = pred[1:]
        if r == 'lt': return self.mkcond('<', ta, tb)
        if r == 'le': return self.mkcond('<=', ta, tb)
        if r == 'gt': return self.mkcond('<', tb, ta)
        return self.mkcond('<=', tb, ta)
    def nonneg(self, st, t):
        lo, hi = rng(t)
        if lo is not None and lo >= 0: return True
        if hi is not None and hi < 0: return False
        return not self.force(st, Cond('<', t, I0))
    def mkcond(self, rel, a, b):
        if isc(a) and isc(b):
            return {'<': a.val < b.val, '<=': a.val <= b.val, '==': a.val == b.val, '!=': a.val != b.val}[rel]
        return Cond(rel, a, b)

    # floating point (exact reals plus nan/inf)
    def fl(self, v):
        if isinstance(v, Term) or isinstance(v, Special) or v is UNDEF: return v
        if isinstance(v, int): return self.conv(v, 'd')
        if isinstance(v, list): return v
        raise Unsupported('float value ' + repr(v))
    def fbin(self, st, fr, rid, x, y, op):
        a = fr.regs[x] if type(x) is int else x.v
        b = fr.regs[y] if type(y) is int else y.v
        fr.regs[rid] = self.fop(st, op, a, b); fr.ip += 1
    def sgn(self, st, t):
        if self.force(st, self.mkcond('<', ZERO, t)): return 1
        if self.force(st, self.mkcond('<', t, ZERO)): return -1
        return 0
    def fop(self, st, op, a, b):
        if a is UNDEF or b is UNDEF: return UNDEF
        if isinstance(a, list): return [self.fop(st, op, p, q) for p, q in zip(a, b)]
        a, b = self.fl(a), self.fl(b)
        if isinstance(a, Term) and a.sort == 'I' or isinstance(b, Term) and b.sort == 'I': raise Unsupported('float op on int bits')
        sa, sb = isinstance(a, Special), isinstance(b, Special)
        if sa or sb:
            if a is NAN or b is NAN: return NAN
            if op == 'fsub':
                if sb: b = PINF if b is NINF else NINF
                op = 'fadd'
            if op == 'fadd':
                if sa and sb: return a if a is b else NAN
                return a if sa else b
            s1 = (1 if a is PINF else -1) if sa else None
            s2 = (1 if b is PINF else -1) if sb else None
            if op == 'fmul':
                if s1 is None: s1 = self.sgn(st, a)
                if s2 is None: s2 = self.sgn(st, b)
                return NAN if s1 * s2 == 0 else PINF if s1 * s2 > 0 else NINF
            if op == 'fdiv':
                if sa and sb: return NAN
                if sb: return ZERO
                s2 = self.sgn(st, b)
                return PINF if (s1 > 0) == (s2 >= 0) else NINF
            raise Unsupported(op)
        if st.flags.get('uf') and not (isc(a) and isc(b)):
            if op == 'fadd':
                if a is ZERO: return b
                if b is ZERO: return a
                if a.id > b.id: a, b = b, a
            elif op == 'fsub':
                if b is ZERO: return a
                if a is b: return ZERO
            elif op == 'fmul':
                if a is ONE: return b
                if b is ONE: return a
                if a.id > b.id: a, b = b, a
            return uf(op, (a, b))
        if op == 'fadd': return add(a, b)
        if op == 'fsub': return sub(a, b)
        if op == 'fmul':
            if st.flags.get('nlskip') and len(T.scales) < 12: T.note_scale(a); T.note_scale(b)
            return mul(a, b)
        if op == 'fdiv':
            if isc(b) and b.val != 0: return div(a, b)
            if self.force(st, self.mkcond('==', b, ZERO)):
                s = self.sgn(st, a)
                return NAN if s == 0 else PINF if s > 0 else NINF
            return div(a, b)
        raise Unsupported(op)
    def x_fadd(self, st, fr, rid, bits, fl, x, y, ty): self.fbin(st, fr, rid, x, y, 'fadd')
    def x_fsub(self, st, fr, rid, bits, fl, x, y, ty): self.fbin(st, fr, rid, x, y, 'fsub')
    def x_fmul(self, st, fr, rid, bits, fl, x, y, ty): self.fbin(st, fr, rid, x, y, 'fmul')
    def x_fdiv(self, st, fr, rid, bits, fl, x, y, ty): self.fbin(st, fr, rid, x, y, 'fdiv')
    def x_fneg(self, st, fr, rid, x):
        v = fr.regs[x] if type(x) is int else x.v
        fr.regs[rid] = self.fneg(st, v); fr.ip += 1
    def fneg(self, st, v):
        if v is UNDEF: return v
        if isinstance(v, list): return [self.fneg(st, q) for q in v]
        v = self.fl(v)
        return (v if v is NAN else NINF if v is PINF else PINF) if isinstance(v, Special) else neg(v)
    def x_fcmp(self, st, fr, rid, pred, x, y, ty):
        a = fr.regs[x] if type(x) is int else x.v
        b = fr.regs[y] if type(y) is int else y.v
        fr.regs[rid] = self.fcmp(st, pred, a, b); fr.ip += 1
    def fcmp(self, st, pred, a, b):
        if a is UNDEF or b is UNDEF: return UNDEF
        a, b = self.fl(a), self.fl(b)
        if pred == 'true': return True
        if pred == 'false': return False
        if isinstance(a, Special) or isinstance(b, Special):
            if a is NAN or b is NAN: return pred[0] == 'u' and pred != 'uno' or pred == 'uno'
            if pred == 'ord': return True
            if pred == 'uno': return False
            va = (1 if a is PINF else -1) if isinstance(a, Special) else 0
            vb = (1 if b is PINF else -1) if isinstance(b, Special) else 0
            r = pred[1:]
            return {'eq': va == vb, 'ne': va != vb, 'lt': va < vb, 'le': va <= vb, 'gt': va > vb, 'ge': va >= vb}[r]
        if pred == 'ord': return True
        if pred == 'uno': return False
        r = pred[1:]
        if r == 'eq': return self.mkcond('==', a, b)
        if r == 'ne': return self.mkcond('!=', a, b)
        if r == 'lt': return self.mkcond('<', a, b)
        if r == 'le': return self.mkcond('<=', a, b)
        if r == 'gt': return self.mkcond('<', b, a)
        return self.mkcond('<=', b, a)

    # casts
    def cast(f):
        def h(self, st, fr, rid, x, fty, ty):
            v = fr.regs[x] if type(x) is int else x.v
            if v is UNDEF: r = UNDEF
            elif isinstance(v, list) and not isinstance(ty, str): r = [f(self, st, q, fty[4], ty[4]) for q in v]
            else: r = f(self, st, v, fty, ty)
            fr.regs[rid] = r; fr.ip += 1
        return h
    @cast
    def x_trunc(self, st, v, fty, ty):
        bits = int(ty[1:])
        if isinstance(v, int): return bool(v & 1) if bits == 1 else wrap(v, bits)
        if isinstance(v, Ptr): return wrap(self.addr(v), bits)
        if isinstance(v, Cond): return v
        if isinstance(v, Term) and v.sort == 'I':
            if bits == 1: return Cond('!=', v, I0) if rng(v) == (0, 1) else Cond('==', T._mk('imod', (v, const(2, 'I')), 'I'), const(1, 'I'))
            lo, hi = rng(v)
            L, H = -(1 << (bits - 1)), (1 << (bits - 1)) - 1
            if lo is not None and hi is not None and L <= lo and hi <= H: return v
            if self.force(st, Cond('<', v, const(L, 'I'))) or self.force(st, Cond('<', const(H, 'I'), v)):
                m = T._mk('imod', (v, const(1 << bits, 'I')), 'I')
                if self.force(st, Cond('<=', const(1 << (bits - 1), 'I'), m)): return sub(m, const(1 << bits, 'I'))
                return m
            return v
        raise Unsupported('trunc')
    @cast
    def x_zext(self, st, v, fty, ty):
        bits = int(fty[1:])
        if isinstance(v, Cond): return 1 if self.force(st, v) else 0
        if isinstance(v, int): return int(v) & ((1 << bits) - 1)
        if isinstance(v, Term) and v.sort == 'I':
            if self.nonneg(st, v): return v
            return add(v, const(1 << bits, 'I'))
        if isinstance(v, Term): return v
        raise Unsupported('zext')
    @cast
    def x_sext(self, st, v, fty, ty):
        if isinstance(v, Cond): return -1 if self.force(st, v) else 0
        if fty == 'i1': return -1 if v else 0
        return v
    @cast
    def x_sitofp(self, st, v, fty, ty):
        if isinstance(v, Cond): v = 1 if self.force(st, v) else 0
        if isinstance(v, int): return self.rnd(const(int(v)), ty)
        if v.sort != 'I': raise Unsupported('sitofp')
        return toreal(v)
    @cast
    def x_uitofp(self, st, v, fty, ty):
        bits = int(fty[1:])
        if isinstance(v, Cond): v = 1 if self.force(st, v) else 0
        if isinstance(v, int): return self.rnd(const(int(v) & ((1 << bits) - 1)), ty)
        if v.sort != 'I': raise Unsupported('uitofp')
        if self.nonneg(st, v): return toreal(v)
        return toreal(add(v, const(1 << bits, 'I')))
    def rnd(self, t, ty):
        return t
    @cast
    def x_fptoui(self, st, v, fty, ty): return self.toint(st, v, ty)
    @cast
    def x_fptosi(self, st, v, fty, ty): return self.toint(st, v, ty)
    def toint(self, st, v, ty):
        v = self.fl(v)
        if isinstance(v, Special): return UNDEF
        k = simp_const(v)
        if k is not None:
            k = Fraction(k); q = abs(k).__floor__()
            return wrap(q if k >= 0 else -q, int(ty[1:]))
        i = self.asint(v)
        if i is not None: return i
        if self.force(st, self.mkcond('<', v, ZERO)):
            return neg(self.mkfloor(neg(v)))
        return self.mkfloor(v)
    def asint(self, v):
        """Int term equal to the Real term v if v is syntactically integral"""
        if v.op == 'toreal': return v.args[0]
        if isc(v): return const(int(v.val), 'I') if Fraction(v.val).denominator == 1 else None
        n = nf(v)
        if n.den: return None
        r = I0
        for m, c in n.num.items():
            if Fraction(c).denominator != 1: return None
            x = const(int(c), 'I')
            for a, e in m:
                t = T._byid[-a - 1]
                if t.sort != 'I': return None
                for _ in range(e): x = mul(x, t)
            r = add(r, x)
        return r
    def mkfloor(self, v):
        return self.mkround('floor', v)
    def mkround(self, op, v):
        k = (op, nf_key(nf(v)))
        t = T._table.get(k)
        if t is None:
            t = T._mk(op, (v,), 'I'); t.lo, t.hi = -(1 << 60), 1 << 60
            T._table[k] = t
        return t
    @cast
    def x_fptrunc(self, st, v, fty, ty):
        v = self.fl(v)
        if isinstance(v, Special): return v
        if isc(v):
            try: f = struct.unpack('<f', struct.pack('<f', float(v.val)))[0]
            except OverflowError: raise Unsupported('float overflow')
            return const(Fraction(f))
        i = self.asint(v)
        if st.flags.get('nornd'): return v
        return uf('rnd32', (v,))
    @cast
    def x_fpext(self, st, v, fty, ty): return v
    @cast
    def x_bitcast(self, st, v, fty, ty): return self.conv(v, ty) if isinstance(ty, str) else v
    @cast
    def x_ptrtoint(self, st, v, fty, ty): return v
    @cast
    def x_inttoptr(self, st, v, fty, ty): return self.conv(v, 'p')

    # ------------------------------------------------------------ calls
    def x_invoke(self, *a): self.x_call(*a)
    def x_call(self, st, fr, rid, f, args, byval, ty, nblk):
        A = [fr.regs[x] if type(x) is int else x.v for x in args]
        if not isinstance(f, str):
            p = fr.regs[f] if type(f) is int else f.v
            if isinstance(p, Ptr) and isinstance(p.obj, str) and p.off == 0: f = p.obj[2:]
            else: raise Fail('mem.bad-call', 'call through ' + repr(p))
        ext = EXT.get(f)
        if ext is None:
            fn = self.m.fn(f)
            if fn is not None:
                if self.in_ctor and ('iostream' in f or 'ios_base' in f):
                    fr.ip += 1; return
                self.push(st, fn, A, rid if ty != 'v' else None, byval if any(byval) else None)
                st.frames[-1].nblk = nblk
                return
            for pre, h in EXTP:
                if f.startswith(pre): ext = h; break
        if ext is None:
            if self.in_ctor:
                if ty != 'v': fr.regs[rid] = UNDEF
                fr.ip += 1; return
            self.res.calls_external.add(f)
            raise Unsupported('external function ' + f)
        r = ext(self, st, A, f)
        if ty != 'v': fr.regs[rid] = r
        if st.frames and st.frames[-1] is fr:
            if nblk is not None: self.goto(st, fr, nblk)
            else: fr.ip += 1

def hash_str(s):
    h = 0
    for c in s: h = (h * 131 + ord(c)) & 0xffffffff
    return h

def _i(c):
    if isinstance(c, Fraction) and c.denominator == 1: return int(c)
    return c

def psub(p, v, rep):
    """substitute atom v (negative id) by polynomial rep in p"""
    hit = False
    for m in p:
        for x, e in m:
            if x == v: hit = True
    if not hit: return p
    out = {}
    pw = {0: {(): 1}}
    def power(e):
        if e not in pw: pw[e] = p_mul(power(e - 1), rep)
        return pw[e]
    for m, c in p.items():
        e = 0; rest = []
        for x, ex in m:
            if x == v: e = ex
            else: rest.append((x, ex))
        q = p_mul({tuple(rest): c}, power(e))
        out = p_add(out, q)
    return out

EXT = {}
EXTP = []
def ext(*names):
    def d(f):
        for n in names: EXT[n] = f
        return f
    return d
def extp(*pre):
    def d(f):
        for n in pre: EXTP.append((n, f))
        return f
    return d

def cstr(E, st, p):
    if not isinstance(p, Ptr): return '?'
    if isinstance(p.obj, str) and p.obj not in st.mem: E.gobj(st, p.obj[2:])
    o = st.mem[p.obj]; s = ''; i = p.off
    while True:
        b = E.byte(o, i)
        if not b: return s
        s += chr(b & 255); i += 1

def newname(E, st, nm):
    k = st.names.get(nm, 0); st.names[nm] = k + 1
    return nm if k == 0 else '%s.%d' % (nm, k)

@ext('vs_real')
def _(E, st, A, f):
    b = cstr(E, st, A[0]); nm = newname(E, st, b)
    t = var(nm, 'R', -10**300, 10**300); st.inputs.append((b, t))
    if st.model is not None: st.model = dict(st.model); st.model.setdefault(t, 0)
    return t
@ext('vs_bigreal', 'vs_ghost')
def _(E, st, A, f):
    b = cstr(E, st, A[0]); nm = newname(E, st, b)
    t = var(nm); st.inputs.append((b, t))
    if st.model is not None: st.model = dict(st.model); st.model.setdefault(t, 0)
    return t
@ext('vs_int')
def _(E, st, A, f):
    nm = newname(E, st, cstr(E, st, A[0]))
    lo, hi = E.cint(st, A[1]), E.cint(st, A[2])
    if lo == hi: st.inputs.append((cstr(E, st, A[0]), lo)); return lo
    nm2 = '%s@%d:%d' % (nm, lo, hi)
    t = var(nm2, 'I', lo, hi); st.inputs.append((cstr(E, st, A[0]), t))
    if st.model is not None:
        st.model = dict(st.model); st.model.setdefault(t, min(max(0, lo), hi) if lo <= 0 <= hi else lo)
    return t
@ext('vs_choose')
def _(E, st, A, f):
    nm = newname(E, st, cstr(E, st, A[0]))
    n = E.cint(st, A[1])
    k = ('choose', nm)
    if n == 1: st.inputs.append((cstr(E, st, A[0]), 0)); return 0
    t = var('%s#%d' % (nm, n), 'I', 0, n - 1)
    v = E.known_value(st, t)
    if v is None:
        st.names[cstr(E, st, A[0])] -= 1
        st.model = None
        raise Enum(t)
    st.inputs.append((cstr(E, st, A[0]), v))
    return v
@ext('vs_len')
def _(E, st, A, f):
    lo, hi = E.cint(st, A[1]), E.cint(st, A[2])
    nm = newname(E, st, cstr(E, st, A[0]))
    if lo == hi: st.inputs.append((cstr(E, st, A[0]), lo)); return lo
    t = var('%s#%d:%d' % (nm, lo, hi), 'I', lo, hi)
    v = E.known_value(st, t)
    if v is None:
        st.names[cstr(E, st, A[0])] -= 1
        st.model = None
        raise Enum(t)
    st.inputs.append((cstr(E, st, A[0]), v))
    return v
@ext('vs_native')
def _(E, st, A, f): return 0
@ext('vs_flag')
def _(E, st, A, f):
    st.flags[cstr(E, st, A[0])] = E.cint(st, A[1])
@ext('vs_assume')
def _(E, st, A, f):
    c = A[0]
    if isinstance(c, Cond):
        v, key, want = E.decide(st, c)
        if v is True: return
        if v is False: raise PathEnd('assume')
        E.assume(st, c)
        if st.model is None:
            r, m = E.solver.check(E.linpc(st) if st.flags.get('nlskip') else st.pc)
            if r == 'unsat': raise PathEnd('assume')
            st.model = m
        return
    if not E.force(st, c): raise PathEnd('assume')
def real2(E, A):
    a, b = E.fl(A[0]), E.fl(A[1])
    return a, b
@ext('vs_assume_le', 'vs_assume_lt', 'vs_assume_eq', 'vs_assume_ne')
def _(E, st, A, f):
    p = {'le': 'ole', 'lt': 'olt', 'eq': 'oeq', 'ne': 'une'}[f[-2:]]
    return EXT['vs_assume'](E, st, [E.fcmp(st, p, A[0], A[1])], f)
@ext('vs_check')
def _(E, st, A, f):
    E.check_cond(st, A[0] if not isinstance(A[0], int) else bool(A[0] & 1), cstr(E, st, A[1]))
@ext('vs_check_le', 'vs_check_lt')
def _(E, st, A, f):
    p = {'le': 'ole', 'lt': 'olt'}[f[-2:]]
    E.check_cond(st, E.fcmp(st, p, A[0], A[1]), cstr(E, st, A[2]))
@ext('vs_check_eq', 'vs_check_bits')
def _(E, st, A, f):
    nm = cstr(E, st, A[2])
    a, b = A[0], A[1]
    if a is UNDEF or b is UNDEF: E.check_cond(st, UNDEF, nm); return
    a, b = real2(E, A)
    if isinstance(a, Special) or isinstance(b, Special):
        E.check_cond(st, a is b, nm); return
    E.check_cond(st, E.mkcond('==', a, b), nm)
@ext('vs_check_ieq')
def _(E, st, A, f):
    nm = cstr(E, st, A[2])
    if A[0] is UNDEF or A[1] is UNDEF: E.check_cond(st, UNDEF, nm); return
    E.check_cond(st, E.icmp(st, 'eq', A[0], A[1], 'i64'), nm)
def deep_cells(E, st, oid, lo, hi):
    o = st.mem.get(oid)
    return sorted((k, c) for k, c in o.cells.items() if lo <= k and k + c[0] <= hi)
@ext('vs_deep_havoc')
def _(E, st, A, f):
    """every floating-point word of the object and of the heap blocks it owns becomes arbitrary"""
    seen = set()
    def go(oid, lo, hi):
        for k, c in deep_cells(E, st, oid, lo, hi):
            v = c[1]
            if (isinstance(v, Term) and v.sort == 'R') or isinstance(v, Special):
                t = EXT['vs_ghost'](E, st, [A[2]], 'vs_ghost')
                E.wobj(st, oid).cells[k] = (c[0], t)
            elif isinstance(v, Ptr) and v.obj in st.mem and st.mem[v.obj].kind == 'heap' and v.obj not in seen:
                seen.add(v.obj); go(v.obj, 0, st.mem[v.obj].size)
    p = A[0]; n = E.cint(st, A[1]); off = E.off(st, p.off); go(p.obj, off, off + n)
@ext('vs_deep_same')
def _(E, st, A, f):
    """structural equality of two object graphs: every initialised word of the first equals that of the second;
    std::vector compares by contents [begin, end), boost::circular_buffer by its logical sequence"""
    seen = set()
    class Diff(Exception): pass
    def heap(v): return isinstance(v, Ptr) and v.obj in st.mem and st.mem[v.obj].kind == 'heap' and isinstance(v.off, int)
    def word(o, k, n):
        c = o.cells.get(k)
        if c is not None and c[0] == n: return c[1]
        return E.rawload(o, k, n, {8: 'i64', 4: 'i32', 2: 'i16', 1: 'i8'}[n])
    def eqv(a, b, w):
        if isinstance(a, Special) or isinstance(b, Special): return a is b
        if isinstance(a, Ptr) and isinstance(b, Ptr): return a.obj == b.obj and a.off == b.off
        if a is b: return True
        if isinstance(a, Ptr) or isinstance(b, Ptr): return (a is NULL and b == 0) or (b is NULL and a == 0)
        if (isinstance(a, Term) and a.sort == 'R') or (isinstance(b, Term) and b.sort == 'R'):
            return E.conv(a, 'd' if w == 8 else 'f') is E.conv(b, 'd' if w == 8 else 'f')
        if isinstance(a, Term) or isinstance(b, Term): return iterm(a) is iterm(b)
        return a == b
    def vec(o, k):
        """begin, end (bytes) of a vector at offset k"""
        p = [o.cells.get(k + 8 * i) for i in range(3)]
        if any(c is None or c[0] != 8 or not heap(c[1]) for c in p):
            q = [word(o, k + 8 * i, 8) if k + 8 * i + 8 <= o.size else UNDEF for i in range(3)]
            return ('v', None, 0) if all(x == 0 or x is NULL for x in q if x is not UNDEF) and UNDEF not in q else None
        p = [c[1] for c in p]
        if len({x.obj for x in p}) == 1 and p[0].off == 0 and p[1].off <= p[2].off == st.mem[p[0].obj].size: return ('v', p[0].obj, p[1].off)
        return None
    def ring(o, k):
        p = [o.cells.get(k + 8 * i) for i in range(5)]
        if any(c is None or c[0] != 8 for c in p) or any(not heap(c[1]) for c in p[:4]): return None
        q = [c[1] for c in p]
        if len({x.obj for x in q[:4]}) != 1 or q[0].off != 0 or q[1].off != st.mem[q[0].obj].size: return None
        n = word(o, k + 32, 8)
        if isinstance(n, Term): n = simp_const(n)
        if not isinstance(n, int): return None
        b = st.mem[q[0].obj]; e = b.cells[q[2].off][0] if n else 8
        return ('r', [word(b, (q[2].off + i * e) % b.size, e) for i in range(n)], e, b.size)
    def go(ao, alo, bo, blo, n):
        x, y = st.mem[ao], st.mem[bo]; k = 0
        for kk, c in deep_cells(E, st, ao, alo, alo + n):
            kk -= alo
            if kk < k: continue
            v = c[1]
            if heap(v):
                ra, rb = ring(x, alo + kk), ring(y, blo + kk)
                if ra and rb:
                    if len(ra[1]) != len(rb[1]) or ra[3] != rb[3] or not all(eqv(p, q, ra[2]) for p, q in zip(ra[1], rb[1])): raise Diff(kk)
                    k = kk + 40; continue
                va, vb = vec(x, alo + kk), vec(y, blo + kk)
                if va and vb:
                    if va[2] != vb[2]: raise Diff(kk)
                    if va[2]: go(va[1], 0, vb[1], 0, va[2])
                    k = kk + 24; continue
                w = word(y, blo + kk, 8)
                if not heap(w) or w.off != v.off: raise Diff(kk)
                if (v.obj, w.obj) not in seen:
                    seen.add((v.obj, w.obj))
                    if st.mem[v.obj].size != st.mem[w.obj].size: raise Diff(kk)
                    go(v.obj, 0, w.obj, 0, st.mem[v.obj].size)
                continue
            if v is UNDEF: continue
            if v is NULL or v == 0 and c[0] == 8:
                va, vb = vec(x, alo + kk), vec(y, blo + kk)
                if va and vb and va[2] == vb[2] == 0 and va[1] is None: k = kk + 24; continue
            w = word(y, blo + kk, c[0])
            if w is UNDEF or not eqv(v, w, c[0]): raise Diff((kk, v, w))
        # words zero in the first by initialisation
        for a, b in x.zero:
            a, b = max(a, alo), min(b, alo + n)
            for q in range(a, b):
                if any(q - d in x.cells and x.cells[q - d][0] > d for d in range(16)): continue
                zs = [vec(y, blo + q - d - alo) for d in range(24) if (q - d) % 8 == 0 and blo + q - d - alo >= 0]
                if any(z and z[2] == 0 for z in zs): continue
                try: r = E.byte(y, blo + q - alo)
                except Unsupported: raise Diff(q)
                if r not in (0, None): raise Diff(q)
    n = E.cint(st, A[2])
    try: go(A[0].obj, E.off(st, A[0].off), A[1].obj, E.off(st, A[1].off), n)
    except Diff as e:
        if os.environ.get('VS_DEBUG'): print('deep difference at', e)
        return False
    return True
@ext('vs_isnan')
def _(E, st, A, f): return A[0] is NAN
@ext('vs_isfinite')
def _(E, st, A, f):
    return isinstance(E.fl(A[0]), Term)
@ext('vs_cover')
def _(E, st, A, f): E.res.covers.add(cstr(E, st, A[0]))
@ext('vs_allow_throw')
def _(E, st, A, f): st.allow_throw = True
@ext('vs_throw')
def _(E, st, A, f): raise PathEnd('throw')
@ext('vs_assert_fail')
def _(E, st, A, f): raise Fail('assertion', cstr(E, st, A[0]))
@ext('vs_stop')
def _(E, st, A, f): raise PathEnd('assume')

@ext('_Znwm', '_Znam', 'malloc')
def _(E, st, A, f):
    n = E.cint(st, A[0])
    if n < 0 or n > 1 << 20: raise Fail('mem.huge-allocation', str(n))
    return Ptr(E.alloc(st, n, 'heap%d' % st.nextobj, 'heap'), 0)
@ext('_ZnwmSt11align_val_t')
def _(E, st, A, f): return EXT['_Znwm'](E, st, A[:1], f)
@ext('_ZdlPv', '_ZdaPv', '_ZdlPvm', '_ZdaPvm', 'free', '_ZdlPvSt11align_val_t', '_ZdlPvmSt11align_val_t')
def _(E, st, A, f):
    p = A[0]
    if isinstance(p, Ptr) and p.obj == 0: return
    if p is UNDEF: raise Fail('mem.uninit-pointer', 'delete')
    o = st.mem.get(p.obj)
    if o is None or o.kind != 'heap' or E.off(st, p.off) != 0: raise Fail('mem.bad-free', repr(p))
    st.mem.pop(p.obj)
@extp('llvm.memcpy', 'llvm.memmove')
def _memcpy(E, st, A, f): E.memcpy(st, A[0], A[1], E.cint(st, A[2]))
@ext('memcpy', 'memmove')
def _(E, st, A, f): E.memcpy(st, A[0], A[1], E.cint(st, A[2])); return A[0]
@extp('llvm.memset')
def _(E, st, A, f): E.memset(st, A[0], A[1], E.cint(st, A[2]))
@ext('memset')
def _(E, st, A, f): E.memset(st, A[0], wrap(E.cint(st, A[1]), 8), E.cint(st, A[2])); return A[0]
@extp('llvm.expect')
def _(E, st, A, f): return A[0]
@extp('llvm.launder', 'llvm.strip')
def _(E, st, A, f): return A[0]
@extp('llvm.lifetime', 'llvm.experimental.noalias', 'llvm.stackrestore', 'llvm.invariant', 'llvm.prefetch')
def _(E, st, A, f): return None
@extp('llvm.stacksave')
def _(E, st, A, f): return NULL
@extp('llvm.is.constant')
def _(E, st, A, f): return False
@extp('llvm.objectsize')
def _(E, st, A, f): return -1
@extp('llvm.trap', 'abort', '_ZSt9terminatev', '__assert_fail', '__cxa_pure_virtual')
def _(E, st, A, f): raise Fail('assertion', f)
@extp('_ZSt20__throw', '_ZSt17__throw', '_ZSt16__throw', '_ZSt19__throw', '_ZSt24__throw', '_ZSt18__throw', '_ZSt21__throw', '_ZSt28__throw', '_ZSt25__throw', '_ZSt22__throw')
def _(E, st, A, f): raise PathEnd('throw')
@ext('__cxa_atexit', '__cxa_guard_release', 'atexit')
def _(E, st, A, f): return 0
@ext('__cxa_guard_acquire')
def _(E, st, A, f):
    o, off = E.resolve(st, A[0], 1, 'guard')
    v = o.cells.get(off)
    if v is not None and v[1] == 1: return 0
    E.store(st, A[0], 1, 'i8')
    return 1
@ext('ceil', 'floor', 'ceilf', 'floorf')
def _ceil(E, st, A, f):
    if A[0] is UNDEF: return UNDEF
    v = E.fl(A[0])
    if isinstance(v, Special): return v
    up = 'ceil' in f
    k = simp_const(v)
    if k is not None: return const(Fraction(k).__ceil__() if up else Fraction(k).__floor__())
    i = E.asint(v)
    if i is not None: return toreal(i)
    if st.flags.get('nlskip'):
        k = E.lin_round(st, v, up)
        if k is not None: return const(k)
    return toreal(E.mkround('ceil' if up else 'floor', v))
@extp('llvm.ceil', 'llvm.floor')
def _(E, st, A, f): return _ceil(E, st, A, f)
@ext('trunc', 'round', 'rint', 'nearbyint')
def _(E, st, A, f): raise Unsupported(f)
@ext('sqrt', 'sqrtf', 'llvm.sqrt.f64', 'llvm.sqrt.f32')
def _sqrt(E, st, A, f):
    if A[0] is UNDEF: return UNDEF
    v = E.fl(A[0])
    if isinstance(v, Special): return PINF if v is PINF else NAN
    k = simp_const(v)
    if k is not None:
        if k < 0: return NAN
        k = Fraction(k)
        import math
        n, d = math.isqrt(k.numerator), math.isqrt(k.denominator)
        if n * n == k.numerator and d * d == k.denominator: return const(Fraction(n, d))
        return uf('sqrt', (const(k),))
    if E.force(st, E.mkcond('<', v, ZERO)): return NAN
    return uf('sqrt', (v,))
@ext('fabs', 'llvm.fabs.f64', 'fabsf', 'llvm.fabs.f32')
def _(E, st, A, f):
    if A[0] is UNDEF: return UNDEF
    v = E.fl(A[0])
    if isinstance(v, Special): return PINF if v is not NAN else NAN
    return neg(v) if E.force(st, E.mkcond('<', v, ZERO)) else v
@ext('pow', 'llvm.pow.f64')
def _(E, st, A, f):
    if A[0] is UNDEF or A[1] is UNDEF: return UNDEF
    a, b = E.fl(A[0]), E.fl(A[1])
    if isinstance(a, Special) or isinstance(b, Special):
        if a is NAN or b is NAN: return NAN
        raise Unsupported('pow of inf')
    k = simp_const(b)
    if k is not None:
        k = Fraction(k)
        if k.denominator in (1, 2) and abs(k) <= 12:
            if k.denominator == 2:
                s = _sqrt(E, st, [a], 'sqrt')
                if isinstance(s, Special): return NAN
                p = abs(k.numerator); r = ONE
                base = s
                w = p // 2
                for _ in range(w): r = mul(r, a)
                r = mul(r, s)
            else:
                r = ONE
                for _ in range(abs(k.numerator)): r = mul(r, a)
            if k < 0: return E.fop(st, 'fdiv', ONE, r)
            return r
    return uf('pow', (a, b))
@ext('llvm.powi.f64.i32')
def _(E, st, A, f): return EXT['pow'](E, st, [A[0], const(E.cint(st, A[1]))], f)
@ext('log', 'exp', 'llvm.log.f64', 'llvm.exp.f64', 'log1p', 'expm1', 'llvm.log1p.f64')
def _(E, st, A, f):
    if A[0] is UNDEF: return UNDEF
    v = E.fl(A[0])
    if isinstance(v, Special):
        if v is NAN: return NAN
        raise Unsupported(f)
    nm = f.split('.')[1] if f.startswith('llvm.') else f
    if nm == 'log' and E.force(st, E.mkcond('<=', v, ZERO)):
        return NINF if E.force(st, E.mkcond('==', v, ZERO)) else NAN
    k = simp_const(v)
    if k == 1 and nm == 'log': return ZERO
    if k == 0 and nm == 'exp': return ONE
    return uf(nm, (v,))
@ext('fmin', 'fmax', 'llvm.minnum.f64', 'llvm.maxnum.f64')
def _(E, st, A, f):
    a, b = E.fl(A[0]), E.fl(A[1])
    if a is NAN: return b
    if b is NAN: return a
    lt = E.force(st, E.fcmp(st, 'olt', a, b))
    return (a if lt else b) if 'min' in f else (b if lt else a)
@extp('llvm.fmuladd', 'llvm.fma.')
def _(E, st, A, f): return E.fop(st, 'fadd', E.fop(st, 'fmul', A[0], A[1]), A[2])
@extp('llvm.umax', 'llvm.umin', 'llvm.smax', 'llvm.smin')
def _(E, st, A, f):
    bits = f.split('.')[-1]
    lt = E.force(st, E.icmp(st, f[5] + 'lt', A[0], A[1], bits))
    return (A[0] if lt else A[1]) if 'min' in f else (A[1] if lt else A[0])
@extp('llvm.ctlz')
def _(E, st, A, f):
    b = int(f.split('.i')[-1]); v = E.cint(st, A[0]) & ((1 << b) - 1)
    return b - v.bit_length()
@extp('llvm.cttz')
def _(E, st, A, f):
    b = int(f.split('.i')[-1]); v = E.cint(st, A[0]) & ((1 << b) - 1)
    return b if v == 0 else (v & -v).bit_length() - 1
@extp('llvm.abs')
def _(E, st, A, f):
    v = A[0]
    if isinstance(v, int): return abs(v)
    return sub(I0, v) if E.force(st, Cond('<', v, I0)) else v
@extp('llvm.is.fpclass')
def _(E, st, A, f):
    v = E.fl(A[0]); m = E.cint(st, A[1])
    if v is NAN: return bool(m & 3)
    if v is PINF: return bool(m & 0x200)
    if v is NINF: return bool(m & 4)
    if m in (3, 0x204, 0x207): return False
    raise Unsupported('is.fpclass')
@extp('llvm.umul.with.overflow', 'llvm.uadd.with.overflow', 'llvm.usub.with.overflow', 'llvm.smul.with.overflow')
def _(E, st, A, f):
    b = int(f.split('.i')[-1]); M = (1 << b) - 1
    x, y = E.cint(st, A[0]) & M, E.cint(st, A[1]) & M
    r = x * y if 'mul' in f else x + y if 'add' in f else x - y
    return [wrap(r, b), not (0 <= r <= M)]
@ext('__isnan', 'isnan')
def _(E, st, A, f): return 1 if A[0] is NAN else 0
@ext('__finite', '__isinf')
def _(E, st, A, f): raise Unsupported(f)
@ext('bcmp', 'memcmp')
def _(E, st, A, f): raise Unsupported(f)
