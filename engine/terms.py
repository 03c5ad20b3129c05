"""Hash-consed first-order terms over Real/Int, a rational-function normal form with
factored denominators (decides polynomial / rational identities without a solver),
and translation to z3."""
from fractions import Fraction
import z3

class Unsupported(Exception):
    pass

_table = {}
_byid = []
_ufs = {}

class Term:
    __slots__ = ('op', 'args', 'sort', 'val', 'id', '_nf', '_z', 'name', 'lo', 'hi', 'axioms')
    def __repr__(self):
        return show(self)
    def __hash__(self):
        return self.id
    def __eq__(self, o):
        return self is o

def _mk(op, args, sort, val=None, name=None):
    key = (op, args, sort, val, name)
    t = _table.get(key)
    if t is None:
        t = Term()
        t.op, t.args, t.sort, t.val, t.name = op, args, sort, val, name
        t.id = len(_byid) + 1
        t._nf = None; t._z = None; t.lo = t.hi = None; t.axioms = ()
        _byid.append(t)
        _table[key] = t
    return t

def reset():
    _table.clear(); _byid.clear(); _mm_cache.clear(); _factors.clear(); _ufs.clear()

def const(v, sort='R'):
    if sort == 'R':
        v = Fraction(v)
        if v.denominator == 1: v = int(v)
    return _mk('const', (), sort, v)

def var(name, sort='R', lo=None, hi=None):
    t = _mk('var', (), sort, None, name)
    if lo is not None or hi is not None:
        t.lo, t.hi = lo, hi
    return t

def isc(t):
    return t.op == 'const'

def add(a, b):
    if a.op == 'const':
        if b.op == 'const': return const(a.val + b.val, a.sort)
        if a.val == 0: return b
    elif b.op == 'const' and b.val == 0: return a
    if a.id > b.id: a, b = b, a
    return _mk('add', (a, b), a.sort)

def mul(a, b):
    if a.op == 'const':
        if b.op == 'const': return const(a.val * b.val, a.sort)
        if a.val == 0: return a
        if a.val == 1: return b
    elif b.op == 'const':
        if b.val == 0: return b
        if b.val == 1: return a
    if a.id > b.id: a, b = b, a
    return _mk('mul', (a, b), a.sort)

def neg(a):
    return mul(const(-1, a.sort), a)

def sub(a, b):
    if a is b: return const(0, a.sort)
    return add(a, neg(b))

def div(a, b):
    """real division; the caller has established b != 0 on the path"""
    if b.op == 'const':
        return mul(a, const(Fraction(1) / Fraction(b.val)))
    if a.op == 'const' and a.val == 0: return a
    return _mk('div', (a, b), 'R')

def toreal(a):
    if a.sort == 'R': return a
    if a.op == 'const': return const(a.val, 'R')
    return _mk('toreal', (a,), 'R')

def uf(name, args, sort='R'):
    """uninterpreted application, keyed by the normal form of its arguments"""
    key = tuple(nf_key(nf(a)) for a in args)
    k = ('uf', name, sort, key)
    t = _table.get(k)
    if t is None:
        for o in (_ufs.get((name, sort, len(args)), ()) if name in ('pow', 'log', 'exp', 'sqrt', 'log1p', 'expm1') else ()):      # congruence: equal but differently normalised arguments
            try:
                if all(x is y or not nf(sub(x, y)).num for x, y in zip(o.args, args)): t = o; break
            except Unsupported: pass
        if t is None:
            t = _mk('uf', tuple(args), sort, None, name)
            _ufs.setdefault((name, sort, len(args)), []).append(t)
        _table[k] = t
    return t

# ---------------------------------------------------------------- polynomials
# monomial: tuple of (-atomid, exp), natural tuple order == lex monomial order
_mm_cache = {}
def mono_mul(a, b):
    if not a: return b
    if not b: return a
    k = (a, b)
    r = _mm_cache.get(k)
    if r is not None: return r
    out = []; i = j = 0
    while i < len(a) and j < len(b):
        if a[i][0] == b[j][0]:
            out.append((a[i][0], a[i][1] + b[j][1])); i += 1; j += 1
        elif a[i][0] > b[j][0]:
            out.append(a[i]); i += 1
        else:
            out.append(b[j]); j += 1
    out.extend(a[i:]); out.extend(b[j:])
    r = tuple(out)
    _mm_cache[k] = r
    return r

def mono_div(a, b):
    """a / b or None"""
    out = []; i = 0
    for (v, e) in b:
        while i < len(a) and a[i][0] > v:
            out.append(a[i]); i += 1
        if i >= len(a) or a[i][0] != v or a[i][1] < e: return None
        if a[i][1] > e: out.append((v, a[i][1] - e))
        i += 1
    out.extend(a[i:])
    return tuple(out)

MAXMONO = 60000
def p_add(a, b):
    if len(a) < len(b): a, b = b, a
    r = dict(a)
    for m, c in b.items():
        s = r.get(m, 0) + c
        if s == 0: r.pop(m, None)
        else: r[m] = s
    return r

def p_scale(a, k):
    if k == 0: return {}
    if k == 1: return a
    return {m: c * k for m, c in a.items()}

def p_mul(a, b):
    if len(a) * len(b) > MAXMONO * 20: raise Unsupported('polynomial too large')
    r = {}
    for m1, c1 in a.items():
        for m2, c2 in b.items():
            m = mono_mul(m1, m2)
            s = r.get(m, 0) + c1 * c2
            if s == 0: r.pop(m, None)
            else: r[m] = s
    if len(r) > MAXMONO: raise Unsupported('polynomial too large')
    return _reduce(r)

def _reduce(p):
    """sqrt(t)^2 -> t"""
    hit = None
    for m in p:
        for (v, e) in m:
            if e >= 2:
                t = _byid[-v - 1]
                if t.op == 'uf' and t.name == 'sqrt':
                    n = nf(t.args[0])
                    if not n.den: hit = (m, v, e, n); break
        if hit: break
    if not hit: return p
    m, v, e, n = hit
    c = p[m]
    rest = tuple((x, y) for (x, y) in m if x != v)
    if e % 2: rest = mono_mul(rest, ((v, 1),))
    q = {rest: c}
    for _ in range(e // 2): q = p_mul(q, n.num)
    r = dict(p); del r[m]
    return _reduce(p_add(r, q))

def p_div(a, b):
    """exact polynomial division a / b (both dict) or None"""
    if not a: return {}
    lb = max(b); cb = b[lb]
    q = {}; r = dict(a); n = 0
    while r:
        lm = max(r)
        m = mono_div(lm, lb)
        if m is None: return None
        c = Fraction(r[lm]) / cb
        if c.denominator == 1: c = int(c)
        q[m] = c
        for mb, cc in b.items():
            mm = mono_mul(m, mb)
            s = r.get(mm, 0) - c * cc
            if s == 0: r.pop(mm, None)
            else: r[mm] = s
        n += 1
        if n > 4000: return None
    return q

def p_key(p):
    return tuple(sorted(p.items()))

def p_norm(p):
    """(positive-or-negative unit coefficient, normalised poly with leading coeff 1)"""
    lc = p[max(p)]
    if lc == 1: return 1, p
    inv = Fraction(1) / lc
    return lc, {m: _int(c * inv) for m, c in p.items()}

def _int(c):
    if isinstance(c, Fraction) and c.denominator == 1: return int(c)
    return c

class NF:
    """num / prod(factor^e); factors are keys of polys with leading coefficient 1"""
    __slots__ = ('num', 'den', '_k')
    def __init__(self, num, den):
        self.num, self.den, self._k = num, den, None

def nf_key(n):
    if n._k is None:
        n._k = (p_key(n.num), tuple(sorted(n.den.items())))
    return n._k

def _cancel(num, den):
    if not num: return NF({}, {})
    if den:
        nd = {}
        for f, e in den.items():
            fd = dict(f)
            while e > 0:
                if len(num) > 3000: break
                q = p_div(num, fd)
                if q is None: break
                num = q; e -= 1
            if e: nd[f] = e
        den = nd
    return NF(num, den)

def nf_add(a, b):
    if not a.num: return b
    if not b.num: return a
    if a.den == b.den:
        return _cancel(p_add(a.num, b.num), a.den)
    den = dict(a.den); ma = {(): 1}; mb = {(): 1}
    for f, e in b.den.items():
        ea = den.get(f, 0)
        if e > ea:
            for _ in range(e - ea): ma = p_mul(ma, dict(f))
            den[f] = e
    for f, e in a.den.items():
        eb = b.den.get(f, 0)
        if e > eb:
            for _ in range(e - eb): mb = p_mul(mb, dict(f))
    return _cancel(p_add(p_mul(a.num, ma), p_mul(b.num, mb)), den)

def nf_mul(a, b):
    if not a.num or not b.num: return NF({}, {})
    den = dict(a.den)
    for f, e in b.den.items(): den[f] = den.get(f, 0) + e
    return _cancel(p_mul(a.num, b.num), den)

def nf_inv(a):
    c, p = p_norm(a.num)
    num = {(): _int(Fraction(1) / c)}
    for f, e in a.den.items():
        for _ in range(e): num = p_mul(num, dict(f))
    if len(p) == 1 and () in p:
        return NF(num, {})
    # split off monomial content so that e.g. n*(n-1) has factors n and n-1
    den = {}
    common = None
    for m in p:
        d = dict(m)
        if common is None: common = d
        else:
            common = {v: min(e, d[v]) for v, e in common.items() if v in d}
    if common:
        cm = tuple(sorted(common.items(), reverse=True))
        p = {mono_div(m, cm): cc for m, cc in p.items()}
        for v, e in cm: den[p_key({((v, 1),): 1})] = e
    if not (len(p) == 1 and () in p):
        # try known factors
        for f in list(_factors):
            fd = dict(f)
            if len(p) <= 1: break
            if len(fd) > len(p): continue
            while True:
                q = p_div(p, fd)
                if q is None or len(p) <= 1: break
                den[f] = den.get(f, 0) + 1; p = q
        if not (len(p) == 1 and () in p):
            k = p_key(p)
            den[k] = den.get(k, 0) + 1
            if len(p) <= 6 and all(sum(e for _, e in m) <= 1 for m in p): _factors.add(k)
    return _cancel(num, den)

_factors = set()

def nf(t):
    r = t._nf
    if r is not None: return r
    stack = [t]
    while stack:
        x = stack[-1]
        if x._nf is not None: stack.pop(); continue
        if x.op in ('add', 'mul', 'div', 'toreal'):
            pend = [a for a in x.args if a._nf is None]
            if pend: stack.extend(pend); continue
        op = x.op
        if op == 'const': r = NF({(): x.val} if x.val != 0 else {}, {})
        elif op == 'add': r = nf_add(x.args[0]._nf, x.args[1]._nf)
        elif op == 'mul': r = nf_mul(x.args[0]._nf, x.args[1]._nf)
        elif op == 'div': r = nf_mul(x.args[0]._nf, nf_inv(x.args[1]._nf))
        elif op == 'toreal': r = x.args[0]._nf
        else: r = NF({((-x.id, 1),): 1}, {})
        x._nf = r
        stack.pop()
    return t._nf

def nf_const(n):
    """constant value or None"""
    if not n.num: return 0
    if not n.den and len(n.num) == 1:
        (m, c), = n.num.items()
        if m == (): return c
    return None

def simp_const(t):
    """constant value of t if its normal form is constant, else None"""
    if t.op == 'const': return t.val
    return nf_const(nf(t))

# ---------------------------------------------------------------- conditions
FLIP = {'<': '<=', '<=': '<', '==': '!=', '!=': '=='}
class Cond:
    """lhs rel rhs, rel in < <= == !="""
    __slots__ = ('rel', 'a', 'b', '_d', '_k', '_nl')
    def __init__(self, rel, a, b):
        self.rel, self.a, self.b = rel, a, b
        self._d = None; self._k = None; self._nl = None
    def neg(self):
        r = self.rel
        if r == '<': return Cond('<=', self.b, self.a)
        if r == '<=': return Cond('<', self.b, self.a)
        return Cond(FLIP[r], self.a, self.b)
    def diff(self):
        if self._d is None:
            self._d = nf(sub(self.a, self.b))
        return self._d
    def __repr__(self):
        return '%s %s %s' % (show(self.a), self.rel, show(self.b))

def vars_of(t, acc=None, seen=None):
    if acc is None: acc = set()
    if seen is None: seen = set()
    st = [t]
    while st:
        x = st.pop()
        if x.id in seen: continue
        seen.add(x.id)
        if x.op in ('var',): acc.add(x)
        elif x.op in ('uf', 'floor', 'ceil', 'idiv', 'imod', 'sel'): acc.add(x)
        st.extend(x.args)
        for ax in x.axioms:
            st.append(ax.a); st.append(ax.b)
    return acc

class EvalFail(Exception):
    pass

def evalt(t, model, memo):
    """evaluate under {var term: number}; raises EvalFail for unknown atoms"""
    r = memo.get(t.id)
    if r is not None: return r
    stack = [t]
    while stack:
        x = stack[-1]
        if x.id in memo: stack.pop(); continue
        op = x.op
        if op == 'const': memo[x.id] = x.val; stack.pop(); continue
        if x in model:
            memo[x.id] = model[x]; stack.pop(); continue
        if op == 'var': raise EvalFail()
        pend = [a for a in x.args if a.id not in memo]
        if pend: stack.extend(pend); continue
        v = [memo[a.id] for a in x.args]
        if op == 'add': r = v[0] + v[1]
        elif op == 'mul': r = v[0] * v[1]
        elif op == 'toreal': r = v[0]
        elif op == 'div':
            if v[1] == 0: raise EvalFail()
            r = Fraction(v[0]) / v[1]
        elif op == 'floor': r = Fraction(v[0]).__floor__()
        elif op == 'ceil': r = Fraction(v[0]).__ceil__()
        elif op == 'idiv':
            if v[1] == 0: raise EvalFail()
            r = v[0] // v[1]
        elif op == 'imod':
            if v[1] == 0: raise EvalFail()
            r = v[0] % v[1]
        else: raise EvalFail()
        memo[x.id] = r
        stack.pop()
    return memo[t.id]

def evalc(c, model, memo):
    a = evalt(c.a, model, memo); b = evalt(c.b, model, memo)
    r = c.rel
    if r == '<': return a < b
    if r == '<=': return a <= b
    if r == '==': return a == b
    return a != b

# ---------------------------------------------------------------- z3
class Z:
    """translation to z3; relaxed: Int terms become Real (sound for unsat)"""
    def __init__(self, relaxed):
        self.relaxed = relaxed
        self.memo = {}
        self.pend = []      # axioms to assert, as Cond
        self.ufs = {}
        self.vars = {}
    def t(self, x):
        m = self.memo
        if x.id in m: return m[x.id]
        stack = [x]
        while stack:
            y = stack[-1]
            if y.id in m: stack.pop(); continue
            pend = [a for a in y.args if a.id not in m]
            if pend: stack.extend(pend); continue
            op = y.op
            A = [m[a.id] for a in y.args]
            if op == 'const':
                if y.sort == 'I' and not self.relaxed: r = z3.IntVal(y.val)
                else:
                    f = Fraction(y.val); r = z3.RealVal('%d/%d' % (f.numerator, f.denominator))
            elif op == 'var':
                if y.sort == 'I' and not self.relaxed: r = z3.Int(y.name)
                else: r = z3.Real(y.name)
                self.vars[y] = r
                if y.lo is not None: self.pend.append(Cond('<=', const(y.lo, y.sort), y))
                if y.hi is not None: self.pend.append(Cond('<=', y, const(y.hi, y.sort)))
            elif op == 'add': r = A[0] + A[1]
            elif op == 'mul': r = A[0] * A[1]
            elif op == 'div':
                r = z3.Real('div!%d' % y.id)
                self.vars[y] = r
                self.pend.append(('z', r * A[1] == A[0]))
            elif op == 'toreal': r = A[0] if self.relaxed else z3.ToReal(A[0])
            elif op in ('floor', 'ceil', 'idiv', 'imod', 'uf', 'sel'):
                nm = '%s!%d' % (op, y.id)
                r = z3.Int(nm) if (y.sort == 'I' and not self.relaxed) else z3.Real(nm)
                self.vars[y] = r
                if op == 'floor':
                    i = toreal(y); self.pend += [Cond('<=', i, y.args[0]), Cond('<', y.args[0], add(i, const(1)))]
                elif op == 'ceil':
                    i = toreal(y); self.pend += [Cond('<=', y.args[0], i), Cond('<', i, add(y.args[0], const(1)))]
                elif op == 'idiv':
                    a, b = y.args; q = mul(y, b)
                    if isc(b) and b.val > 0:
                        self.pend += [Cond('<=', q, a), Cond('<', a, add(q, b))]
                elif op == 'imod':
                    a, b = y.args
                    if isc(b) and b.val > 0:
                        q = _mk('idiv', (a, b), 'I')
                        self.pend += [Cond('==', a, add(mul(q, b), y)), Cond('<=', const(0, 'I'), y), Cond('<', y, b)]
                elif op == 'uf' and y.name == 'sqrt':
                    self.pend += [Cond('<=', const(0), y), Cond('==', mul(y, y), y.args[0])]
                for ax in y.axioms: self.pend.append(ax)
            else: raise Unsupported('z3 op ' + op)
            m[y.id] = r
            stack.pop()
        return m[x.id]
    def c(self, c):
        rel = c.rel
        if rel == '<' and c.a.sort == 'I':
            return self.t(c.a) + 1 <= self.t(c.b)
        d = None
        a, b = self.t(c.a), self.t(c.b)
        if rel == '<': return a < b
        if rel == '<=': return a <= b
        if rel == '==': return a == b
        if c.a.sort == 'I' and self.relaxed: return z3.Or(a + 1 <= b, b + 1 <= a)
        return a != b

def show(t, depth=6):
    if t.op == 'const': return str(t.val)
    if t.op == 'var': return t.name
    if depth == 0: return '...'
    a = [show(x, depth - 1) for x in t.args]
    if t.op == 'add': return '(%s + %s)' % tuple(a)
    if t.op == 'mul': return '%s*%s' % tuple(a)
    if t.op == 'div': return '(%s)/(%s)' % tuple(a)
    if t.op == 'toreal': return a[0]
    return '%s(%s)' % (t.name or t.op, ', '.join(a))

scales = {}
def note_scale(t):
    """remember linear multipliers over integers (counts), candidates for factoring conditions"""
    if t.op == 'const' or t.op == 'var' and t.sort == 'R': return
    n = nf(t)
    if n.den or len(n.num) != 2: return
    for m in n.num:
        if len(m) > 1 or m and (m[0][1] != 1 or _byid[-m[0][0] - 1].sort != 'I'): return
    c, p = p_norm(n.num)
    scales[p_key(p)] = True

def poly_term(f):
    t = const(0)
    for m, c in f:
        a = const(c)
        for v, e in m:
            x = _byid[-v - 1]
            for _ in range(e): a = mul(a, toreal(x) if x.sort == 'I' else x)
        t = add(t, a)
    return t
