"""Value-number terms: commutative polynomials over interned atoms, with Iverson
brackets, bound sums and derivative atoms; plus a small affine prover."""
from fractions import Fraction
import itertools, hashlib, math

_atoms = {}
class A:
    __slots__ = ('kind', 'args', 'key', '_fv', '_ph', '_h')
    def __repr__(self): return self.key
    def __lt__(self, o): return self.key < o.key
    def __hash__(self): return self._h

def kof(x):
    if isinstance(x, (P, A, C)): return x.key
    if isinstance(x, tuple): return '(' + ','.join(kof(y) for y in x) + ')'
    return str(x)

def mkA(kind, *args):
    k = kind + '(' + ','.join(kof(a) for a in args) + ')'
    a = _atoms.get(k)
    if a is None:
        a = A(); a.kind = kind; a.args = args; a.key = k; a._fv = None; a._ph = None; a._h = hash(k)
        _atoms[k] = a
    return a

_conds = {}
class C:
    """condition: kinds T,F,le(P<=0),eq(P==0),streq(term,lit),b(name),not,and,or"""
    __slots__ = ('kind', 'args', 'key', '_h', '_fv')
    def __repr__(self): return self.key
    def __hash__(self): return self._h
    def __lt__(self, o): return self.key < o.key

def _mkC(kind, *args):
    k = kind + '[' + ','.join(kof(a) for a in args) + ']'
    c = _conds.get(k)
    if c is None:
        c = C(); c.kind = kind; c.args = args; c.key = k; c._h = hash(k); c._fv = None
        _conds[k] = c
    return c

class Give(Exception): pass   # analysis gives up (undecided)

def _norm_coef(c):
    if isinstance(c, Fraction) and c.denominator == 1: return c.numerator
    return c

MAXTERMS = 60000
class P:
    __slots__ = ('d', '_key', '_h', '_fv', '_ph')
    def __init__(self, d):
        self.d = d; self._key = None; self._h = None; self._fv = None; self._ph = None
        if len(d) > MAXTERMS: raise Give('term too large')
    @property
    def key(self):
        if self._key is None:
            if not self.d: self._key = '0'
            else:
                parts = []
                for m in sorted(self.d, key=lambda m: tuple((a.key, e) for a, e in m)):
                    c = self.d[m]
                    parts.append(str(c) + ''.join('*' + a.key + ('^%s' % e if e != 1 else '') for a, e in m))
                self._key = '+'.join(parts)
                if len(self._key) > 4000:
                    self._key = '#' + hashlib.sha1(self._key.encode()).hexdigest() + ':' + str(len(self.d))
        return self._key
    def __hash__(self):
        if self._h is None: self._h = hash(frozenset(self.d.items()))
        return self._h
    def __eq__(self, o): return isinstance(o, P) and (self is o or self.d == o.d)
    def __repr__(self):
        return show(self)
    def isnum(self): return not self.d or (len(self.d) == 1 and () in self.d)
    def num(self):
        if not self.d: return 0
        if len(self.d) == 1 and () in self.d: return self.d[()]
        return None
    def iszero(self): return not self.d
    def __add__(self, o):
        o = toP(o)
        if not o.d: return self
        if not self.d: return o
        d = dict(self.d)
        for m, c in o.d.items():
            n = d.get(m, 0) + c
            if n == 0: d.pop(m, None)
            else: d[m] = _norm_coef(n)
        return P(d)
    __radd__ = __add__
    def __neg__(self): return P({m: -c for m, c in self.d.items()})
    def __sub__(self, o): return self + (-toP(o))
    def __rsub__(self, o): return toP(o) - self
    def __mul__(self, o):
        o = toP(o)
        if not self.d or not o.d: return ZERO
        if len(o.d) == 1 and () in o.d:
            c = o.d[()]
            return self if c == 1 else P({m: _norm_coef(x * c) for m, x in self.d.items()})
        if len(self.d) == 1 and () in self.d: return o * self
        d = {}
        if len(self.d) * len(o.d) > 400000: raise Give('product too large')
        for m1, c1 in self.d.items():
            for m2, c2 in o.d.items():
                m = mmul(m1, m2)
                if m is None: continue
                n = d.get(m, 0) + c1 * c2
                if n == 0: d.pop(m, None)
                else: d[m] = _norm_coef(n)
        return P(d)
    __rmul__ = __mul__
    def ipow(self, n):
        if n == 0: return ONE
        if n < 0:
            return self.recip().ipow(-n)
        r = ONE
        for _ in range(n): r = r * self
        return r
    def recip(self):
        if not self.d: raise Give('division by zero')
        if len(self.d) == 1:
            (m, c), = self.d.items()
            return P({tuple((a, -e if a.kind != 'iv' else e) for a, e in m): _norm_coef(Fraction(1) / c)})
        # normalise content
        m0 = min(self.d, key=lambda m: tuple((a.key, e) for a, e in m)); c0 = self.d[m0]
        q = self * (Fraction(1) / c0)
        return P({((mkA('fn', 'recip', q), 1),): _norm_coef(Fraction(1) / c0)})
    def div(self, o): return self * toP(o).recip()
    def fv(self):
        """free symbol names"""
        if self._fv is None:
            s = frozenset()
            for m in self.d:
                for a, e in m: s |= afv(a)
            self._fv = s
        return self._fv
    def atoms(self):
        s = set()
        for m in self.d:
            for a, e in m: s.add(a)
        return s

def afv(a):
    if a._fv is None: a._fv = _fvargs(a)
    return a._fv

def _fv(x):
    if isinstance(x, P): return x.fv()
    if isinstance(x, A): return afv(x)
    if isinstance(x, C):
        if x._fv is None: x._fv = _fvt(x.args)
        return x._fv
    if isinstance(x, tuple): return _fvt(x)
    return frozenset()
def _fvt(t):
    s = frozenset()
    for y in t: s |= _fv(y)
    return s
def _fvargs(a):
    if a.kind == 'sym': return frozenset([a.args[0]])
    if a.kind == 'sum':
        rng, mono = a.args
        s = _fv(mono)
        for v, lo, hi in rng: s |= lo.fv() | hi.fv()
        return s - frozenset(v for v, _, _ in rng)
    return _fvt(a.args)

def subatoms(x, pred, acc=None, into_sum=True):
    """collect every atom (recursively, inside conditions and arguments too) satisfying pred"""
    if acc is None: acc = set()
    seen = set()
    def go(x):
        if isinstance(x, P):
            if id(x) in seen: return
            seen.add(id(x))
            for m in x.d:
                for a, e in m: go(a)
        elif isinstance(x, A):
            if x in seen: return
            seen.add(x)
            if pred(x): acc.add(x)
            for y in x.args: go(y)
        elif isinstance(x, C):
            if x in seen: return
            seen.add(x)
            for y in x.args: go(y)
        elif isinstance(x, tuple):
            for y in x: go(y)
    go(x)
    return acc

def has(x, kind):
    return bool(subatoms(x, lambda a: a.kind == kind))

def toP(x):
    if isinstance(x, P): return x
    if isinstance(x, bool): return ONE if x else ZERO
    if isinstance(x, (int, Fraction)): return P({(): _norm_coef(x)}) if x else ZERO
    if isinstance(x, A): return P({((x, 1),): 1})
    raise TypeError(x)
ZERO = P({}); ONE = P({(): 1})
def sym(name): return toP(mkA('sym', name))
def fn(name, *args): return toP(mkA('fn', name, *args))
def ent(fam, *idx): return toP(mkA('ent', fam, *idx))
_topn = [0]
def topP(reason):
    _topn[0] += 1
    return toP(mkA('top', _topn[0], reason))
_fresh = [0]
_nid = [0]
def next_id():
    _nid[0] += 1; return _nid[0]
def fresh(pref='v'):
    _fresh[0] += 1
    return '%s~%d' % (pref, _fresh[0])

# ---------- monomials ----------
def mmul(m1, m2):
    if not m1: return m2
    if not m2: return m1
    d = dict(m1)
    for a, e in m2:
        if a in d:
            if a.kind == 'iv': continue
            n = d[a] + e
            if n == 0: del d[a]
            else: d[a] = n
        else: d[a] = e
    m = tuple(sorted(d.items(), key=lambda t: t[0].key))
    # orthogonality of string equalities
    st = None
    for a, e in m:
        if a.kind == 'iv' and a.args[0].kind == 'streq':
            t, l = a.args[0].args
            if st is None: st = {}
            if st.setdefault(kof(t), l) != l: return None
    return m

# ---------- conditions ----------
TRUE = _mkC('T'); FALSE = _mkC('F')
def cnot(c):
    k = c.kind
    if k == 'T': return FALSE
    if k == 'F': return TRUE
    if k == 'not': return c.args[0]
    if k == 'le': return cle(ONE - c.args[0])
    if k == 'and': return cor(*[cnot(x) for x in c.args])
    if k == 'or': return cand(*[cnot(x) for x in c.args])
    return _mkC('not', c)
def cle(p):
    """p <= 0 over integers"""
    n = p.num()
    if n is not None: return TRUE if n <= 0 else FALSE
    cs = ivconds(p)
    if cs: return ivtable(p, cs, lambda v: v <= 0)
    return _mkC('le', _lenorm(p))
def _lenorm(p):
    # divide by gcd of non-constant coefficients, tighten
    if all(isinstance(c, int) for c in p.d.values()):
        g = 0
        for m, c in p.d.items():
            if m: g = math.gcd(g, c)
        if g > 1:
            d = {}
            for m, c in p.d.items():
                if m: d[m] = c // g
                else:
                    v = -((-c) // g)   # ceil(c/g): p<=0 -> sum <= -c -> sum/g <= floor(-c/g)
                    if v: d[m] = v
            return P(d)
    return p
def ivconds(p):
    """the conditions a polynomial of Iverson brackets depends on, None when it has other atoms"""
    out = []
    for m in p.d:
        for a, e in m:
            if a.kind != 'iv': return None
            if a.args[0] not in out: out.append(a.args[0])
            if len(out) > 4: return None
    return out
def ivtable(p, cs, test):
    """the condition that test holds of a polynomial of brackets"""
    rows = []
    for bits in range(1 << len(cs)):
        on = {cs[i]: bits >> i & 1 for i in range(len(cs))}
        t = [on[c] for c in cs]
        same = [c for i, c in enumerate(cs) if t[i] and c.kind == 'streq']
        if any(x is not y and x.args[0] == y.args[0] for x in same for y in same): continue   # one string, two values
        v = 0
        for m, k in p.d.items():
            if all(on[a.args[0]] for a, e in m): v += k
        if test(v): rows.append(t)
    def build(rows, i):
        if not rows: return FALSE
        if i == len(cs): return TRUE
        a = build([r for r in rows if r[i]], i + 1); b = build([r for r in rows if not r[i]], i + 1)
        if a is b or a == b: return a
        return cor(cand(cs[i], a), cand(cnot(cs[i]), b))
    return build(rows, 0)
def ceq(p):
    n = p.num()
    if n is not None: return TRUE if n == 0 else FALSE
    cs = ivconds(p)
    if cs: return ivtable(p, cs, lambda v: v == 0)
    m0 = min(p.d, key=lambda m: (len(m) == 0, tuple((a.key, e) for a, e in m)))
    if p.d[m0] < 0: p = -p
    if all(isinstance(c, int) for c in p.d.values()):
        g = 0
        for m, c in p.d.items():
            if m: g = math.gcd(g, c)
        if g > 1:
            if p.d.get((), 0) % g: 
                if all(all(a.kind in ('sym',) for a, e in m) for m in p.d): return FALSE
            else: p = P({m: c // g for m, c in p.d.items()})
    return _mkC('eq', p)
def cstreq(t, lit): return _mkC('streq', t, lit)
def cb(*name): return _mkC('b', *name)
def cand(*cs):
    out = []
    for c in cs:
        if c.kind == 'F': return FALSE
        if c.kind == 'T': continue
        for x in (c.args if c.kind == 'and' else (c,)):
            if x not in out: out.append(x)
    for x in out:
        if cnot(x) in out: return FALSE
    if not out: return TRUE
    if len(out) == 1: return out[0]
    return _mkC('and', *sorted(out))
def cor(*cs):
    out = []
    for c in cs:
        if c.kind == 'T': return TRUE
        if c.kind == 'F': continue
        for x in (c.args if c.kind == 'or' else (c,)):
            if x not in out: out.append(x)
    for x in out:
        if cnot(x) in out: return TRUE
    if not out: return FALSE
    if len(out) == 1: return out[0]
    return _mkC('or', *sorted(out))
def clt(a, b): return cle(toP(a) - toP(b) + 1)
def cleq(a, b): return cle(toP(a) - toP(b))
def ceqq(a, b): return ceq(toP(a) - toP(b))

_ivc = {}
def iv(c):
    """Iverson bracket as polynomial over atomic positive brackets"""
    r = _ivc.get(c)
    if r is None:
        k = c.kind
        if k == 'T': r = ONE
        elif k == 'F': r = ZERO
        elif k == 'not': r = ONE - iv(c.args[0])
        elif k == 'and':
            r = ONE
            for x in c.args: r = r * iv(x)
        elif k == 'or':
            r = ONE
            for x in c.args: r = r * (ONE - iv(x))
            r = ONE - r
        elif k == 'le':
            n = cnot(c)
            # canonical orientation
            if n.key < c.key: r = ONE - toP(mkA('iv', n))
            else: r = toP(mkA('iv', c))
        else: r = toP(mkA('iv', c))
        _ivc[c] = r
    return r
def ite(c, a, b):
    if c.kind == 'T': return a
    if c.kind == 'F': return b
    if a == b: return a
    d = a - b
    for x in (c.args if c.kind == 'and' else (c,)):
        if x.kind == 'eq': d = under_eq(x.args[0], d)
    for x in (c.args if c.kind == 'or' else ((c.args[0],) if c.kind == 'not' else ())):
        y = cnot(x) if c.kind == 'or' else x
        if y.kind == 'eq' and c.kind == 'not':   # c is p != 0: value b + (1-[p==0])*d
            d2 = under_eq(y.args[0], d)
            if d2 != d: return b + d - iv(y) * d2
    return iv(c) * d + b
def under_eq(p, d):
    """simplify d knowing p == 0"""
    if not d.d: return d
    m0 = next(iter(p.d))
    if m0 in d.d:
        k = Fraction(d.d[m0]) / Fraction(p.d[m0])
        if p * k == d: return ZERO
    ms = [m for m in p.d if m]
    if len(ms) == 1 and len(ms[0]) == 1 and ms[0][0][1] == 1:
        at = ms[0][0][0]; v = toP(_norm_coef(-Fraction(p.d.get((), 0)) / p.d[ms[0]]))
        if any(a is at for m in d.d for a, e in m):
            r = ZERO
            for m, k in d.d.items():
                e0 = [e for a, e in m if a is at]
                if e0 and e0[0] > 0: r = r + P({tuple((a, e) for a, e in m if a is not at): k}) * v.ipow(e0[0])
                else: r = r + P({m: k})
            return r
    return d

# ---------- substitution ----------
def subst(x, env, memo=None):
    """env: dict symname -> P"""
    if memo is None: memo = {}
    names = frozenset(env)
    def go(x):
        if isinstance(x, P):
            if not (x.fv() & names): return x
            k = ('p', x)
            if k in memo: return memo[k]
            r = {}
            out = ZERO
            simple = {}
            for m, c in x.d.items():
                mf = False
                for a, e in m:
                    if afv(a) & names: mf = True; break
                if not mf: simple[m] = c; continue
                t = None; keep = []
                for a, e in m:
                    if afv(a) & names:
                        g = goA(a)
                        g = g.ipow(e) if e != 1 else g
                        t = g if t is None else t * g
                    else: keep.append((a, e))
                t = t * P({tuple(keep): c})
                for mm, cc in t.d.items():
                    n = r.get(mm, 0) + cc
                    if n == 0: r.pop(mm, None)
                    else: r[mm] = _norm_coef(n)
            for m, c in simple.items():
                n = r.get(m, 0) + c
                if n == 0: r.pop(m, None)
                else: r[m] = _norm_coef(n)
            out = P(r)
            memo[k] = out
            return out
        if isinstance(x, A): return goA(x)
        if isinstance(x, C): return goC(x)
        if isinstance(x, tuple): return tuple(go(y) for y in x)
        return x
    def goA(a):
        if not (afv(a) & names): return toP(a)
        if a in memo: return memo[a]
        if a.kind == 'sym': r = env[a.args[0]]
        elif a.kind == 'sum':
            rng, mono = a.args
            ren = {}; nr = []
            for v, lo, hi in rng:
                nv = fresh('b'); ren[v] = sym(nv); nr.append((nv, lo, hi))
            body = subst(P({mono: 1}), ren)
            nr = [(v, go(subst(lo, ren)), go(subst(hi, ren))) for v, lo, hi in nr]
            body = go(body)
            r = body
            for v, lo, hi in reversed(nr): r = mksum(v, lo, hi, r)
        else: r = rebuild(a, [goArg(y) for y in a.args])
        memo[a] = r
        return r
    def goArg(y):
        if isinstance(y, A):
            r = goA(y)
            return r
        return go(y)
    def goC(c):
        if not (_fv(c) & names): return c
        return recond(c, [go(y) for y in c.args])
    return go(x)

def recond(c, args):
    k = c.kind
    if k == 'le': return cle(args[0])
    if k == 'eq': return ceq(args[0])
    if k == 'not': return cnot(args[0])
    if k == 'and': return cand(*args)
    if k == 'or': return cor(*args)
    if k == 'streq': return cstreq(*args)
    return _mkC(k, *args)

REBUILD = {}
def rebuild(a, args):
    """re-create an atom from (possibly polynomial) arguments"""
    if a.kind == 'iv': return iv(args[0])
    f = REBUILD.get(a.kind)
    if f: return f(a, args)
    if a.kind == 'fn': return mkfn(args[0], *args[1:])
    if a.kind == 'D':
        return deriv_atom(args[0], args[1], args[2])
    if a.kind in ('div', 'mod'): return (pdiv if a.kind == 'div' else pmod)(args[0], args[1])
    return toP(mkA(a.kind, *args))

# ---------- functions ----------
def mkfn(name, *args):
    if name == 'abs':
        (p,) = args
        n = p.num()
        if n is not None: return toP(abs(n))
        m0 = min(p.d, key=lambda m: tuple((a.key, e) for a, e in m))
        if p.d[m0] < 0: p = -p
        return fn('abs', p)
    if name == 'sqrt':
        (p,) = args
        s = psqrt(p)
        if s is not None: return mkfn('abs', s)
        return fn('sqrt', p)
    if name == 'pow':
        b, e = args
        n = e.num()
        if n is not None and isinstance(n, int) and 0 <= n <= 8: 
            if b.d and (len(b.d) <= 4 or n <= 2): return b.ipow(n)
        if n is not None and isinstance(n, int) and n < 0: return b.recip().ipow(-n) if n > -4 else fn('pow', b, e)
        # split integer part of symbolic exponent: b^(e0 + c) -> canonical b^e0 * b^c with 0<=c
        c = e.d.get((), 0)
        if isinstance(c, int) and c > 0 and c < 8:
            return fn('pow', b, e - c) * b.ipow(c)
        if b.num() == 1: return ONE
        return fn('pow', b, e)
    if name in ('sin', 'tan', 'asin', 'sinh'):
        (p,) = args
        if p.iszero(): return ZERO
        m0 = min(p.d, key=lambda m: tuple((a.key, e) for a, e in m))
        if p.d[m0] < 0: return -fn(name, -p)
        return fn(name, p)
    if name == 'cos':
        (p,) = args
        if p.iszero(): return ONE
        m0 = min(p.d, key=lambda m: tuple((a.key, e) for a, e in m))
        if p.d[m0] < 0: p = -p
        return fn('cos', p)
    if name == 'recip': return args[0].recip()
    return fn(name, *args)

def psqrt(p):
    """if p is syntactically q^2 return q"""
    if len(p.d) == 1:
        (m, c), = p.d.items()
        r = math.isqrt(c) if isinstance(c, int) and c >= 0 else None
        if r is not None and r * r == c and all(e % 2 == 0 for a, e in m):
            return P({tuple((a, e // 2) for a, e in m): r})
        return None
    # try q = sum of sqrt of pure-square monomials, with signs
    sq = []
    for m, c in p.d.items():
        if m and all(e % 2 == 0 for a, e in m) and isinstance(c, int) and c > 0 and math.isqrt(c) ** 2 == c:
            sq.append(P({tuple((a, e // 2) for a, e in m): math.isqrt(c)}))
    if not (1 < len(sq) <= 4): return None
    for signs in itertools.product((1, -1), repeat=len(sq) - 1):
        q = sq[0]
        for s, t in zip(signs, sq[1:]): q = q + t * s
        if q * q == p: return q
    return None

# ---------- sums ----------
def mksum(v, lo, hi, body):
    """sum_{v=lo}^{hi-1} body"""
    lo = toP(lo); hi = toP(hi)
    n = (hi - lo).num()
    if n is not None and isinstance(n, int):
        if n <= 0: return ZERO
        if n <= 16:
            r = ZERO
            for i in range(n): r = r + subst(body, {v: lo + i})
            return r
    # range split into a product n1*n2 (re-index  v = u + n1*w)
    span = hi - lo
    if len(span.d) == 1:
        (m, c), = span.d.items()
        deg = sum(e for a, e in m)
        if deg == 2 and c == 1 and all(a.kind == 'sym' for a, e in m):
            (a1, e1) = m[0]
            n1 = toP(a1); n2 = span.div(n1)
            u, w = fresh('b'), fresh('b')
            with_facts(cle(-sym(u)), clt(sym(u), n1), cle(-sym(w)), clt(sym(w), n2))
            b = subst(body, {v: lo + sym(u) + n1 * sym(w)})
            return mksum(w, ZERO, n2, mksum(u, ZERO, n1, b))
    if not (frozenset([v]) & body.fv()):
        return body * _possize(span)
    out = {}
    for m, c in body.d.items():
        for mm, cc in _summono(v, lo, hi, m).d.items():
            n = out.get(mm, 0) + cc * c
            if n == 0: out.pop(mm, None)
            else: out[mm] = _norm_coef(n)
    return P(out)

def _possize(span): return span   # loop/sum ranges are assumed non-negative (checked where it matters)

def _summono(v, lo, hi, m):
    out = []; dep = []
    for a, e in m:
        (dep if v in afv(a) else out).append((a, e))
    outP = P({tuple(out): 1})
    if not dep: return outP * (hi - lo)
    # Kronecker elimination
    for a, e in dep:
        if a.kind == 'iv' and a.args[0].kind == 'eq':
            sol = solve_lin(a.args[0].args[0], v)
            if sol is not None:
                rest = P({tuple(x for x in dep if x[0] is not a): 1})
                r = subst(rest, {v: sol})
                cond = cand(cleq(lo, sol), clt(sol, hi))
                return outP * iv(simpC(cond, GLOBAL)) * r
    # range-membership brackets restrict the sum range
    for a, e in dep:
        if a.kind == 'iv' and a.args[0].kind == 'le':
            p = a.args[0].args[0]
            c = p.d.get(((mkA('sym', v), 1),))
            if c in (1, -1) and sum(1 for mm in p.d if any(v in afv(x) for x, _ in mm)) == 1:
                rest_p = p - sym(v) * c
                pos = (c == 1)
                rest = P({tuple(x for x in dep if x[0] is not a): 1})
                if pos:   # v <= -rest_p
                    nb = -rest_p + 1
                    if prove(cleq(nb, hi)) : 
                        if prove(cleq(lo, nb)): return outP * mksum(v, lo, nb, rest)
                    elif prove(cleq(hi, nb)): return outP * mksum(v, lo, hi, rest)
                else:     # v >= rest_p
                    nb = rest_p
                    if prove(cleq(lo, nb)):
                        if prove(cleq(nb, hi)): return outP * mksum(v, nb, hi, rest)
                    elif prove(cleq(nb, lo)): return outP * mksum(v, lo, hi, rest)
    # connected components: flatten nested sums that depend on v
    rngs = [(v, lo, hi)]; fac = []
    for a, e in dep:
        if a.kind == 'sum' and e > 0:
            for _ in range(e):
                r2, mono = a.args
                ren = {}; 
                nr = []
                for w, l, h in r2:
                    nw = fresh('b'); ren[w] = sym(nw); nr.append((nw, l, h))
                mono2 = subst(P({mono: 1}), ren)
                (mm, cc), = mono2.d.items()
                rngs += [(w, subst(l, ren), subst(h, ren)) for w, l, h in nr]
                fac.append((mm, cc))
        else: fac.append((((a, e),), 1))
    mono = (); coef = 1
    for mm, cc in fac:
        mono = mmul(mono, mm); coef *= cc
        if mono is None: return ZERO
    # split mono into connected components wrt bound vars (v connects everything dep on it by construction)
    return outP * toP(_canon_sum(rngs, mono)) * coef

def _canon_sum(rngs, mono):
    vs = [r[0] for r in rngs]
    n = len(vs)
    best = None
    dep = any(set(vs) & (lo.fv() | hi.fv()) for _, lo, hi in rngs)
    if n > 5: raise Give('too many nested sums')
    perms = itertools.permutations(range(n)) if not dep else _depperms(rngs)
    for pm in perms:
        env = {vs[i]: sym('@%d' % k) for k, i in enumerate(pm)}
        mm = subst(P({mono: 1}), env)
        rr = tuple(('@%d' % k, subst(rngs[i][1], env), subst(rngs[i][2], env)) for k, i in enumerate(pm))
        if len(mm.d) != 1: raise Give('sum canonicalisation')
        (m2, c2), = mm.d.items()
        key = (kof(rr), tuple((a.key, e) for a, e in m2))
        if best is None or key < best[0]: best = (key, rr, m2, c2)
    _, rr, m2, c2 = best
    return P({((mkA('sum', rr, m2), 1),): c2})
def _depperms(rngs):
    n = len(rngs)
    for pm in itertools.permutations(range(n)):
        ok = True; seen = set()
        for i in pm:
            need = (rngs[i][1].fv() | rngs[i][2].fv()) & set(r[0] for r in rngs)
            if not need <= seen: ok = False; break
            seen.add(rngs[i][0])
        if ok: yield pm

def solve_lin(p, v):
    """p == 0 linear in symbol v with unit coefficient -> v"""
    a = ((mkA('sym', v), 1),)
    c = p.d.get(a)
    if c not in (1, -1): return None
    rest = P({m: x for m, x in p.d.items() if m != a})
    if v in rest.fv(): return None
    return -rest if c == 1 else rest

# ---------- integer division ----------
def pdivmod(e, a, ctx=None):
    e = toP(e); a = toP(a)
    if a.num() == 1: return e, ZERO
    n, d = e.num(), a.num()
    if n is not None and d is not None and d != 0: return toP(n // d), toP(n % d)
    q = ZERO; r = ZERO
    if len(a.d) == 1:
        (am, ac), = a.d.items()
        for m, c in e.d.items():
            md = dict(m); ok = True
            for at, ex in am:
                if md.get(at, 0) < ex: ok = False; break
            if ok and isinstance(c, int) and c % ac == 0:
                for at, ex in am:
                    md[at] -= ex
                    if md[at] == 0: del md[at]
                q = q + P({tuple(sorted(md.items(), key=lambda t: t[0].key)): c // ac})
            else: r = r + P({m: c})
        if prove(cand(cle(-r), clt(r, a)), ctx): return q, r
        # r may exceed by constant multiples
        if isinstance(ac, int) and not am:
            k = r.d.get((), 0)
            if isinstance(k, int):
                kk = k // ac
                r2 = r - kk * ac
                if prove(cand(cle(-r2), clt(r2, a)), ctx): return q + kk, r2
    return None
def pdiv(e, a, ctx=None):
    x = pdivmod(e, a, ctx)
    return x[0] if x else toP(mkA('div', toP(e), toP(a)))
def pmod(e, a, ctx=None):
    x = pdivmod(e, a, ctx)
    return x[1] if x else toP(mkA('mod', toP(e), toP(a)))

# ---------- derivatives ----------
# DEPENDS(atom) -> set of base variable families the atom may depend on (None = unknown, any)
DEPENDS = [lambda a, fam: True]
def deriv_atom(a, fam, k):
    """d a / d fam[k]; a: atom or polynomial"""
    if isinstance(a, P):
        return deriv(a, fam, k)
    return deriv(toP(a), fam, k)
def deriv(p, fam, k):
    memo = {}
    def go(p):
        r = {}
        for m, c in p.d.items():
            for i, (a, e) in enumerate(m):
                da = goA(a)
                if da.iszero(): continue
                rest = m[:i] + m[i+1:]
                t = P({rest: c})
                if e != 1: t = t * P({((a, e - 1),): e})
                for m2, c2 in (t * da).d.items():
                    x = r.get(m2, 0) + c2
                    if x == 0: r.pop(m2, None)
                    else: r[m2] = _norm_coef(x)
                if len(r) > MAXTERMS: raise Give('term too large')
        return P(r)
    def goA(a):
        if a in memo: return memo[a]
        memo[a] = r = goA2(a)
        return r
    def goA2(a):
        kd = a.kind
        if kd in ('sym', 'iv', 'div', 'mod'): return ZERO
        if kd == 'ent':
            if a.args[0] == fam: return iv(ceqq(a.args[1], k))
            if not DEPENDS[0](a, fam): return ZERO
            return toP(mkA('D', a, fam, k))
        if kd == 'fn':
            n = a.args[0]
            if n == 'sin': return mkfn('cos', a.args[1]) * go(a.args[1])
            if n == 'cos': return -mkfn('sin', a.args[1]) * go(a.args[1])
            if n == 'recip': return -toP(a) * toP(a) * go(a.args[1])
            if n == 'pow':
                db = go(a.args[1])
                return a.args[2] * mkfn('pow', a.args[1], a.args[2] - 1) * db if not db.iszero() else ZERO
            if n == 'sqrt': return go(a.args[1]) * toP(a).recip() * Fraction(1, 2)
            if n == 'abs':
                d = go(a.args[1])
                return d * fn('sign', a.args[1]) if not d.iszero() else ZERO
            if n in ('sign', 'floor', 'ceil'): return ZERO
            if n in ('exp', 'tan', 'log', 'tanh', 'atan', 'sinh', 'cosh'):
                d = go(a.args[1])
                if d.iszero(): return ZERO
                x = a.args[1]; t = toP(a)
                return d * {'exp': lambda: t, 'tan': lambda: t * t + 1, 'log': lambda: x.recip(), 'tanh': lambda: ONE - t * t,
                            'atan': lambda: (x * x + 1).recip(), 'sinh': lambda: fn('cosh', x), 'cosh': lambda: mkfn('sinh', x)}[n]()
            ds = [go(x) for x in a.args[1:] if isinstance(x, P)]
            if all(d.iszero() for d in ds) and not _mentions(a, fam): return ZERO
            return toP(mkA('D', a, fam, k))
        if kd == 'sum':
            rng, mono = a.args
            ren = {v: sym(fresh('b')) for v, _, _ in rng}
            names = [next(iter(ren[v].fv())) for v, _, _ in rng]
            b = subst(P({mono: 1}), ren)
            d = go(b)
            for nv, (v, lo, hi) in reversed(list(zip(names, rng))):
                d = mksum(nv, subst(lo, ren), subst(hi, ren), d)
            return d
        if kd == 'D' or kd == 'let':
            if not DEPENDS[0](a, fam): return ZERO
            if kd == 'D':
                # canonical order of mixed partials
                a0 = a.args[0]; x1 = (a.args[1], a.args[2]); x2 = (fam, k)
                chain = [x1, x2]
                while a0.kind == 'D':
                    chain.append((a0.args[1], a0.args[2])); a0 = a0.args[0]
                chain.sort(key=lambda t: (t[0], t[1].key))
                for f_, k_ in chain: a0 = mkA('D', a0, f_, k_)
                return toP(a0)
            return toP(mkA('D', a, fam, k))
        if kd in ('top', '$', 'rec'):
            return toP(mkA('D', a, fam, k)) if kd != 'top' else topP('derivative of unknown')
        return toP(mkA('D', a, fam, k))
    return go(toP(p))
def _mentions(a, fam):
    return bool(subatoms(a, lambda x: x.kind in ('ent', 'let', '$', 'rec', 'top')))

# ---------- prover ----------
class Ctx:
    def __init__(self, facts=(), parent=None):
        self.le = []; self.eqs = []; self.lits = set(); self.strs = {}; self.bad = False; self.cache = {}
        self.doms = {}
        if parent is not None:
            self.le = list(parent.le); self.eqs = list(parent.eqs); self.lits = set(parent.lits)
            self.strs = {k: (v[0], set(v[1])) for k, v in parent.strs.items()}; self.bad = parent.bad
            self.doms = parent.doms
        for f in facts: self.add(f)
    def add(self, c):
        self.cache = {}
        k = c.kind
        if k == 'T': return self
        if k == 'F': self.bad = True
        elif k == 'and':
            for x in c.args: self.add(x)
        elif k == 'le': self.le.append(c.args[0]); self.lits.add(c)
        elif k == 'eq': self.eqs.append(c.args[0]); self.le += [c.args[0], -c.args[0]]; self.lits.add(c)
        elif k == 'streq':
            t = kof(c.args[0]); cur = self.strs.get(t, (None, set()))
            if (cur[0] is not None and cur[0] != c.args[1]) or c.args[1] in cur[1]: self.bad = True
            self.strs[t] = (c.args[1], cur[1])
        elif k == 'not' and c.args[0].kind == 'streq':
            t = kof(c.args[0].args[0]); l = c.args[0].args[1]; cur = self.strs.get(t, (None, set()))
            if cur[0] == l: self.bad = True
            self.strs[t] = (cur[0], cur[1] | {l})
            dom = self.strdom(c.args[0].args[0])
            if dom and dom <= self.strs[t][1]: self.bad = True
        else: self.lits.add(c)
        return self
    def strdom(self, t):
        for pref, dom in STRDOMS.items():
            if kof(t).startswith(pref): return dom
        return None
    def plus(self, *cs):
        c = Ctx(cs, self)
        for x in cs:
            if x.kind == 'not' and x.args[0].kind == 'eq':
                p = x.args[0].args[0]
                if c.prove_le(-p): c.add(cle(ONE - p))
                elif c.prove_le(p): c.add(cle(p + 1))
        return c
    def infeasible(self):
        if self.bad: return True
        for c in self.lits:
            if c.kind == 'or' and all(self.decide(x) is False for x in c.args): return True
            if cnot(c) in self.lits: return True
            if c.kind == 'not' and c.args[0].kind == 'eq':
                p = c.args[0].args[0]
                if self.prove_le(p) and self.prove_le(-p): return True
        r = self.cache.get('inf')
        if r is None:
            les = self.le + (GLOBAL.le if self is not GLOBAL else [])
            r = fm_split(les + gather(self.le), None)
            self.cache['inf'] = r
        return r
    def decide(self, c):
        k = c.kind
        if k == 'T': return True
        if k == 'F': return False
        if c in self.cache: return self.cache[c]
        r = self._decide(c)
        self.cache[c] = r
        return r
    def _decide(self, c):
        k = c.kind
        if c in self.lits: return True
        n = cnot(c)
        if n in self.lits: return False
        if k == 'not':
            r = self.decide(c.args[0]); return None if r is None else not r
        if k == 'and':
            rs = [self.decide(x) for x in c.args]
            if any(r is False for r in rs): return False
            return True if all(r is True for r in rs) else None
        if k == 'or':
            rs = [self.decide(x) for x in c.args]
            if any(r is True for r in rs): return True
            return False if all(r is False for r in rs) else None
        if k == 'le':
            if self.prove_le(c.args[0]): return True
            if self.prove_le(ONE - c.args[0]): return False
            return None
        if k == 'eq':
            p = c.args[0]
            if self.prove_le(p) and self.prove_le(-p): return True
            if self.prove_le(p + 1) or self.prove_le(ONE - p): return False
            return None
        if k == 'streq':
            cur = self.strs.get(kof(c.args[0]))
            if cur:
                if cur[0] is not None: return cur[0] == c.args[1]
                if c.args[1] in cur[1]: return False
            dom = self.strdom(c.args[0])
            if dom:
                if c.args[1] not in dom: return False
                if cur and dom - cur[1] == {c.args[1]}: return True
            return None
        return None
    def prove_le(self, p):
        n = p.num()
        if n is not None: return n <= 0
        facts = self.le + (GLOBAL.le if self is not GLOBAL else [])
        rel = relevant(facts, p)
        return fm_split(rel + gather(rel + [p]) + [ONE - p], p)

GLOBAL = Ctx()
STRDOMS = {}
GFACTS = {}          # owner symbol -> [poly <= 0]; facts about a fresh index symbol
def _gensyms(p): return [s for s in p.fv() if '~' in s]
def with_facts(*cs):
    """permanent facts; facts about fresh index symbols are filed under the youngest one"""
    for c in cs:
        if c.kind == 'and': with_facts(*c.args); continue
        if c.kind == 'T': continue
        own = None
        if c.kind in ('le', 'eq'):
            g = _gensyms(c.args[0])
            if g: own = max(g, key=lambda s: int(s.rsplit('~', 1)[1]))
        if own is None: GLOBAL.add(c); continue
        l = GFACTS.setdefault(own, [])
        l.append(c.args[0])
        if c.kind == 'eq': l.append(-c.args[0])
def gather(polys):
    """global facts relevant for the index symbols of the given polynomials"""
    need = set(); todo = []
    for p in polys:
        for s in _gensyms(p):
            if s not in need: need.add(s); todo.append(s)
    out = []
    while todo:
        s = todo.pop()
        for f in GFACTS.get(s, ()):
            out.append(f)
            for s2 in _gensyms(f):
                if s2 not in need: need.add(s2); todo.append(s2)
    return out
def set_iv(p, c, val, memo=None):
    """replace bracket atom of (canonical) condition c by val at the top level of monomials"""
    at = next(iter(next(m for m in iv(c).d if m)))[0]
    v = val if at.args[0] is c else 1 - val
    r = {}
    for m, k in p.d.items():
        if any(a is at for a, e in m):
            if v == 0: continue
            m = tuple((a, e) for a, e in m if a is not at)
        n = r.get(m, 0) + k
        if n == 0: r.pop(m, None)
        else: r[m] = n
    return P(r)
def prove(c, ctx=None): return (ctx or CUR[0]).decide(c) is True
CUR = [GLOBAL]
def simpC(c, ctx):
    r = ctx.decide(c)
    return TRUE if r is True else FALSE if r is False else c

def relevant(facts, p):
    syms = set(p.fv()); out = []; pool = list(facts); ch = True
    while ch:
        ch = False; rest = []
        for f in pool:
            if f.fv() & syms: out.append(f); syms |= f.fv(); ch = True
            else: rest.append(f)
        pool = rest
    return out
_splitcache = {}
def fm_split(les, goal, depth=0):
    """rational infeasibility with case splitting on brackets inside the constraints"""
    key = frozenset(les)
    r = _splitcache.get(key)
    if r is not None: return r
    ivs = set()
    for p in les:
        for m in p.d:
            for a, e in m:
                if a.kind == 'iv' and a.args[0].kind in ('le', 'eq'): ivs.add(a.args[0])
    if not ivs or depth > 4: r = fm_infeasible(les, None)
    else:
        c = min(ivs)
        r = True
        for val in (1, 0):
            lit = c if val else cnot(c)
            extra = []
            if lit.kind == 'le': extra = [lit.args[0]]
            elif lit.kind == 'eq': extra = [lit.args[0], -lit.args[0]]
            if not fm_split([set_iv(p, c, val) for p in les] + extra, None, depth + 1): r = False; break
    _splitcache[key] = r
    return r
_fmcache = {}
def fm_infeasible(les, goal=None):
    """les: polys <=0 ; rational infeasibility by Fourier-Motzkin over monomials"""
    cons = []
    nonneg = set()
    for p in les:
        cons.append(p)
    # relevance closure from goal monomials
    if goal is not None:
        want = set(m for m in goal.d if m)
        syms = set(goal.fv())
        rel = [cons[-1]]; pool = cons[:-1]; changed = True
        while changed:
            changed = False
            np = []
            for p in pool:
                if set(p.fv()) & syms:
                    rel.append(p); syms |= p.fv(); changed = True
                else: np.append(p)
            pool = np
        cons = rel
    key = frozenset(cons)
    if key in _fmcache: return _fmcache[key]
    lin = [dict(p.d) for p in set(cons)]
    # product facts for degree-2 monomials
    deg2 = set(m for d in lin for m in d if sum(abs(e) for a, e in m) >= 2 and all(a.kind == 'sym' for a, e in m))
    if deg2:
        nn = [m for d in lin for m in [_single_nonneg(d)] if m is not None]
        syms = set(a for m in deg2 for a, e in m)
        nnset = set(m[0][0] for m in nn)
        extra = []
        base = [P(d) for d in lin]
        for s in syms & nnset:
            for p in base:
                if all(sum(e for _, e in m) <= 1 for m in p.d) and len(p.d) <= 4:
                    q = p * toP(s)
                    if any(m in deg2 for m in q.d): extra.append(dict(q.d))
        lin += extra[:60]
    r = _fm(lin)
    _fmcache[key] = r
    return r
def _single_nonneg(d):
    # -x + c <= 0 with c >= 0  => x >= c >= 0
    ms = [m for m in d if m]
    if len(ms) == 1 and len(ms[0]) == 1 and ms[0][0][1] == 1 and d[ms[0]] < 0 and d.get((), 0) >= 0: return ms[0]
    return None
def _fm(lin):
    cons = []
    seen = set()
    def add(d, out):
        ms = [m for m in d if m]
        if not ms:
            return d.get((), 0) > 0
        # normalise
        k = abs(d[min(ms, key=lambda m: tuple((a.key, e) for a, e in m))])
        t = frozenset((m, Fraction(c) / k) for m, c in d.items())
        if t in seen: return False
        seen.add(t); out.append(dict(t)); return False
    for d in lin:
        if add(d, cons): return True
    steps = 0
    while True:
        vars_ = {}
        for d in cons:
            for m, c in d.items():
                if m:
                    v = vars_.setdefault(m, [0, 0]); v[0 if c > 0 else 1] += 1
        if not vars_: return False
        m = min(vars_, key=lambda m: (vars_[m][0] * vars_[m][1], kof(tuple(a for a, e in m))))
        pos = [d for d in cons if d.get(m, 0) > 0]; neg = [d for d in cons if d.get(m, 0) < 0]
        rest = [d for d in cons if m not in d]
        seen = set(frozenset(d.items()) for d in rest)
        new = rest
        if len(pos) * len(neg) > 600: return False
        for a in pos:
            for b in neg:
                ca, cb_ = a[m], -b[m]
                d = {}
                for mm, c in a.items(): d[mm] = d.get(mm, 0) + c * cb_
                for mm, c in b.items(): d[mm] = d.get(mm, 0) + c * ca
                d = {mm: c for mm, c in d.items() if c != 0}
                if add(d, new): return True
        cons = new
        steps += 1
        if steps > 40 or len(cons) > 1500: return False

# ---------- simplification under a context ----------
def simp(x, ctx, memo=None):
    if memo is None: memo = {}
    def go(x):
        if isinstance(x, P):
            if x in memo: return memo[x]
            if not any(_needs(a) for m in x.d for a, e in m): memo[x] = x; return x
            acc = {}
            for m, c in x.d.items():
                t = P({(): c}); keep = []
                zero = False
                for a, e in m:
                    if _needs(a):
                        g = goA(a)
                        if g.iszero() and e > 0: zero = True; break
                        if e != 1: g = g.ipow(e)
                        t = t * g
                    else: keep.append((a, e))
                if zero: continue
                t = t * P({tuple(keep): 1})
                for mm, cc in t.d.items():
                    n = acc.get(mm, 0) + cc
                    if n == 0: acc.pop(mm, None)
                    else: acc[mm] = _norm_coef(n)
            r = P(acc)
            memo[x] = r
            return r
        if isinstance(x, A): return goA(x)
        if isinstance(x, C): return goC(x)
        if isinstance(x, tuple): return tuple(go(y) for y in x)
        return x
    def goA(a):
        if a in memo: return memo[a]
        if not _needs(a): r = toP(a)
        elif a.kind == 'iv':
            c = goC(a.args[0])
            r = iv(c)
        elif a.kind == 'sum':
            rng, mono = a.args
            ren = {v: sym(fresh('b')) for v, _, _ in rng}
            inner = ctx
            nr = []
            for v, lo, hi in rng:
                lo2 = go(subst(lo, ren)); hi2 = go(subst(hi, ren)); s = ren[v]
                inner = inner.plus(cleq(lo2, s), clt(s, hi2))
                nr.append((next(iter(s.fv())), lo2, hi2))
            b = simp(subst(P({mono: 1}), ren), inner)
            for v, lo, hi in reversed(nr): b = mksum(v, lo, hi, b)
            r = b
        elif a.kind in ('div', 'mod'):
            e, d = go(a.args[0]), go(a.args[1])
            r = (pdiv if a.kind == 'div' else pmod)(e, d, ctx)
        else: r = rebuild(a, [go(y) if not isinstance(y, A) else goA(y) for y in a.args])
        memo[a] = r
        return r
    def goC(c):
        if c in memo: return memo[c]
        if c.kind in ('T', 'F'): return c
        c2 = recond(c, [go(y) for y in c.args])
        d = ctx.decide(c2)
        r = TRUE if d is True else FALSE if d is False else c2
        memo[c] = r
        return r
    return go(x)
_needc = {}
def _needs(a):
    r = _needc.get(a)
    if r is None:
        r = a.kind in ('iv', 'div', 'mod') or bool(subatoms(a, lambda y: y.kind in ('iv', 'div', 'mod')))
        _needc[a] = r
    return r

def free_ivs(p):
    """Iverson conditions not depending on bound sum variables, outermost first"""
    out = set()
    def go(x, bound):
        if isinstance(x, P):
            for m in x.d:
                for a, e in m: go(a, bound)
        elif isinstance(x, A):
            if x.kind == 'iv':
                c = x.args[0]
                inner = subatoms(c, lambda y: y.kind == 'iv')
                if inner: 
                    for y in c.args: go(y, bound)
                elif not (_fv(c) & bound): out.add(c)
                return
            if x.kind == 'sum':
                rng, mono = x.args
                b2 = bound | frozenset(v for v, _, _ in rng)
                for v, lo, hi in rng: go(lo, bound); go(hi, bound)
                for a, e in mono: go(a, b2)
                return
            for y in x.args: go(y, bound)
        elif isinstance(x, tuple):
            for y in x: go(y, bound)
        elif isinstance(x, C):
            for y in x.args: go(y, bound)
    go(p, frozenset())
    return sorted(out)

def prove_zero(p, ctx, depth=0, trace=None):
    """True: p==0 under ctx in every case; else returns (False, residual, assumptions)"""
    p = simp(p, ctx)
    if p.iszero(): return True, None, None
    if ctx.infeasible(): return True, None, None
    if depth > 14: return False, p, ctx
    cs = free_ivs(p)
    if not cs:
        # use equalities known in ctx
        for e in ctx.eqs:
            for s in sorted(e.fv()):
                sol = solve_lin(e, s)
                if sol is not None and s in p.fv():
                    q = subst(p, {s: sol})
                    if q != p: 
                        c2 = Ctx((), ctx)
                        r = prove_zero(simp(q, c2), c2, depth + 1)
                        if r[0]: return r
        return False, p, ctx
    # prefer string conditions, then equality, then inequality
    pr = {'streq': 0, 'b': 1, 'eq': 2, 'le': 3}
    c = min(cs, key=lambda c: (pr.get(c.kind, 4), c.key))
    for lit in (c, cnot(c)):
        c2 = ctx.plus(lit)
        if c2.infeasible(): continue
        q = p
        if lit.kind == 'eq':
            # substitute
            e = lit.args[0]
            for s in sorted(e.fv(), key=lambda s: (not s.startswith(('i~', 'b~', 'v~')), s)):
                sol = solve_lin(e, s)
                if sol is not None:
                    q = subst(p, {s: sol})
                    # transport context
                    c2 = subst_ctx(c2, {s: sol})
                    break
        r = prove_zero(q, c2, depth + 1)
        if not r[0]: return r
    return True, None, None
def subst_ctx(ctx, env):
    c = Ctx((), None)
    c.le = [subst(p, env) for p in ctx.le]; c.eqs = [subst(p, env) for p in ctx.eqs]
    c.lits = set(subst(l, env) for l in ctx.lits)
    c.strs = dict(ctx.strs); c.bad = ctx.bad
    # strings: keys are textual; rebuild from stored condition terms
    c.strs = {}
    c._sterms = {}
    for k, v in ctx.strs.items():
        t = STRTERM.get(k)
        nk = kof(subst(t, env)) if t is not None else k
        if t is not None: STRTERM[nk] = subst(t, env)
        cur = c.strs.get(nk)
        if cur:
            if cur[0] is not None and v[0] is not None and cur[0] != v[0]: c.bad = True
            if (cur[0] or v[0]) in (cur[1] | v[1]) and (cur[0] or v[0]) is not None: c.bad = True
            c.strs[nk] = (cur[0] or v[0], cur[1] | v[1])
        else: c.strs[nk] = v
    for l in list(c.lits):
        if l.kind == 'F': c.bad = True
    return c
STRTERM = {}
_oldstreq = cstreq
def cstreq(t, lit):
    if isinstance(t, A): t = toP(t)
    STRTERM[kof(t)] = t
    return _oldstreq(t, lit)

# ---------- numeric valuation of terms (refuter) ----------
POSITIVE = {'par_DYN', 'par_REG', 'par_K', 'par_D', 'par_Dm', 'par_Dl', 'par_Mm'}
class NoVal(Exception): pass
class Undefined(Exception): """the expression has no value in this valuation"""
NUMFN = {'sin', 'cos', 'tan', 'sqrt', 'abs', 'recip', 'pow', 'sign', 'exp', 'log', 'asin', 'acos', 'atan', 'atan2', 'sinh', 'cosh', 'tanh', 'floor', 'ceil', 'fmin', 'fmax', 'fmod', 'f32'}
class Val:
    """valuation of atoms by hashing: used to confirm that two unequal normal forms denote different functions"""
    def __init__(self, seed, ints): self.seed = seed; self.ints = ints; self.memo = {}
    signed = False; zeros = ()
    def h(self, s):
        x = int(hashlib.md5((str(self.seed) + '|' + s).encode()).hexdigest()[:12], 16)
        return 0.3 + 1.2 * x / float(1 << 48)
    def base(self, a, env):
        """value of an entry of a variable"""
        s = a.kind + '(' + ','.join(self.argk(y, env) for y in a.args) + ')'
        f = str(a.args[0]) if a.args else ''
        f = f[6:] if f.startswith('model:') else f
        if f in self.zeros: return 0.0
        v = self.h(s)
        if self.signed and int(v * 1e6) % 2 and f not in POSITIVE: v = -v
        return v
    def e(self, x, env=None):
        env = env or {}
        if isinstance(x, P):
            t = 0.0
            for m, c in x.d.items():
                v = float(c)
                for a, ex in m:
                    if a.kind == 'iv':
                        if not self.c(a.args[0], env): v = 0.0; break
                for a, ex in m:
                    if v == 0.0: break
                    if a.kind == 'iv': continue
                    v *= self.a(a, env) ** ex
                t += v
            return t
        if isinstance(x, A): return self.a(x, env)
        raise TypeError(x)
    def argk(self, y, env):
        if isinstance(y, P):
            v = self.e(y, env); return '%.6g' % v
        if isinstance(y, A):
            return y.kind + '<' + ','.join(self.argk(z, env) for z in y.args) + '>'
        if isinstance(y, tuple): return '(' + ','.join(self.argk(z, env) for z in y) + ')'
        if isinstance(y, C): return str(self.c(y, env))
        return str(y)
    def a(self, a, env):
        k = a.kind
        if k == 'sym':
            n = a.args[0]
            if n in env: return env[n]
            if n in self.ints: return self.ints[n]
            return self.h('sym' + n)
        if k == 'fn':
            n = a.args[0]; vs = None
            if n in NUMFN:
                vs = [self.e(y, env) for y in a.args[1:]]
                try:
                    if n == 'f32': return round(vs[0] * 1024) / 1024
                    if n == 'sin': return math.sin(vs[0])
                    if n == 'cos': return math.cos(vs[0])
                    if n == 'sqrt': return math.sqrt(abs(vs[0]))
                    if n == 'abs': return abs(vs[0])
                    if n == 'sign': return (vs[0] > 0) - (vs[0] < 0)
                    if n == 'exp': return math.exp(max(min(vs[0], 50), -50))
                    if n == 'log': return math.log(abs(vs[0]))
                    if n in ('asin', 'acos'): return getattr(math, n)(max(-1, min(1, vs[0])))
                    if n == 'atan2': return math.atan2(vs[0], vs[1])
                    if n == 'fmin': return min(vs)
                    if n == 'fmax': return max(vs)
                    if n == 'fmod': return math.fmod(vs[0], vs[1])
                    if n in ('tan', 'atan', 'sinh', 'cosh', 'tanh', 'floor', 'ceil'): return float(getattr(math, n)(vs[0]))
                    if n == 'recip': return 1 / vs[0]
                    if n == 'pow': return vs[0] ** round(vs[1]) if abs(vs[1] - round(vs[1])) < 1e-9 else abs(vs[0]) ** vs[1]
                except (ZeroDivisionError, OverflowError, ValueError):
                    if self.zeros: raise Undefined()
                    return 0.777
        if k == 'sum':
            rng, mono = a.args
            def rec(i, env):
                if i == len(rng): return self.e(P({mono: 1}), env)
                v, lo, hi = rng[i]
                l, h_ = int(round(self.e(lo, env))), int(round(self.e(hi, env)))
                return sum(rec(i + 1, dict(env, **{v: float(z)})) for z in range(l, min(h_, l + 12)))
            return rec(0, env)
        if k == 'div': 
            d = self.e(a.args[1], env); return float(math.floor(self.e(a.args[0], env) / d)) if d else 0.0
        if k == 'mod':
            d = self.e(a.args[1], env); return self.e(a.args[0], env) % d if d else 0.0
        if k == 'ent': return self.base(a, env)
        if k == 'top': raise NoVal('unknown value')
        return self.h(k + '(' + ','.join(self.argk(y, env) for y in a.args) + ')')
    def c(self, c, env):
        k = c.kind
        if k == 'T': return True
        if k == 'F': return False
        if k == 'le': return self.e(c.args[0], env) <= 1e-9
        if k == 'eq': return abs(self.e(c.args[0], env)) < 1e-9
        if k == 'not': return not self.c(c.args[0], env)
        if k == 'and': return all(self.c(x, env) for x in c.args)
        if k == 'or': return any(self.c(x, env) for x in c.args)
        if k == 'b' and c.args and c.args[0] == 'top': raise NoVal('unknown condition')
        if k == 'b' and c.args and c.args[0] == 'rlt': return self.e(c.args[1], env) < 0
        if k == 'streq':
            key = 'str' + self.argk(c.args[0], env)
            dom = None
            for pref, d in STRDOMS.items():
                if kof(c.args[0]).startswith(pref): dom = sorted(d)
            dom = dom or [c.args[1], '#other']
            return dom[int(self.h(key) * 1e6) % len(dom)] == c.args[1]
        return int(self.h('b' + self.argk(tuple(c.args), env)) * 1e6) % 2 == 0

def show(p, n=6):
    """short human-readable rendering"""
    def sa(a):
        k = a.kind
        if k == 'sym': return a.args[0].split('~')[0]
        if k == 'ent': return str(a.args[0]).replace('model:', '') + '[' + ','.join(sx(y) for y in a.args[1:]) + ']'
        if k == 'iv': return '[' + sc(a.args[0]) + ']'
        if k == 'fn': return a.args[0] + '(' + ','.join(sx(y) for y in a.args[1:]) + ')'
        if k == 'D': return 'd' + sa(a.args[0]) + '/d' + str(a.args[1]).replace('model:', '') + '[' + sx(a.args[2]) + ']'
        if k == 'sum': return 'Sum{' + ','.join('%s=%s..%s' % (v, sx(lo), sx(hi - 1)) for v, lo, hi in a.args[0]) + '}' + sm(a.args[1])
        return a.key if len(a.key) < 120 else a.key[:120] + '..'
    def sc(c):
        if c.kind == 'le': return sx(c.args[0]) + '<=0'
        if c.kind == 'eq': return sx(c.args[0]) + '==0'
        if c.kind == 'streq': return kof(c.args[0]) + '==' + str(c.args[1])
        return c.key
    def sm(m): return '*'.join(sa(a) + ('^%s' % e if e != 1 else '') for a, e in m) or '1'
    def sx(x):
        if isinstance(x, A): return sa(x)
        if isinstance(x, C): return sc(x)
        if not isinstance(x, P): return str(x)
        if not x.d: return '0'
        ts = []
        for m in sorted(x.d, key=lambda m: tuple((a.key, e) for a, e in m))[:n]:
            c = x.d[m]
            ts.append(str(c) if not m else (sm(m) if c == 1 else '-' + sm(m) if c == -1 else '%s*%s' % (c, sm(m))))
        s = ' + '.join(ts)
        if len(x.d) > n: s += ' + ...(%d terms)' % len(x.d)
        return s
    return sx(p)
