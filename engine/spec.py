"""Reference definitions of the published quantities, stated over the robot's variables.

Every definition is modular: it refers to the other published quantities by name (ent atoms).
The same definitions serve the parametric comparison (number of joints symbolic), the instance
comparison and the refuter."""
from terms import *
from values import *
from interp import *
from model import *
import terms as T
import math, random, hashlib

def mat3(f): return Mat(3, 3, f)
def Tr(m): return transp(m)
def mul(*ms):
    r = ms[0]
    for m in ms[1:]: r = mm(r, m)
    return r
def add(a, b): return Mat(a.rows, a.cols, lambda r, c: a.get(r, c) + b.get(r, c))
def sub(a, b): return Mat(a.rows, a.cols, lambda r, c: a.get(r, c) - b.get(r, c))
def scale(s, a): return Mat(a.rows, a.cols, lambda r, c: toP(s) * a.get(r, c))
def sin_(x): return mkfn('sin', toP(x))
def cos_(x): return mkfn('cos', toP(x))
def RX(a): s, c = sin_(a), cos_(a); return constM([[1, 0, 0], [0, c, -s], [0, s, c]])
def RY(a): s, c = sin_(a), cos_(a); return constM([[c, 0, s], [0, 1, 0], [-s, 0, c]])
def RZ(a): s, c = sin_(a), cos_(a); return constM([[c, -s, 0], [s, c, 0], [0, 0, 1]])
def col(*xs): return constM([[x] for x in xs])
def skew(v):
    g = lambda i: v.get(toP(i), ZERO)
    return constM([[0, -g(2), g(1)], [g(2), 0, -g(0)], [-g(1), g(0), 0]])
def hom(R, p):
    return constM([[R.get(toP(i), toP(j)) for j in range(3)] + [p.get(toP(i), ZERO)] for i in range(3)] + [[0, 0, 0, 1]])
def block(m, r0, r1, c0, c1):
    r0, r1, c0, c1 = map(toP, (r0, r1, c0, c1))
    return Mat(r1 - r0, c1 - c0, lambda r, c: m.get(r + r0, c + c0))
def odd(v, order):
    """|v|^(order even) * sign-preserving power of degree `order` (order >= 1), symbolic order allowed"""
    n = order.num()
    if n is not None: return v.ipow(n) if n % 2 else mkfn('abs', v) * v.ipow(n - 1)
    return ite(ceq(pmod(order - 1, 2)), mkfn('pow', v, order), mkfn('abs', v) * mkfn('pow', v, order - 1))

class Spec:
    def __init__(self, w): self.w = w; self.m = {}; self.gmemo = {}
    def e(self, fam, *i): return self.w.ent(fam, *[toP(x) for x in i])
    def ei(self, i):
        """the joint the i-th elastic joint actually is"""
        w = self.w
        if not w.param:
            js = [j for j, f in enumerate(w.elastic) if f]
            n = i.num()
            if n is not None: return toP(js[n])
            r = toP(js[-1])
            for k in range(len(js) - 2, -1, -1): r = ite(ceqq(i, k), toP(js[k]), r)
            return r
        return ent('eidx', toP(i))
    def M(self, fam, *idx): return self.w.mat(fam, idx)
    def frame(self, fam):
        g = lambda i: self.e(fam, i)
        return hom(mul(RZ(g(3)), RY(g(4)), RX(g(5))), col(g(0), g(1), g(2)))
    def isP(self, j):
        t = mkA('ent', 'jt', toP(j)); return cor(cstreq(t, 'P'), cstreq(t, 'P_SEA'))
    def dh(self, j):
        """relative transform of joint j (0-based)"""
        j = toP(j); p = lambda k: self.e('par_DHtable', 4 * j + k)
        P_ = iv(self.isP(j)); q = self.e('q', j)
        d = p(2) + P_ * q; th = p(3) + (ONE - P_) * q
        Rx = RX(p(1)); R = mul(Rx, RZ(th))
        return hom(R, add(mul(Rx, col(0, 0, d)), col(p(0), 0, 0)))
    def T(self, i): return self.M('T_0_#', toP(i))
    def R(self, i): return block(self.T(i), 0, 3, 0, 3)
    def p(self, i): return block(self.T(i), 0, 3, 3, 4)
    def z(self, i): return block(self.T(i), 0, 3, 2, 3)
    def jacpt(self, i, point, last):
        """geometric Jacobian of a point fixed in link i (1-based index `last` limits the columns)"""
        n = self.w.n
        def f(r, c):
            # column c  <-> joint c+1 frame
            j = c + 1
            zj, pj = self.z(j), self.p(j)
            v = mul(skew(zj), sub(point, pj))
            P_ = iv(self.isP(c)); g = iv(cleq(j, last))
            rn = r.num()
            if rn is None: raise Give('symbolic Jacobian row')
            if rn < 3: return g * (P_ * zj.get(r, ZERO) + (ONE - P_) * v.get(r, ZERO))
            return g * (ONE - P_) * zj.get(r - 3, ZERO)
        return Mat(6, n, f)
    def mass(self, i): return self.e('par_DYN', 10 * toP(i))
    def com(self, i): i = toP(i); return col(*[self.e('par_DYN', 10 * i + k) for k in (1, 2, 3)])
    def inertia(self, i):
        g = lambda k: self.e('par_DYN', 10 * toP(i) + k)
        return constM([[g(4), g(5), g(6)], [g(5), g(7), g(8)], [g(6), g(8), g(9)]])
    # link sums
    def linksum(self, f):
        w = self.w
        return sumrange(w.n, f)
    def christoffel(self, M, row=None):
        w = self.w; n = w.n
        Mn = letmat(M)
        D = lambda a, b, k: deriv(Mn.get(a, b), 'model:q', k)
        def f(h, j):
            return sumrange(n, lambda k: (D(h, j, k) + D(h, k, j) - D(j, k, h)) * self.e('dq', k)) * Fraction(1, 2)
        return Mat(n, n, f)
    def total(self, m):
        """total time derivative"""
        w = self.w; m = letmat(m)
        nxt = [('q', 'dq'), ('dq', 'ddq'), ('ddq', 'd3q'), ('d3q', 'd4q')]
        def f(r, c):
            x = m.get(r, c); s = ZERO
            for a, b in nxt:
                s = s + sumrange(w.n, lambda k: deriv(x, 'model:' + a, k) * self.e(b, k))
            return s
        return Mat(m.rows, m.cols, f)
    def symlist(self, fam):
        """positions of the symbolic entries (instance mode)"""
        w = self.w
        return [i for i in range(w.dims(fam)[0].num()) if w.symb.get(fam, [1] * 999)[i]]
    def pjac(self, m, fams):
        """Jacobian of a column vector w.r.t. the symbolic entries of the listed parameter vectors"""
        w = self.w; m = letmat(m)
        cols = [(f, i) for f in fams for i in self.symlist(f)]
        return Mat(m.rows, len(cols), lambda r, c: deriv(m.get(r, ZERO), 'model:' + cols[c.num()][0], toP(cols[c.num()][1])))
    def defn(self, fam, idx=()):
        """reference matrix for a published family (1-based index list) or None"""
        k = (fam, tuple(idx))
        if k not in self.m: self.m[k] = self._defn(fam, *[toP(i) for i in idx])
        return self.m[k]
    def alt(self, fam, idx=()):
        """an equivalent form of the reference (equal by orthonormality of rotations)"""
        k = (fam, tuple(idx), 'alt')
        if k not in self.m: self.m[k] = self._alt(fam, *idx)
        return self.m[k]
    def _alt(self, fam, *idx):
        n = self.w.n
        if fam == 'J_#' and toP(idx[0]) == n + 1:
            Jn = self.jacpt(n, self.p(n), n); R = self.R(n)
            Jv, Jw = block(Jn, 0, 3, 0, n), block(Jn, 3, 6, 0, n)
            K = mul(R, skew(block(self.frame('par_Ln2EE'), 0, 3, 3, 4)), Tr(R))
            U = sub(Jv, mul(K, Jw))
            return Mat(6, n, lambda r, c: U.get(r, c) if r.num() < 3 else Jw.get(r - 3, c))
        return None
    def _defn(self, fam, *idx):
        w = self.w; n = w.n
        f = fam
        if f == 'T_#':
            if idx[0].iszero(): return self.frame('par_world2L0')
            return self.dh(idx[0] - 1)
        if f == 'T_0_#':
            i = idx[0]
            if i.iszero(): return self.frame('par_world2L0')
            if i == n + 1: return mul(self.T(n), self.frame('par_Ln2EE'))
            return mul(self.T(i - 1), self.dh(i - 1))
        if f == 'J_#':
            i = idx[0]
            if i == n + 1:
                # v = Jv_n - R_n [r] R_n^T Jw_n : end-effector origin at p_n + R_n r
                return self.jacpt(n, add(self.p(n), mul(self.R(n), block(self.frame('par_Ln2EE'), 0, 3, 3, 4))), n)
            return self.jacpt(i, self.p(i), i)
        if f == 'J_cm_#':
            i = idx[0]
            return self.jacpt(i, add(self.p(i), mul(self.R(i), self.com(i - 1))), i)
        if f == 'M':
            def e(r, c):
                def t(i):
                    J = self.M('J_cm_#', i + 1); Jv = block(J, 0, 3, 0, n); Jw = block(J, 3, 6, 0, n)
                    R = self.R(i + 1)
                    s = ZERO
                    for a in range(3): s = s + self.mass(i) * Jv.get(toP(a), r) * Jv.get(toP(a), c)
                    K = mul(R, self.inertia(i), Tr(R))
                    for a in range(3):
                        for b in range(3): s = s + Jw.get(toP(a), r) * K.get(toP(a), toP(b)) * Jw.get(toP(b), c)
                    return s
                return self.linksum(t)
            return Mat(n, n, e)
        if f == 'G':
            def e(r, c):
                def t(i):
                    J = self.M('J_cm_#', i + 1); s = ZERO
                    for a in range(3): s = s - self.mass(i) * self.e('par_gravity', a) * J.get(toP(a), r)
                    return s
                return self.linksum(t)
            return Mat(n, 1, e)
        if f in ('C', 'C_std'): return self.christoffel(self.M('M'))
        m = {'J_ee_dot': 'J_ee', 'M_dot': 'M', 'C_dot': 'C', 'G_dot': 'G'}
        if f in m: return self.total(self.M('J_#', n + 1) if f == 'J_ee_dot' else self.M(m[f]))
        if f == 'J_ee_ddot': return self.total(self.total(self.M('J_#', n + 1)))
        if f in ('M_ddot', 'C_ddot', 'G_ddot'): return self.total(self.total(self.M(f[0])))
        if f == 'J_ee_pinv':
            J = self.M('J_#', n + 1)
            mu = w.mu
            A_ = mul(J, Tr(J)); B = Mat(6, 6, lambda r, c: A_.get(r, c) + eyef(r, c) * mu)
            return mul(Tr(J), w.m.invmat(B))
        oD, oK, oDm, oDl = (w.orders[x] for x in ('D_order', 'K_order', 'Dm_order', 'Dl_order'))
        nE = w.nE
        if f == 'dl':
            return Mat(n, 1, lambda r, c: sumrange(oDl, lambda o: odd(self.e('dq', r), o + 1) * self.e('par_Dl', r * oDl + o)))
        if f == 'd':
            return Mat(nE, 1, lambda r, c: sumrange(oD, lambda o: odd(self.e('dx', r) - self.e('dq', self.ei(r)), o + 1) * self.e('par_D', r * oD + o)))
        if f == 'dm':
            return Mat(nE, 1, lambda r, c: sumrange(oDm, lambda o: odd(self.e('dx', r), o + 1) * self.e('par_Dm', r * oDm + o)))
        if f == 'k':
            return Mat(nE, 1, lambda r, c: sumrange(oK, lambda o: mkfn('pow', self.e('x', r) - self.e('q', self.ei(r)), 2 * o + 1) * self.e('par_K', r * oK + o)))
        if f == 'Mm': return Mat(nE, nE, lambda r, c: eyef(r, c) * self.e('par_Mm', r))
        if f == 'Dl#': return Mat(n, n, lambda r, c: eyef(r, c) * self.e('par_Dl', r * oDl + idx[0] - 1))
        if f == 'D#': return Mat(nE, nE, lambda r, c: eyef(r, c) * self.e('par_D', r * oD + idx[0] - 1))
        if f == 'Dm#': return Mat(nE, nE, lambda r, c: eyef(r, c) * self.e('par_Dm', r * oDm + idx[0] - 1))
        if f == 'K#':
            o = idx[0] - 1
            half = toP(o.num() // 2) if o.num() is not None else P({m: (Fraction(k) / 2 if k % 2 else k // 2) for m, k in o.d.items()})
            return Mat(nE, nE, lambda r, c: eyef(r, c) * self.e('par_K', r * oK + half))
        if f in ('reg_M', 'reg_C', 'reg_G', 'Yr'): return self.regressor(f)
        par = {'reg_dl': ('dl', 'par_Dl'), 'reg_k': ('k', 'par_K'), 'reg_d': ('d', 'par_D'), 'reg_dm': ('dm', 'par_Dm')}
        if f in par: return self.pjac(self.M(par[f][0]), [par[f][1]])
        if f == 'reg_Mm':
            Mm = self.M('Mm'); v = Mat(nE, 1, lambda r, c: sumrange(nE, lambda k: Mm.get(r, k) * self.e('ddx', k)))
            return self.pjac(v, ['par_Mm'])
        kp = ['par_DHtable', 'par_world2L0', 'par_Ln2EE']
        if f == 'reg_Jdq':
            J = self.M('J_#', n + 1)
            return self.pjac(Mat(6, 1, lambda r, c: sumrange(n, lambda k: J.get(r, k) * self.e('dq', k))), kp)
        if f == 'reg_JTw':
            J = self.M('J_#', n + 1)
            return self.pjac(Mat(n, 1, lambda r, c: sumrange(toP(6), lambda k: J.get(k, r) * self.e('w', k))), kp)
        return None
    def reg_block(self, i, l):
        """matrices whose combination with the l-th regressor parameter of link i (0-based) gives the mass matrix"""
        n = self.w.n; k = (i, l)
        J = self.M('J_#', i + 1); Jv = block(J, 0, 3, 0, n); Jw = block(J, 3, 6, 0, n); R = self.R(i + 1)
        if l == 0: return mul(Tr(Jv), Jv)
        if l <= 3:
            e = [ZERO] * 3; e[l - 1] = ONE
            K = mul(R, skew(col(*e)), Tr(R))
            return sub(mul(Tr(Jw), K, Jv), mul(Tr(Jv), K, Jw))
        a, b = [(0, 0), (0, 1), (0, 2), (1, 1), (1, 2), (2, 2)][l - 4]
        E_ = constM([[1 if (r, c) in ((a, b), (b, a)) else 0 for c in range(3)] for r in range(3)])
        return mul(Tr(Jw), R, E_, Tr(R), Jw)
    def regressor(self, f):
        w = self.w; n = w.n
        def grav(i, l, r):
            if l == 0:
                J = self.M('J_#', i + 1)
                return sum((-J.get(toP(a), r) * self.e('par_gravity', a) for a in range(3)), ZERO)
            if l <= 3:
                R = self.R(i + 1)
                return sum((-deriv(R.get(toP(a), toP(l - 1)), 'model:q', r) * self.e('par_gravity', a) for a in range(3)), ZERO)
            return ZERO
        memo = {}
        def blk(i, l):
            k = (i, l)
            if k not in memo:
                B = self.reg_block(i, l); memo[k] = (B, self.christoffel(B))
            return memo[k]
        def e(r, c, part):
            i = pdiv(c, toP(10)); l = pmod(c, toP(10)).num()
            if l is None: raise Give('symbolic column of a regressor')
            if part == 'G': return grav(i, l, r)
            B, C_ = blk(i, l)
            if part == 'M':
                return sumrange(n, lambda k: B.get(r, k) * self.e('ddqr', k))
            return sumrange(n, lambda k: C_.get(r, k) * self.e('dqr', k))
        if f == 'Yr': return Mat(n, 10 * n, lambda r, c: e(r, c, 'M') + e(r, c, 'C') + e(r, c, 'G'))
        return Mat(n, 10 * n, lambda r, c: e(r, c, f[-1]))

# ---------------- refuter ----------------
class DefVal(Val):
    """valuation that evaluates published quantities through their reference definitions, so that two
    expressions are told apart only if they differ as functions of the robot's variables"""
    def __init__(self, w, spec, seed):
        super().__init__(seed, {}); self.signed = seed >= 2
        if seed == 3: self.zeros = ('dq', 'dqr')
        if seed == 4: self.zeros = ('dx',)
        if seed > 4: self.zeros = ('',)  # seeds 5, 6: half of the fixed parameters are exactly zero
        self.inv = {}; self.w = w; self.spec = spec; self.am = {}; self.lm = {}
        self.rng = random.Random(seed); self.jts = {}
        if not w.param: self.ints = {}
    def base(self, a, env):
        if self.seed > 4 and len(a.args) >= 2 and self.w.symb:
            f = str(a.args[0]); f = f[6:] if f.startswith('model:') else f
            fl = self.w.symb.get(f)
            if fl is not None:
                try: i = int(round(self.e(a.args[1], env)))
                except TypeError: i = -1
                if 0 <= i < len(fl) and not fl[i] and not (f in ('par_DYN', 'par_REG') and i % 10 == 0) and self.half(f, i) == (self.seed == 6): return 0.0
        return super().base(a, env)
    def half(self, f, i): return hashlib.md5(('%s %s' % (f, i)).encode()).digest()[0] % 2 == 1
    def a(self, a, env):
        if env: return self._a(a, env)
        r = self.am.get(a)
        if r is None: r = self.am[a] = self._a(a, env)
        return r
    def c(self, c, env):
        if c.kind == 'streq' and not self.w.param and kof(c.args[0]).startswith('1*ent(jt'):
            t = c.args[0]
            if isinstance(t, P): t = next(iter(t.d))[0][0]
            j = int(round(self.e(t.args[1], env))); n = self.w.n.num(); s = self.seed
            sea = '_SEA' if self.w.elastic and 0 <= j < len(self.w.elastic) and self.w.elastic[j] else ''
            rev = True if s == 0 else j % 3 != 1 if s == 1 else j % 3 != 0 if s == 2 else bool(self.rot(j))
            return c.args[1] == ('R' if rev else 'P') + sea
        return super().c(c, env)
    def rot(self, j): return int(hashlib.md5(('%s|%s' % (self.seed, j)).encode()).hexdigest(), 16) % 3
    def invnum(self, a, env):
        name = a.args[0]; A_ = self.inv.get(name)
        if A_ is None or env:
            m = self.w.m.invdefs.get(name)
            n = m.rows.num() if m is not None else None
            if not isinstance(n, int) or n != m.cols.num(): raise NoVal('inverse')
            X = [[self.e(m.get(toP(i), toP(j)), env) for j in range(n)] + [float(i == j) for j in range(n)] for i in range(n)]
            for i in range(n):
                p = max(range(i, n), key=lambda r: abs(X[r][i]))
                if abs(X[p][i]) < 1e-6: raise NoVal('singular')
                X[i], X[p] = X[p], X[i]; d = X[i][i]; X[i] = [x / d for x in X[i]]
                for r in range(n):
                    if r != i and X[r][i]:
                        f = X[r][i]; X[r] = [x - f * y for x, y in zip(X[r], X[i])]
            A_ = [r[n:] for r in X]
            if not env: self.inv[name] = A_
        i, j = int(round(self.e(a.args[1], env))), int(round(self.e(a.args[2], env)))
        if not (0 <= i < len(A_) and 0 <= j < len(A_)): raise NoVal('inverse index')
        return A_[i][j]
    def edef(self, a):
        """definition (a polynomial) of a named atom, or None for a base variable"""
        if a.kind == 'let':
            b, ps = LETDEF[a.args[0]]
            return subst(b, {p: toP(x) for p, x in zip(ps, a.args[1:])}) if ps else b
        fam = a.args[0]
        if not isinstance(fam, str) or not fam.startswith('model:'): return None
        fam = fam[6:]
        if fam not in DEPS_ENT: return None
        d = self.w.dims(fam); ix = [toP(x) for x in a.args[1:]]
        nidx = 1 if fam.endswith('#') else 0
        vec = fam in ('G', 'dl', 'k', 'd', 'dm')
        ix = [toP(int(round(self.e(x)))) for x in ix]
        m = self.spec.defn(fam, tuple(ix[:nidx]))
        if m is None: raise NoVal(fam)
        rc = ix[nidx:]
        return m.get(rc[0], rc[1]) if len(rc) == 2 else m.get(rc[0], ZERO)
    def _a(self, a, env):
        k = a.kind
        if k in ('top', '$', 'rec'): raise NoVal(k)
        if k == 'let' or k == 'ent':
            if env: a = next(iter(next(iter(subst(toP(a), {v: toP(int(round(x))) for v, x in env.items()}).d))))[0]
            d = self.edef(a)
            if d is not None: return self.e(d)
        if k == 'D':
            if env: 
                p = subst(toP(a), {v: toP(int(round(x))) for v, x in env.items()})
                return self.e(p)
            chain = []; b = a
            while b.kind == 'D': chain.append((b.args[1], b.args[2])); b = b.args[0]
            d = self.edef(b) if b.kind in ('let', 'ent') else None
            if d is None: raise NoVal('derivative of an opaque quantity')
            cache = self.spec.__dict__.setdefault('dercache', {})
            r = cache.get(a)
            if r is None:
                r = d
                for f_, k_ in chain: r = deriv(r, f_, k_)
                if len(r.d) < 30000: cache[a] = r
            return self.e(r)
        if k == 'fn' and str(a.args[0]).startswith('inv:'): return self.invnum(a, env)
        return super().a(a, env)
DEPS_ENT = {'T_0_#', 'J_#', 'J_cm_#', 'M', 'C', 'C_std', 'G', 'J_ee_dot', 'dl', 'k', 'd', 'dm', 'Mm', 'K#', 'D#', 'Dm#', 'Dl#', 'T_#'}
