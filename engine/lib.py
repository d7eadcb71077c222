"""Models of the library functions the project calls (casadi, std, Eigen, yaml-cpp)."""
import re, os
from terms import *
from values import *
import interp as I
from interp import *

MAT_FREE = {}
def lname(e):
    n = e.get('name') or e.get('fn', '').rsplit('::', 1)[-1]
    return n

def asmat(self, v, kind='sx'):
    if isinstance(v, Mat): return v
    if isinstance(v, Vec) and not v.filt: return Mat(v.size, 1, lambda r, c: self.P(v.get(r)), kind)
    if isinstance(v, Top): return v
    if isinstance(v, VIte): return Top('conditional matrix')
    return scalM(self.P(v), kind)

def elemwise(m, f):
    return Mat(m.rows, m.cols, lambda r, c: f(m.get(r, c)), m.kind)

def varatom(p):
    """(family, index) when p is one base-variable entry"""
    if len(p.d) == 1:
        (m, c), = p.d.items()
        if c == 1 and len(m) == 1 and m[0][1] == 1 and m[0][0].kind == 'ent' and len(m[0][0].args) == 2: return m[0][0].args[0], m[0][0].args[1]
    return None

BIG = 40
def dP(p, fam, k):
    return deriv(p, fam, k)

def vconcat(ms):
    """vertical concatenation of matrices, possibly conditional sizes"""
    if any(isinstance(m, Top) for m in ms): return [m for m in ms if isinstance(m, Top)][0]
    ms = [m for m in ms if not (m.rows.iszero())]
    if not ms: return zerosM(0, 0)
    cols = ms[0].cols
    offs = []; o = ZERO
    for m in ms: offs.append(o); o = o + m.rows
    def fn(r, c):
        v = None
        for m, of in reversed(list(zip(ms, offs))):
            lo = simpC(cleq(of, r), GLOBAL); 
            if v is None:
                if len(ms) == 1 or lo.kind == 'T': return m.get(r - of, c) if lo.kind == 'T' or len(ms) == 1 else v
                v = (m, of); continue
            break
        # guarded choice from the last block backwards
        out = None
        for m, of in zip(ms, offs):
            hi = simpC(clt(r, of + m.rows), GLOBAL); lo = simpC(cleq(of, r), GLOBAL)
            if lo.kind == 'F' or hi.kind == 'F': continue
            g = iv(cand(lo, hi)) if not (lo.kind == 'T' and hi.kind == 'T') else ONE
            t = g * m.get(r - of, c)
            out = t if out is None else out + t
            if lo.kind == 'T' and hi.kind == 'T': return t
        return out if out is not None else ZERO
    return Mat(o, cols, fn, ms[0].kind)

class Lib:
    # ---------- free functions ----------
    def lib(self, e, st):
        fn = e.get('fn') or ''
        nm = fn.rsplit('::', 1)[-1] if not fn.startswith('std::filesystem') else 'fs_' + fn.rsplit('::', 1)[-1]
        if '<' in nm: nm = lname(e)
        nm = lname(e) if 'operator' not in fn and e.get('name') else nm
        m = getattr(self, 'f_' + nm, None)
        if m:
            r = m(e, st)
            if r is not NotImplemented: return r
        h = self.hooks.get('lib')
        if h:
            r = h(self, e, st)
            if r is not NotImplemented: return r
        vals = [self.ev(a, st) for a in e['args'] if not a.get('defarg')]
        self.havoc(e, vals, st)
        return Top('library function ' + fn)
    def havoc(self, e, vals, st):
        """a library function without a model: whatever it may write becomes unknown"""
        why = 'passed to ' + str(e.get('fn')); self.nomodel.add(str(e.get('fn')))
        if os.environ.get('VERIF_NOMODEL'): print('NOMODEL', e.get('fn'), e.get('l'))
        pt = e.get('pt') or []
        def spoil(lv):
            if lv is None: return
            try: self.wr(st, lv, Top(why))
            except (Give, AttributeError, KeyError, TypeError): pass
        for i, a in enumerate(x for x in e['args'] if not x.get('defarg')):
            t = pt[i] if i < len(pt) else '&'
            v = vals[i] if i < len(vals) else None
            if t.rstrip().endswith('&') and not t.startswith('const ') and ' const &' not in t and not t.rstrip().endswith('&&') and a.get('k') in ('Ref', 'Member', 'OpCall', 'MCall', 'Index', 'Unary', 'This'):
                try: spoil(self.lv(a, st))
                except (Give, KeyError, AttributeError): pass
            if isinstance(v, Iter): spoil(v.lv)
            elif isinstance(v, LVal) and '*' in t and 'const' not in t: spoil(LVal(v.cell, v.path[:-1]) if v.path and v.path[-1][0] == 'x' else v)
            elif isinstance(v, Lam): self.spoillam(v, spoil)
            elif isinstance(v, Opq) and v.tag == 'back_inserter': spoil(v.args[0])
    def spoillam(self, f, spoil):
        for k, lv in f.caps.items():
            if isinstance(lv, LVal): spoil(lv)
    def args(self, e, st): return [self.ev(a, st) for a in e['args'] if not a.get('defarg')]
    def mats(self, e, st):
        """matrix operands: separate arguments or one braced list"""
        out = []
        for a in e['args']:
            if a.get('defarg'): continue
            v = self.ev(a, st)
            if isinstance(v, Vec):
                l = v.tolist()
                if l is None: return v
                out += l
            else: out.append(v)
        return [asmat(self, x) for x in out]
    def f_mtimes(self, e, st):
        ms = self.mats(e, st)
        if isinstance(ms, Vec): return Top('product of a list of unknown length')
        r = ms[0]
        for m in ms:
            if isinstance(m, Top): return m
        for m in ms[1:]:
            self.emit('mtimes', {'ac': r.cols, 'br': m.rows, 'as': r.isscalar(), 'bs': m.isscalar()}, st, e)
            r = mm(r, m)
        return r
    def f_vertcat(self, e, st):
        ms = self.mats(e, st)
        if isinstance(ms, Vec): return self.veccat(ms, True)
        return vconcat(ms)
    def f_horzcat(self, e, st):
        ms = self.mats(e, st)
        if isinstance(ms, Vec): return self.veccat(ms, False)
        r = vconcat([transp(m) if isinstance(m, Mat) else m for m in ms])
        return transp(r) if isinstance(r, Mat) else r
    def veccat(self, v, vert):
        """concatenation of a vector of blocks"""
        if v.filt and len(v.filt.segs) == 1 and v.filt.segs[0][0] != 'one':
            el = self.filtget(v, sym('@z'))
            if isinstance(el, P): return Mat(v.size if vert else 1, 1 if vert else v.size, lambda r, c: self.P(self.filtget(v, r if vert else c)), 'sx')
            if isinstance(el, Mat) and el.isscalar(): return Mat(v.size if vert else 1, 1 if vert else v.size, lambda r, c: self.P(self.filtget(v, r if vert else c)), 'sx')
            return Top('concatenation of a filtered list')
        if v.filt: return Top('concatenation of a filtered list')
        e0 = v.get(sym('@z'))
        if isinstance(e0, P): return Mat(v.size if vert else 1, 1 if vert else v.size, lambda r, c: v.get(r if vert else c), 'sx')
        if not isinstance(e0, Mat): return Top('concatenation')
        d = e0.rows if vert else e0.cols
        if '@z' in d.fv(): return Top('concatenation of blocks of different size')
        def fn(r, c):
            i = r if vert else c
            q, m = pdiv(i, d), pmod(i, d)
            b = v.get(q)
            return b.get(m, c) if vert else b.get(r, m)
        return Mat(v.size * d if vert else e0.rows, e0.cols if vert else v.size * d, fn, 'sx')
    def f_jacobian(self, e, st):
        a = self.args(e, st); y = asmat(self, a[0]); x = asmat(self, a[1])
        if isinstance(y, Top): return y
        if isinstance(x, Top): return x
        def fn(r, c):
            va = varatom(x.lin(c))
            if va is None: raise Give('derivative with respect to a non-variable')
            return dP(y.lin(r), *va)
        return Mat(y.size(), x.size(), fn)
    def f_gradient(self, e, st):
        r = self.f_jacobian(e, st)
        return transp(r) if isinstance(r, Mat) else r
    def f_jtimes(self, e, st):
        a = self.args(e, st); y = asmat(self, a[0]); x = asmat(self, a[1]); v = asmat(self, a[2])
        for z in (y, x, v):
            if isinstance(z, Top): return z
        tr = len(a) > 3 and self.Cn(a[3]).kind == 'T'
        if tr:
            def ft(r, c):
                va = varatom(x.lin(r))
                if va is None: raise Give('derivative with respect to a non-variable')
                return sumrange(y.size(), lambda k: dP(y.lin(k), *va) * v.lin(k))
            return Mat(x.size(), 1, ft)
        def fn(r, c):
            p = y.get(r, c)
            def term(k):
                va = varatom(x.lin(k))
                if va is None: raise Give('derivative with respect to a non-variable')
                return dP(p, *va) * v.lin(k)
            return sumrange(x.size(), term)
        return Mat(y.rows, y.cols, fn)
    def f_reshape(self, e, st):
        a = self.args(e, st); m = asmat(self, a[0])
        if isinstance(m, Top): return m
        if len(a) == 2 and isinstance(a[1], Tup): r, c = self.P(a[1].items[0]), self.P(a[1].items[1])
        else: r, c = self.P(a[1]), self.P(a[2])
        if r.num() == -1: r = pdiv(m.size(), c)
        if c.num() == -1: c = pdiv(m.size(), r)
        self.emit('reshape', {'from': m.size(), 'to': r * c}, st, e)
        return Mat(r, c, lambda i, j: m.lin(i + r * j), m.kind)
    def f_vec(self, e, st):
        m = asmat(self, self.args(e, st)[0])
        return Mat(m.size(), 1, lambda i, j: m.lin(i), m.kind) if isinstance(m, Mat) else m
    def f_inv(self, e, st):
        return self.invmat(asmat(self, self.args(e, st)[0]))
    def invmat(self, m):
        if isinstance(m, Top): return m
        if m.isscalar(): return scalM(m.get(ZERO, ZERO).recip(), m.kind)
        key = 'inv:' + I.hashlib_(m.get(sym('@r'), sym('@c')).key)
        self.invdefs[key] = m
        return Mat(m.rows, m.cols, lambda r, c: fn(key, r, c), m.kind)
    invdefs = {}
    def f_zeros(self, e, st):
        a = self.args(e, st)
        if not a: return zerosM(1, 1)
        if len(a) == 1 and isinstance(a[0], Tup): return zerosM(self.P(a[0].items[0]), self.P(a[0].items[1]))
        return zerosM(self.P(a[0]), self.P(a[1]) if len(a) > 1 else ONE)
    def f_ones(self, e, st):
        a = self.args(e, st); r = self.P(a[0]) if a else ONE; c = self.P(a[1]) if len(a) > 1 else ONE
        return Mat(r, c, lambda i, j: ONE)
    def f_eye(self, e, st):
        n = self.P(self.args(e, st)[0]); return Mat(n, n, eyef)
    def f_sym(self, e, st):
        a = self.args(e, st); r = self.P(a[1]) if len(a) > 1 else ONE; c = self.P(a[2]) if len(a) > 2 else ONE
        self.emit('sym', {'name': a[0], 'rows': r, 'cols': c}, st, e)
        nm = a[0] if isinstance(a[0], Str) else Str(('top', 'name'))
        lit = nm.lit()
        fam = 'sym:' + (lit if lit is not None else repr(nm))
        h = self.hooks.get('symfam')
        if h: fam = h(nm) or fam
        if c.num() == 1: return Mat(r, c, lambda i, j: ent(fam, i))
        return Mat(r, c, lambda i, j: ent(fam, i + r * j))
    def f_Zero(self, e, st):
        a = self.args(e, st); m = re.match(r'.*Eigen::Matrix<\w+, (-?\d+), (-?\d+)', e.get('fn', ''))
        R, C_ = (int(m.group(1)), int(m.group(2))) if m else (-1, -1)
        if R > 0 and C_ > 0 and not a: return zerosM(R, C_, 'eig')
        if len(a) == 1: return zerosM(self.P(a[0]), 1, 'eig') if C_ == 1 else zerosM(1, self.P(a[0]), 'eig')
        return zerosM(self.P(a[0]), self.P(a[1]), 'eig') if len(a) == 2 else Top('Zero')
    def f_Constant(self, e, st):
        a = self.args(e, st); m = re.match(r'.*Eigen::Matrix<\w+, (-?\d+), (-?\d+)', e.get('fn', ''))
        if not m or not a: return Top('Constant')
        R, C_ = int(m.group(1)), int(m.group(2)); v = self.P(a[-1]); a = a[:-1]
        return self.filled(R, C_, a, v)
    def f_Ones(self, e, st):
        a = self.args(e, st); m = re.match(r'.*Eigen::Matrix<\w+, (-?\d+), (-?\d+)', e.get('fn', ''))
        return self.filled(int(m.group(1)), int(m.group(2)), a, ONE) if m else Top('Ones')
    def filled(self, R, C_, a, v):
        if R > 0 and C_ > 0 and not a: return Mat(R, C_, lambda i, j: v, 'eig')
        if len(a) == 1: return Mat(self.P(a[0]), 1, lambda i, j: v, 'eig') if C_ == 1 else Mat(1, self.P(a[0]), lambda i, j: v, 'eig')
        return Mat(self.P(a[0]), self.P(a[1]), lambda i, j: v, 'eig') if len(a) == 2 else Top('filled')
    def f_Identity(self, e, st):
        a = self.args(e, st); m = re.match(r'.*Eigen::Matrix<\w+, (-?\d+), (-?\d+)', e.get('fn', ''))
        if m and int(m.group(1)) > 0: return Mat(int(m.group(1)), int(m.group(2)), eyef, 'eig')
        return Mat(self.P(a[0]), self.P(a[1]), eyef, 'eig') if len(a) == 2 else Top('Identity')
    def unary(self, name, e, st):
        v = self.args(e, st)[0]
        if isinstance(v, Top): return v
        if isinstance(v, Mat): return elemwise(v, lambda p: mkfn(name, p))
        return mkfn(name, self.P(v))
    def f_sin(self, e, st): return self.unary('sin', e, st)
    def f_cos(self, e, st): return self.unary('cos', e, st)
    def f_tan(self, e, st): return self.unary('tan', e, st)
    def f_sqrt(self, e, st): return self.unary('sqrt', e, st)
    def f_abs(self, e, st): return self.unary('abs', e, st)
    def f_fabs(self, e, st): return self.unary('abs', e, st)
    def f_exp(self, e, st): return self.unary('exp', e, st)
    def f_sign(self, e, st): return self.unary('sign', e, st)
    def f_log(self, e, st): return self.unary('log', e, st)
    def f_ceil(self, e, st): return self.unary('ceil', e, st)
    def f_asin(self, e, st): return self.unary('asin', e, st)
    def f_acos(self, e, st): return self.unary('acos', e, st)
    def f_atan(self, e, st): return self.unary('atan', e, st)
    def f_sinh(self, e, st): return self.unary('sinh', e, st)
    def f_cosh(self, e, st): return self.unary('cosh', e, st)
    def f_tanh(self, e, st): return self.unary('tanh', e, st)
    def binary(self, name, e, st):
        a = self.args(e, st)
        for x in a:
            if isinstance(x, Top): return x
        if not any(isinstance(x, Mat) for x in a): return mkfn(name, self.P(a[0]), self.P(a[1]))
        a = [asmat(self, x) for x in a]; big = a[1] if a[0].isscalar() else a[0]
        g = lambda m, r, c: m.get(ZERO, ZERO) if m.isscalar() else m.get(r, c)
        return Mat(big.rows, big.cols, lambda r, c: mkfn(name, g(a[0], r, c), g(a[1], r, c)), big.kind)
    def f_fmin(self, e, st): return self.binary('fmin', e, st)
    def f_fmax(self, e, st): return self.binary('fmax', e, st)
    def f_fmod(self, e, st): return self.binary('fmod', e, st)
    def f_sumsqr(self, e, st):
        m = asmat(self, self.args(e, st)[0])
        return scalM(sumrange(m.size(), lambda k: m.lin(k) * m.lin(k))) if isinstance(m, Mat) else m
    def f_if_else(self, e, st):
        a = self.args(e, st)
        for x in a[:3]:
            if isinstance(x, Top): return x
        c = a[0] if isinstance(a[0], C) else None
        ci = iv(c) if c is not None else self.P(a[0])
        x, y = asmat(self, a[1]), asmat(self, a[2]); big = y if x.isscalar() else x
        g = lambda m, r, k: m.get(ZERO, ZERO) if m.isscalar() else m.get(r, k)
        return Mat(big.rows, big.cols, lambda r, k: ci * g(x, r, k) + (ONE - ci) * g(y, r, k), 'sx')
    def f_solve(self, e, st):
        a = self.args(e, st); A_, b = asmat(self, a[0]), asmat(self, a[1])
        for z in (A_, b):
            if isinstance(z, Top): return z
        i = self.invmat(A_)
        return mm(i, b) if isinstance(i, Mat) else i
    def f_pinv(self, e, st):
        m = asmat(self, self.args(e, st)[0])
        if isinstance(m, Top): return m
        r, c = m.rows.num(), m.cols.num()
        if r == c and r is not None: return self.invmat(m)
        if not isinstance(r, int) or not isinstance(c, int): return Top('pseudoinverse of symbolic size')
        if c > r: 
            i = self.invmat(mm(m, transp(m))); return mm(transp(m), i)
        i = self.invmat(mm(transp(m), m)); return mm(i, transp(m))
    def f_floor(self, e, st): return self.unary('floor', e, st)
    def f_atan2(self, e, st):
        a = self.args(e, st); return mkfn('atan2', self.P(a[0]), self.P(a[1]))
    def f_pow(self, e, st):
        a = self.args(e, st)
        if any(isinstance(x, Top) for x in a): return [x for x in a if isinstance(x, Top)][0]
        if isinstance(a[0], Mat) and not a[0].isscalar(): 
            x = self.P(a[1]); return elemwise(a[0], lambda p: mkfn('pow', p, x))
        if isinstance(a[1], Mat) and not a[1].isscalar():
            b = self.P(a[0]); return elemwise(a[1], lambda p: mkfn('pow', b, p))
        r = mkfn('pow', self.P(a[0]), self.P(a[1]))
        return scalM(r) if any(isinstance(x, Mat) for x in a) else r
    def f_sq(self, e, st):
        a = self.args(e, st)[0]
        return elemwise(a, lambda p: p * p) if isinstance(a, Mat) else self.P(a) * self.P(a)
    def f_norm_2(self, e, st):
        m = asmat(self, self.args(e, st)[0])
        if isinstance(m, Top): return m
        return scalM(mkfn('sqrt', sumrange(m.size(), lambda k: m.lin(k) * m.lin(k))))
    def f_dot(self, e, st):
        a = self.args(e, st); x, y = asmat(self, a[0]), asmat(self, a[1])
        for z in (x, y):
            if isinstance(z, Top): return z
        return scalM(sumrange(x.size(), lambda k: x.lin(k) * y.lin(k)))
    def f_cross(self, e, st):
        a = self.args(e, st); x, y = asmat(self, a[0]), asmat(self, a[1])
        for z in (x, y):
            if isinstance(z, Top): return z
        g = lambda i: x.lin(toP((i + 1) % 3)) * y.lin(toP((i + 2) % 3)) - x.lin(toP((i + 2) % 3)) * y.lin(toP((i + 1) % 3))
        return constM([[g(i)] for i in range(3)])
    def f_skew(self, e, st):
        v = asmat(self, self.args(e, st)[0])
        if isinstance(v, Top): return v
        g = lambda i: v.lin(toP(i))
        return constM([[ZERO, -g(2), g(1)], [g(2), ZERO, -g(0)], [-g(1), g(0), ZERO]])
    def f_trace(self, e, st):
        m = asmat(self, self.args(e, st)[0])
        return scalM(sumrange(m.rows, lambda k: m.get(k, k))) if isinstance(m, Mat) else m
    def f_diag(self, e, st):
        m = asmat(self, self.args(e, st)[0])
        if isinstance(m, Top): return m
        if m.cols.num() == 1: return Mat(m.rows, m.rows, lambda r, c: eyef(r, c) * m.lin(r))
        return Mat(m.rows, 1, lambda r, c: m.get(r, r))
    def f_sum1(self, e, st):
        m = asmat(self, self.args(e, st)[0])
        return Mat(1, m.cols, lambda r, c: sumrange(m.rows, lambda k: m.get(k, c))) if isinstance(m, Mat) else m
    def f_sum2(self, e, st):
        m = asmat(self, self.args(e, st)[0])
        return Mat(m.rows, 1, lambda r, c: sumrange(m.cols, lambda k: m.get(r, k))) if isinstance(m, Mat) else m
    def ident(self, e, st):
        return self.args(e, st)[0]
    def f_densify(self, e, st):
        v = self.args(e, st)[0]; h = self.hooks.get('densify')
        return h(v) if h and isinstance(v, Mat) else v
    f_simplify = f_move = f_forward = f_as_const = ident
    def f_transpose(self, e, st):
        m = asmat(self, self.args(e, st)[0]); return transp(m) if isinstance(m, Mat) else m
    def f_to_string(self, e, st):
        v = self.args(e, st)[0]
        if isinstance(v, Top): return Str(('top', v.why))
        if isFltT(e['args'][0].get('t', '')): return Str(('num', self.P(v)))
        return Str(('int', self.P(v)))
    def f_make_tuple(self, e, st): return Tup(self.args(e, st))
    def f_make_pair(self, e, st): return Tup(self.args(e, st))
    def rmin(self, a, b, e):
        """smaller of two numbers, of reals by a comparison of reals"""
        if strip(e.get('t', '')).replace('const ', '').rstrip(' &') not in ('double', 'float') or a == b: return pmin(a, b)
        d = (a - b).num()
        return (a if d <= 0 else b) if d is not None else ite(cb('rlt', b - a), b, a)
    def f_min(self, e, st):
        a = self.args(e, st)
        if len(a) == 2 and all(isinstance(x, P) for x in a): return self.rmin(a[0], a[1], e)
        return Top('min')
    def f_max(self, e, st):
        a = self.args(e, st)
        if len(a) == 2 and all(isinstance(x, P) for x in a): return -self.rmin(-a[0], -a[1], e)
        return Top('max')
    def f_size(self, e, st):
        v = self.args(e, st)[0]
        return v.size if isinstance(v, Vec) else Top('size')
    def f_begin(self, e, st): return Iter(self.lv(e['args'][0], st), ZERO)
    def f_end(self, e, st):
        lv = self.lv(e['args'][0], st); return Iter(lv, self.sizeof(self.rd(st, lv)))
    def f_get(self, e, st): return self.rd(st, self.lv(e, st))
    def sizeof(self, v):
        if isinstance(v, Vec): return v.size
        if isinstance(v, Mat): return v.size()
        if isinstance(v, Str) and v.lit() is not None: return toP(len(v.lit()))
        return topP('size')
    def f_swap(self, e, st):
        a, b = self.lv(e['args'][0], st), self.lv(e['args'][1], st)
        x, y = self.rd(st, a), self.rd(st, b); self.wr(st, a, y); self.wr(st, b, x); return UNDEF
    def itloc(self, it):
        if isinstance(it, Iter): return it.lv, it.pos
        if isinstance(it, LVal) and it.path and it.path[-1][0] == 'x': return LVal(it.cell, it.path[:-1]), it.path[-1][1]
        return None, None
    def fillrange(self, st, dst, at, n, f, e, what):
        """container positions [at, at+n) := f(k)"""
        o = self.rd(st, dst)
        self.emit('rangewrite', {'dst': dst, 'at': at, 'n': n, 'size': self.sizeof(o), 'what': what}, st, e)
        if isinstance(o, Vec) and not o.filt:
            def fn(k):
                c = cand(simpC(cleq(at, k), GLOBAL), simpC(clt(k, at + n), GLOBAL))
                if c.kind == 'T': return f(k - at)
                if c.kind == 'F': return o.get(k)
                return vite(c, f(k - at), o.get(k))
            self.wr(st, dst, Vec(o.size, fn, o.et)); return
        if isinstance(o, Mat):
            def fm(r, c):
                k = r if o.cols.num() == 1 else c if o.rows.num() == 1 else r + o.rows * c
                g = cand(simpC(cleq(at, k), GLOBAL), simpC(clt(k, at + n), GLOBAL))
                if g.kind == 'T': return self.P(f(k - at))
                if g.kind == 'F': return o.get(r, c)
                return ite(g, self.P(f(k - at)), o.get(r, c))
            self.wr(st, dst, Mat(o.rows, o.cols, fm, o.kind)); return
        self.wr(st, dst, Top('range write'))
    def elemof(self, v, k):
        if isinstance(v, Vec): return v.get(k) if not v.filt else self.filtget(v, k)
        if isinstance(v, Mat): return v.lin(k)
        return Top('element')
    def f_copy(self, e, st):
        a = self.args(e, st)
        (sl, sp), (el, ep), (dl, dp) = self.itloc(a[0]), self.itloc(a[1]), self.itloc(a[2])
        if sl is None or el is None or dl is None: return Top('std::copy')
        src = self.rd(st, sl)
        self.emit('rangeread', {'src': sl, 'at': sp, 'n': ep - sp, 'size': self.sizeof(src)}, st, e)
        self.fillrange(st, dl, dp, ep - sp, lambda k: self.elemof(src, sp + k), e, 'copy')
        return Iter(dl, dp + (ep - sp))
    def f_copy_n(self, e, st):
        a = self.args(e, st)
        (sl, sp), (dl, dp) = self.itloc(a[0]), self.itloc(a[2]); n = self.P(a[1])
        if sl is None or dl is None: return Top('std::copy_n')
        src = self.rd(st, sl)
        self.emit('rangeread', {'src': sl, 'at': sp, 'n': n, 'size': self.sizeof(src)}, st, e)
        self.fillrange(st, dl, dp, n, lambda k: self.elemof(src, sp + k), e, 'copy'); return Iter(dl, dp + n)
    def f_fill(self, e, st):
        a = self.args(e, st); (sl, sp), (el, ep) = self.itloc(a[0]), self.itloc(a[1])
        if sl is None: return Top('std::fill')
        self.fillrange(st, sl, sp, ep - sp, lambda k: a[2], e, 'fill'); return UNDEF
    def f_transform(self, e, st):
        a = self.args(e, st)
        (sl, sp), (el, ep), (dl, dp) = self.itloc(a[0]), self.itloc(a[1]), self.itloc(a[2])
        if sl is None or el is None: return Top('std::transform')
        src = self.rd(st, sl); f = a[3]
        def g(k):
            x = self.elemof(src, sp + k)
            if isinstance(f, Lam): return self.lamcall(f, [x], st)
            if isinstance(f, FnRef):
                fd = self.prog.func({'sig': f.node.get('sig') or None}) or self.prog.fn(f.node['qn'])
                if fd: return self.call(fd, [x], None, st)
            return Top('transform with unknown function')
        if dl is None: 
            if isinstance(a[2], Opq) and a[2].tag == 'back_inserter':
                lv = a[2].args[0]; o = self.rd(st, lv)
                if isinstance(o, Vec) and o.size.iszero():
                    z = self.sizeof(src)
                    self.wr(st, lv, Vec(ep - sp, g, o.et)); return UNDEF
            return Top('std::transform')
        if isinstance((ep - sp).num(), int):
            memo = [g(toP(i)) for i in range((ep - sp).num())]
            def g2(k):
                if isinstance(k.num(), int) and 0 <= k.num() < len(memo): return memo[k.num()]
                return listV(memo).get(k) if memo else g(k)
        else:
            g(sym(fresh('k'))); g2 = g
        self.fillrange(st, dl, dp, ep - sp, g2, e, 'transform'); return Iter(dl, dp + (ep - sp))
    def f_back_inserter(self, e, st): return Opq('back_inserter', self.lv(e['args'][0], st))
    def f_LoadFile(self, e, st):
        a = self.args(e, st)
        self.emit('loadfile', {'path': a[0]}, st, e)
        h = self.hooks.get('fault')
        t = h and h('loadfile', e, st)
        if t: self.cxxthrow(st, t if isinstance(t, str) else 'YAML::BadFile', e); return UNDEF
        return Opq('Y', ('file',), ())
    def f_Clone(self, e, st):
        a = self.args(e, st); v = a[0] if a else None
        if isinstance(v, Opq) and v.tag == 'Y': return Opq('Y', v.args[0][:1] + ('clone',) if v.args[0][0] == 'file' else v.args[0], v.args[1])
        return v
    def f_Comment(self, e, st): 
        self.args(e, st); return Opq('comment')
    # ---------- member functions ----------
    def libm(self, e, st):
        o = e.get('obj'); t0 = strip(o.get('t', '')) if o else ''
        nm = e.get('name') or ''
        if e.get('arrow') and t0.endswith('*'): t0 = strip(t0[:-1])
        if e.get('mstatic'): return self.lib(e, st)
        if e.get('arrow') and o is not None and o['k'] != 'This' and strip(o.get('t', '')).endswith('*'):
            v = self.ev(o, st)
            if isinstance(v, Iter): v = LVal(v.lv.cell, v.lv.path + (('x', v.pos),))
            if isinstance(v, LVal): o = {'k': 'LV', 'lv': v, 't': t0, 'l': o.get('l')}
            else: o = {'k': 'Val', 'v': v if isinstance(v, (Top, VIte)) else Top('pointer'), 't': t0, 'l': o.get('l')}
            e = dict(e, obj=o, arrow=False)
        if isSX(t0) or isEig(t0): r = self.m_mat(nm, e, st, t0)
        elif isVecT(t0): r = self.m_vec(nm, e, st)
        elif isMapT(t0): r = self.m_map(nm, e, st)
        elif isStrT(t0): r = self.m_str(nm, e, st)
        elif isYT(t0) or t0.startswith('YAML::'): r = self.m_yaml(nm, e, st, t0)
        elif t0.startswith('std::optional'): r = self.m_opt(nm, e, st)
        elif I.isStrm(t0): r = self.m_sstream(nm, e, st)
        elif t0.startswith('std::_Rb_tree') or 'iterator' in t0: r = NotImplemented
        else: r = NotImplemented
        if r is not NotImplemented: return r
        h = self.hooks.get('libm')
        if h:
            r = h(self, e, st)
            if r is not NotImplemented: return r
        ov = self.ev(o, st) if o else None
        self.havoc(e, self.args(e, st), st)
        if o and not e.get('mconst') and not e.get('mstatic') and not t0.startswith(('std::basic_', 'std::ctype', 'YAML::')):
            try:
                lv = self.objlv(e, st)
                if lv is not None: self.wr(st, lv, Top('modified by ' + str(e.get('fn'))))
            except (Give, AttributeError, KeyError, TypeError): pass
        return Top('library member %s' % e.get('fn'))
    def m_sstream(self, nm, e, st):
        lv = self.objlv(e, st); v = self.rd(st, lv) if lv is not None else None
        if not isinstance(v, Str): return NotImplemented
        a = self.args(e, st)
        if nm == 'str':
            if not a: return v
            # later output starts over at the beginning of the new text
            self.wr(st, lv, a[0] if isinstance(a[0], Str) and not a[0].parts else Str(('top', 'text of a stream'))); return UNDEF
        if nm in ('clear', 'flush', 'imbue'): return UNDEF
        if nm in ('good', 'operator bool'): return TRUE
        if nm in ('fail', 'bad', 'eof'): return FALSE
        self.wr(st, lv, Str(('top', nm))); return Top('stream member ' + nm)
    def m_opt(self, nm, e, st):
        if nm in ('reset', 'emplace', 'swap'): return NotImplemented
        v = self.ev(e['obj'], st)
        none = isinstance(v, Opq) and v.tag == 'nullopt'
        unk = isinstance(v, (Top, VIte)) or v is UNDEF
        if nm in ('operator bool', 'has_value'): return cb('top', next_id()) if unk else FALSE if none else TRUE
        if nm == 'value_or':
            a = self.args(e, st)
            return Top('optional') if unk else a[0] if none else v
        if nm == 'value':
            if none: self.cxxthrow(st, 'std::bad_optional_access', e); return UNDEF
            return v
        return NotImplemented
    def m_mat(self, nm, e, st, t0):
        kind = 'eig' if isEig(t0) else 'sx'
        if nm == 'finished' and 'CommaInitializer' in t0:
            o = e['obj']
            return self.ev(o, st)
        if nm in ('segment', 'head', 'tail', 'row', 'col', 'block', 'coeffRef', 'noalias', 'array', 'derived') and kind == 'eig':
            return self.rd(st, self.lv(e, st))
        if nm == 'data': return self.rd(st, self.lv(e, st))
        if nm in ('setZero', 'conservativeResize', 'resize', 'setConstant', 'fill', 'setIdentity', 'setOnes'):
            lv = self.objlv(e, st); v = self.rd(st, lv); a = [self.P(x) for x in self.args(e, st)]
            if not isinstance(v, Mat): v = zerosM(0, 0, kind)
            if nm == 'setZero': 
                r, c = (v.rows, v.cols) if not a else (a[0], ONE) if len(a) == 1 else (a[0], a[1])
                nv = zerosM(r, c, kind)
            elif nm == 'setIdentity': nv = Mat(v.rows, v.cols, eyef, kind)
            elif nm == 'setOnes': nv = Mat(v.rows, v.cols, lambda r, c: ONE, kind)
            elif nm in ('setConstant', 'fill'): nv = Mat(v.rows, v.cols, lambda r, c: a[-1], kind)
            elif kind == 'sx':
                nv = Mat(a[0], a[1], lambda r, c: self.guardread(v, r, c), kind)
            else:
                r, c = (a[0], ONE) if len(a) == 1 else (a[0], a[1])
                keep = nm == 'conservativeResize'
                nv = Mat(r, c, lambda i, j: self.keepread(v, i, j) if keep else topP('uninitialised matrix entry'), kind)
            self.store(st, lv, nv, e['obj']) if nm in ('setZero',) else self.wr(st, lv, nv)
            self.emit('resize', {'lv': lv, 'rows': nv.rows, 'cols': nv.cols, 'op': nm}, st, e)
            return UNDEF
        v = self.ev(e['obj'], st)
        if isinstance(v, Top): return v
        v = asmat(self, v, kind)
        if isinstance(v, Top): return v
        if nm in ('T', 'transpose', 'adjoint'): return transp(v)
        if nm in ('size1', 'rows'): return v.rows
        if nm in ('size2', 'cols', 'columns'): return v.cols
        if nm == 'size':
            return v.size() if kind == 'eig' else Tup([v.rows, v.cols])
        if nm in ('numel', 'nnz') and kind == 'sx' and nm == 'numel': return v.size()
        if nm == 'is_constant': 
            x = v.get(ZERO, ZERO) if v.isscalar() else None
            if x is not None:
                if x.isnum(): return TRUE
                return cb('isconst', x)
            R, C_ = v.rows.num(), v.cols.num()
            if isinstance(R, int) and isinstance(C_, int) and R * C_ <= 400:
                es = [v.get(toP(i), toP(j)) for i in range(R) for j in range(C_)]
                return cand(*[TRUE if y.isnum() else cb('isconst', y) for y in es if y is not None]) if all(y is not None for y in es) else cb('top', next_id())
            return cb('top', next_id())
        if nm == 'is_zero':
            x = v.get(ZERO, ZERO) if v.isscalar() else None
            return ceq(x) if x is not None else cb('top', next_id())
        if nm in ('is_empty',): return cor(ceq(v.rows), ceq(v.cols))
        if kind == 'sx' and nm in ('is_scalar', 'is_column', 'is_row', 'is_vector', 'is_square') and not e.get('args'):
            r1, c1 = ceqq(v.rows, 1), ceqq(v.cols, 1)
            return {'is_scalar': lambda: cand(r1, c1), 'is_column': lambda: c1, 'is_row': lambda: r1, 'is_vector': lambda: cor(r1, c1), 'is_square': lambda: ceqq(v.rows, v.cols)}[nm]()
        if nm in ('operator double', 'scalar', 'operator casadi::SXElem', 'value', 'eval', 'get_elements', 'nonzeros', 'get_nonzeros', 'coeff', 'operator()', 'dot', 'cross', 'norm', 'squaredNorm', 'inverse', 'operator float'):
            if nm in ('get_elements', 'nonzeros', 'get_nonzeros'):
                h = self.hooks.get('elements')
                if h: h(self, v)
                return Vec(v.size(), lambda k: v.lin(k), 'casadi::SXElem', tag=None)
            if nm == 'eval': return v
            a = self.args(e, st)
            if nm == 'coeff': return v.lin(self.P(a[0])) if len(a) == 1 else v.get(self.P(a[0]), self.P(a[1]))
            if nm == 'dot': w = a[0]; return sumrange(v.size(), lambda k: v.lin(k) * w.lin(k))
            if nm == 'cross':
                y = a[0]; g = lambda i: v.lin(toP((i + 1) % 3)) * y.lin(toP((i + 2) % 3)) - v.lin(toP((i + 2) % 3)) * y.lin(toP((i + 1) % 3))
                return constM([[g(i)] for i in range(3)], 'eig')
            if nm in ('norm', 'squaredNorm'):
                s = sumrange(v.size(), lambda k: v.lin(k) * v.lin(k)); return mkfn('sqrt', s) if nm == 'norm' else s
            if v.isscalar(): return v.get(ZERO, ZERO)
            return v.get(ZERO, ZERO)
        return NotImplemented
    def guardread(self, v, r, c):
        g = cand(simpC(clt(r, v.rows), GLOBAL), simpC(clt(c, v.cols), GLOBAL))
        if g.kind == 'F': return ZERO
        return v.get(r, c) if g.kind == 'T' else iv(g) * v.get(r, c)
    def keepread(self, v, r, c):
        g = cand(simpC(clt(r, v.rows), GLOBAL), simpC(clt(c, v.cols), GLOBAL))
        if g.kind == 'F': return topP('uninitialised matrix entry')
        if g.kind == 'T': return v.get(r, c)
        return ite(g, v.get(r, c), topP('uninitialised matrix entry'))
    def m_vec(self, nm, e, st):
        if nm in ('at', 'front', 'back', 'data'): return self.rd(st, self.lv(e, st))
        if nm in ('begin', 'cbegin'): return Iter(self.objlv(e, st), ZERO)
        if nm in ('end', 'cend'):
            lv = self.objlv(e, st); return Iter(lv, self.sizeof(self.rd(st, lv)))
        if nm == 'size' or nm == 'empty':
            lv = self.objlv(e, st); v = self.rd(st, lv)
            n = self.vsize(v)
            return n if nm == 'size' else ceq(n)
        if nm in ('reserve', 'shrink_to_fit', 'capacity'):
            self.args(e, st); return UNDEF
        lv = self.objlv(e, st); a = [] if nm == 'emplace_back' else self.args(e, st)
        v = self.rd(st, lv)
        if nm in ('push_back', 'emplace_back'):
            if nm == 'emplace_back':
                a = self.args(e, st)
                if len(a) != 1: return NotImplemented
            x = a[0]
            et = v.et if isinstance(v, Vec) else None
            if et: x = self.conv(x, et)
            self.wr(st, lv, self.push(v, x)); return UNDEF
        if nm in ('resize', 'assign', 'clear'):
            et = v.et if isinstance(v, Vec) else elemT(e['obj'].get('t', ''))
            if nm == 'clear': self.wr(st, lv, Vec(0, lambda k: self.default(et), et)); return UNDEF
            if nm == 'assign':
                if len(a) == 2 and isinstance(a[0], P): nv = Vec(a[0], lambda k: a[1], et, tag=None)
                elif len(a) == 2: nv = self.rangecopy(a[0], a[1], st, et)
                elif isinstance(a[0], Vec): nv = a[0]
                else: nv = Top('assign')
                self.wr(st, lv, nv); self.emit('vresize', {'lv': lv, 'n': self.sizeof(nv), 'op': nm}, st, e); return UNDEF
            n = self.P(a[0]); dv = a[1] if len(a) > 1 else None
            self.wr(st, lv, self.vresize(v, n, dv, et))
            self.emit('vresize', {'lv': lv, 'n': n, 'op': nm}, st, e)
            return UNDEF
        if nm == 'insert':
            # insert(end, first, last) / insert(end, value)
            if isinstance(a[0], Iter) and isinstance(v, Vec) and a[0].pos == v.size or (isinstance(a[0], Iter) and isinstance(v, Vec) and isinstance(a[0].pos, P) and has(a[0].pos, 'top')):
                if len(a) == 3 and isinstance(a[1], Iter):
                    src = self.rd(st, a[1].lv); nn = a[2].pos - a[1].pos; p0 = a[1].pos
                    self.emit('rangeread', {'src': a[1].lv, 'at': p0, 'n': nn, 'size': self.sizeof(src)}, st, e)
                    self.wr(st, lv, self.vappend(v, src, p0, nn)); return UNDEF
                if len(a) == 2: self.wr(st, lv, self.push(v, a[1])); return UNDEF
            if len(a) == 2 and isinstance(a[0], Iter) and isinstance(a[0].pos, P) and not has(a[0].pos, 'top'):
                r = self.vinsert(v, a[0].pos, a[1])
                if r is not None: self.wr(st, lv, r); return Iter(lv, a[0].pos)
            return NotImplemented
        if nm == 'erase' and a and isinstance(a[0], Iter) and isinstance(a[0].pos, P) and not has(a[0].pos, 'top') and isinstance(v, Vec) and not v.filt:
            p = a[0].pos; k = ONE if len(a) == 1 else a[1].pos - p if len(a) == 2 and isinstance(a[1], Iter) and isinstance(a[1].pos, P) else None
            if k is not None and not has(k, 'top'):
                def fn(i, v=v, p=p, k=k):
                    c = simpC(clt(i, p), GLOBAL)
                    return v.get(i) if c.kind == 'T' else v.get(i + k) if c.kind == 'F' else vite(c, v.get(i), v.get(i + k))
                self.wr(st, lv, Vec(v.size - k, fn, v.et)); return Iter(lv, p)
        if nm == 'pop_back' and isinstance(v, Vec): 
            self.wr(st, lv, Vec(v.size - 1, v.fn, v.et)); return UNDEF
        if nm == 'swap':
            l2 = self.lv(e['args'][0], st); x, y = self.rd(st, lv), self.rd(st, l2); self.wr(st, lv, y); self.wr(st, l2, x); return UNDEF
        return NotImplemented
    def vsize(self, v):
        if isinstance(v, Vec): return v.size
        if isinstance(v, VIte): return ite(v.c, self.vsize(v.a), self.vsize(v.b))
        return topP('size of unknown vector')
    def push(self, v, x):
        if isinstance(v, VIte): return vite(v.c, self.push(v.a, x), self.push(v.b, x))
        if isinstance(v, Undef): v = Vec(0, lambda k: UNDEF)
        if not isinstance(v, Vec): return v if isinstance(v, Top) else Top('push_back')
        if v.filt:
            return Vec(v.size + 1, lambda k: UNDEF, v.et, Filt(v.filt.segs + [('one', x)]), tag=('push', v, x))
        n = v.size
        def fn(k):
            c = simpC(ceqq(k, n), GLOBAL)
            if c.kind == 'T': return x
            if n.iszero() or c.kind == 'F': return v.get(k) if not n.iszero() else x
            return vite(c, x, v.get(k))
        return Vec(n + 1, fn, v.et, None, tag=('push', v, x))
    def vinsert(self, v, p, x):
        if isinstance(v, VIte):
            x1, x2 = self.vinsert(v.a, p, x), self.vinsert(v.b, p, x)
            return None if x1 is None or x2 is None else vite(v.c, x1, x2)
        if not isinstance(v, Vec): return None
        if v.et: x = self.conv(x, v.et)
        if v.filt: return Vec(v.size + 1, lambda k: UNDEF, v.et, Filt([('one', x)] + list(v.filt.segs))) if p.iszero() else None
        def fn(k):
            c = simpC(clt(k, p), GLOBAL); d = simpC(ceqq(k, p), GLOBAL)
            if c.kind == 'T': return v.get(k)
            if d.kind == 'T': return x
            r = v.get(k - 1) if not v.size.iszero() else x
            if d.kind != 'F': r = vite(d, x, r)
            return r if c.kind == 'F' or v.size.iszero() else vite(c, v.get(k), r)
        return Vec(v.size + 1, fn, v.et)
    def vresize(self, v, n, dv, et):
        if isinstance(v, VIte): return vite(v.c, self.vresize(v.a, n, dv, et), self.vresize(v.b, n, dv, et))
        if isinstance(v, Undef): return Vec(n, lambda k: dv if dv is not None else self.default(et), et)
        if isinstance(v, Vec) and v.filt: return Top('resize of a filtered vector')
        if not isinstance(v, Vec): return v if isinstance(v, Top) else Top('resize of %s' % type(v).__name__)
        old = v
        def fn(k):
            g = simpC(clt(k, old.size), GLOBAL)
            d = dv if dv is not None else self.default(et)
            if g.kind == 'T': return old.get(k)
            if g.kind == 'F' or old.size.iszero(): return d
            return vite(g, old.get(k), d)
        return Vec(n, fn, et, tag=None)
    def vappend(self, v, src, p0, nn):
        if isinstance(v, Vec) and not v.filt and isinstance(src, Vec) and not src.filt:
            n = v.size
            def fn(k):
                c = simpC(clt(k, n), GLOBAL)
                if c.kind == 'T': return v.get(k)
                if c.kind == 'F' or n.iszero(): return src.get(k - n + p0)
                return vite(c, v.get(k), src.get(k - n + p0))
            return Vec(n + nn, fn, v.et)
        if isinstance(v, Vec) and isinstance(src, Vec) and (v.filt or v.size.iszero() or v.tolist() is not None) and p0.iszero() and nn == src.size:
            a = v.filt.segs if v.filt else [('one', x) for x in v.tolist()]
            b = src.filt.segs if src.filt else ([('one', x) for x in src.tolist()] if src.tolist() is not None else None)
            if b is not None: return Vec(v.size + nn, lambda k: UNDEF, v.et, Filt(list(a) + list(b)))
        if isinstance(src, VIte): return vite(src.c, self.vappend(v, src.a, p0, nn), self.vappend(v, src.b, p0, nn))
        return Top('vector insert')
    def m_map(self, nm, e, st):
        if nm == 'at': return self.rd(st, self.lv(e, st))
        lv = self.objlv(e, st); m = self.rd(st, lv)
        if nm in ('count', 'contains'):
            k = self.key(self.args(e, st)[0])
            h = self.hooks.get('mapcount')
            if h:
                r = h(self, m, k, lv, st, e)
                if r is not NotImplemented: return r if isinstance(r, (P, C)) else toP(r)
            r = self.haskey(m, k)
            return Top('count') if r is None else iv(r) if nm == 'count' else r
        if nm == 'insert' or nm == 'emplace' or nm == 'insert_or_assign' or nm == 'try_emplace':
            a = self.args(e, st)
            if len(a) == 1 and isinstance(a[0], Tup): k, v = a[0].items
            elif len(a) == 2: k, v = a
            else: return NotImplemented
            k = self.key(k); vt = mapT(e['obj'].get('t', ''))
            v = self.conv(v, vt)
            self.emit('mapinsert', {'lv': lv, 'key': k, 'val': v}, st, e)
            if isinstance(m, MapV):
                if nm in ('insert', 'emplace', 'try_emplace') and any(streq(kk, k).kind == 'T' and c.kind == 'T' for c, kk, _ in m.ups): return UNDEF
                self.wr(st, lv, m.set(k, v))
            return UNDEF
        if nm in ('size', 'empty'):
            ks = self.mapkeys(m) if isinstance(m, MapV) else None
            if ks is not None: return num(len(ks)) if nm == 'size' else (TRUE if not ks else FALSE)
            return sym('mapsize:%s' % (m.name if isinstance(m, MapV) else '?')) if nm == 'size' else cb('top', next_id())
        if nm == 'find':
            k = self.key(self.args(e, st)[0]); h = self.hooks.get('mapcount'); r = h(self, m, k, lv, st, e) if h else NotImplemented
            c = self.Cn(toP(r) if not isinstance(r, (P, C)) else r) if r is not NotImplemented else self.haskey(m, k)
            return MIt(lv, k, c if c is not None else cb('top', next_id()))
        if nm in ('end', 'cend'): return MIt(lv)
        if nm in ('begin', 'cbegin'):
            ks = self.mapkeys(m) if isinstance(m, MapV) else None
            return Top('begin of a map') if ks is None else MIt(lv, Str(ks[0]), TRUE) if ks else MIt(lv)
        if nm in ('clear',): self.wr(st, lv, MapV(lambda k: self.default(mapT(e['obj'].get('t', ''))))); return UNDEF
        if nm == 'erase': self.args(e, st); self.wr(st, lv, Top('map after erase')); return UNDEF
        return NotImplemented
    def haskey(self, m, k):
        if not isinstance(m, MapV): return None
        return cor(cb('haskey', m.name or 'map', repr(k)) if m.name else FALSE, *[cand(c, streq(kk, k)) for c, kk, v in m.ups])
    def m_str(self, nm, e, st):
        if nm in ('append', 'push_back'):
            lv = self.objlv(e, st); v = self.rd(st, lv); a = self.args(e, st)
            x = a[0] if isinstance(a[0], (Str, VIte)) else Str(('top', 'append'))
            if len(a) > 1: x = self.strrange(a, [y for y in e['args'] if not y.get('defarg')], st)
            elif isinstance(a[0], P) and nm == 'push_back' and a[0].num() is not None: x = Str(chr(int(a[0].num())))
            if isinstance(v, (Str, VIte)) and x is not None: r = self.binop('+', v, x, e, st); self.wr(st, lv, r); return r
            self.wr(st, lv, Str(('top', 'append'))); return UNDEF
        if nm in ('c_str', 'data', 'str'): return self.ev(e['obj'], st)
        if nm in STRPURE:
            v = strsplit(self.ev(e['obj'], st)); a = [strsplit(x) for x in self.args(e, st)]
            def one(vs):
                r = strpure(nm, vs[0].lit(), vs[1:]) if isinstance(vs[0], Str) and vs[0].lit() is not None else None
                if r is not None: return r
                known = isinstance(vs[0], Str) and not vs[0].istop()
                if nm in ('size', 'length'): return fn('strlen', mkA('sym', repr(vs[0]))) if known else Top(nm)
                if nm == 'empty': return cb('strempty', repr(vs[0])) if known else cb('top', next_id())
                return Str(('top', nm)) if nm == 'substr' else Top(nm)
            return vlift(one, [v] + a)
        if nm in ('pop_back', 'swap', 'replace', 'clear', 'reserve'):
            lv = self.objlv(e, st); a = self.args(e, st)
            if nm == 'clear': self.wr(st, lv, Str())
            elif nm == 'pop_back':
                v = self.rd(st, lv)
                if isinstance(v, Str) and v.parts and isinstance(v.parts[-1], str): self.wr(st, lv, Str(*(v.parts[:-1] + (v.parts[-1][:-1],))))
                else: self.wr(st, lv, Str(('top', 'pop_back')))
            elif nm != 'reserve': self.wr(st, lv, Str(('top', nm)))
            return UNDEF
        return NotImplemented
    def m_yaml(self, nm, e, st, t0):
        v = self.ev(e['obj'], st)
        if nm == 'as':
            t = strip(e.get('t', '')); a = self.args(e, st)
            if not (isinstance(v, Opq) and v.tag == 'Y'):
                if isinstance(v, Opq) and v.tag == 'Ykey' and self.ydoc is not None:
                    d = self.ynode(v.args[0]); i = v.args[1].num()
                    if isinstance(d, dict) and i is not None:
                        k = list(d)[i]; return k if isinstance(k, Str) else Str(k)
                if isinstance(v, Opq) and v.tag == 'Ykey': return Str(('s', mkA('ykey', *self.ykeyargs(v)))) if isStrT(t) else Top('key')
                return Top('as of unknown node')
            k, idx = ykey(v)
            self.emit('yas', {'node': v, 't': t}, st, e)
            h = self.hooks.get('fault')
            ft = h and not a and h('yas', e, st)
            if ft: self.cxxthrow(st, ft if isinstance(ft, str) else 'YAML::TypedBadConversion', e); return UNDEF
            d = self.ynode(v)
            if d is not None:
                r = self.docvalue(d, t)
                if r is None:
                    if a: return self.conv(a[0], t)
                    self.emit('ymissing', {'node': v, 't': t}, st, e)
                    self.cxxthrow(st, 'YAML::TypedBadConversion', e)
                    return UNDEF
                return r
            r = self.yvalue(v, t, k, idx)
            if a:
                d = self.conv(a[0], t)
                return vite(cb('yhas', k, tuple(idx)), r, d)
            return r
        if nm in ('operator bool', 'IsDefined'):
            if isinstance(v, Opq) and v.tag == 'Y':
                self.emit('yhas', {'node': v}, st, e)
                d = self.ynode(v)
                if d is not None: return FALSE if d is I.YMISS else TRUE
                k, idx = ykey(v)
                return cb('yhas', k, tuple(idx))
            return cb('top', next_id())
        if nm in ('IsNull', 'IsSequence', 'IsMap', 'IsScalar'):
            k = repr_key(v) if isinstance(v, Opq) and v.tag == 'Y' else next_id()
            return cb(nm, k)
        if nm == 'size':
            return self.ylen(v) if isinstance(v, Opq) and v.tag == 'Y' else topP('size')
        if nm in ('begin', 'end') and isinstance(v, Opq) and v.tag == 'Y': return YIt(v, ZERO if nm == 'begin' else self.ylen(v))
        if nm == 'reset' and e['args']:
            a = self.args(e, st); self.wr(st, self.objlv(e, st), a[0]); return UNDEF
        if nm == 'push_back':
            a = self.args(e, st); self.emit('ypush', {'node': v, 'val': a[0]}, st, e); return UNDEF
        if nm in ('SetIndent', 'SetSeqFormat', 'SetMapFormat'): self.args(e, st); return UNDEF
        if nm in ('c_str',):
            lv = self.objlv(e, st); return Opq('yemit', lv.cell if lv is not None else v)
        return NotImplemented
    def docvalue(self, d, t):
        """contents d of a document node converted to type t; None when the conversion fails"""
        if d is I.YMISS: return None
        if isinstance(d, Top) or isYT(t): return d if isinstance(d, Top) else Top('document node')
        if isVecT(t):
            if not isinstance(d, (list, tuple)): return None
            et = elemT(t); l = [self.docvalue(x, et) for x in d]
            return None if any(x is None for x in l) else listV(l, et)
        if isinstance(d, (dict, list, tuple)): return None
        if isStrT(t): return d if isinstance(d, Str) else Str(d) if isinstance(d, str) else Str(('s', mkA('text', d))) if isinstance(d, P) else None
        if strip(t) == 'bool': return d if isinstance(d, C) else (TRUE if d else FALSE) if isinstance(d, bool) else None
        if isIntT(t) or isFltT(t): 
            if not isinstance(d, (P, int, Str, str, C, type(None))): return Top('node contents %r' % (d,))
            d = d if isinstance(d, P) else toP(d) if isinstance(d, int) and not isinstance(d, bool) else None
            return I.narrow(d) if strip(t) == 'float' else d
        return Top('yaml as ' + t)
    def ykeyargs(self, v):
        k, idx = ykey(v.args[0]); return (k,) + tuple(idx) + (v.args[1],)
    def yvalue(self, v, t, k, idx):
        """abstract contents of the configuration node with path k"""
        if isStrT(t): return Str(('s', mkA('ent', 'ystr:' + k, *idx)))
        if strip(t) == 'bool': return cb('ybool', k, tuple(idx))
        if isIntT(t) or isFltT(t): return (I.narrow if strip(t) == 'float' else toP)(ent('y:' + k, *idx))
        if isVecT(t):
            et = elemT(t); n = self.ylen(v)
            if isStrT(et): return Vec(n, lambda i: Str(('s', mkA('ent', 'ystr:' + k, *(list(idx) + [i])))), et)
            if isVecT(et):
                return Vec(n, lambda i: Vec(toP(mkA('ent', 'ylen:' + k + '[]', *(list(idx) + [i]))), lambda j: ent('y:' + k, *(list(idx) + [i, j])), elemT(et)), et)
            return Vec(n, lambda i: ent('y:' + k, *(list(idx) + [i])), et)
        if isYT(t): return v
        return Top('yaml as ' + t)

from stdalg import Alg
class Machine(Lib, Alg, Interp):
    pass
