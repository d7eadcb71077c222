"""Flow-sensitive value-numbering analysis over the type-resolved syntax tree.
Every function body is walked once per calling context; branches are joined with
guarded values, counted loops are summarised by solving the per-iteration transfer
function of each loop-carried cell (induction, accumulation, single assignment,
last writer, recurrence).  No path enumeration, no execution of the program."""
import re
from fractions import Fraction
from terms import *
from values import *
import terms as T

def strip(t):
    t = (t or '').strip()
    for _ in range(3):
        if t.startswith('const '): t = t[6:]
        if t.endswith('&&'): t = t[:-2].strip()
        if t.endswith('&'): t = t[:-1].strip()
        if t.endswith(' const'): t = t[:-6]
    return t
def isSX(t): return strip(t).startswith(('casadi::Matrix<', 'casadi::SubMatrix<', 'casadi::SubIndex<', 'casadi::SXElem'))
def isEig(t): return strip(t).startswith('Eigen::')
def isStrT(t): return strip(t).startswith(('std::basic_string<', 'std::string', 'char *', 'const char *', 'const char[', 'char['))
def isVecT(t): return strip(t).startswith(('std::vector<', 'std::array<', 'std::deque<', 'std::initializer_list<'))
def isMapT(t): return strip(t).startswith(('std::map<', 'std::unordered_map<'))
def isYT(t): return strip(t).startswith('YAML::Node')
def isIntT(t): return strip(t) in ('int', 'long', 'unsigned int', 'unsigned long', 'long long', 'unsigned long long', 'short', 'char', 'unsigned char', 'size_t', 'bool', 'unsigned short', 'signed char')
def narrow(v):
    """value v stored in single precision"""
    if isinstance(v, P):
        c = v.num()
        if c is None or c.denominator & (c.denominator - 1) or abs(c.numerator) >= 1 << 24: return mkfn('f32', v)
    if isinstance(v, VIte): return vite(v.c, narrow(v.a), narrow(v.b))
    return v
def isFltT(t): return strip(t) in ('double', 'float', 'long double')
def elemT(t):
    m = re.match(r'std::(?:vector|array|deque|initializer_list)<(.*)>$', strip(t))
    if not m: return None
    s = m.group(1); d = 0
    for i, ch in enumerate(s):
        if ch in '<(': d += 1
        elif ch in '>)': d -= 1
        elif ch == ',' and d == 0: return s[:i].strip()
    return s.strip()

def num(s):
    f = float(s)
    if f == int(f) and abs(f) < 1e15: return toP(int(f))
    return toP(Fraction(repr(f)))

class Event:
    __slots__ = ('kind', 'd', 'pc', 'loops', 'loc', 'seq')
    def __init__(self, kind, d, pc, loops, loc, seq): self.kind = kind; self.d = d; self.pc = pc; self.loops = loops; self.loc = loc; self.seq = seq
    def __repr__(self): return 'Event(%s,%r,pc=%r,loops=%r,%s)' % (self.kind, self.d, self.pc, self.loops, self.loc)

class State:
    __slots__ = ('store', 'pc', 'ret', 'dead')
    def __init__(self, store=None, pc=(), ret=UNDEF): self.store = store if store is not None else {}; self.pc = tuple(pc); self.ret = ret; self.dead = False
    def copy(self, *c):
        s = State(dict(self.store), self.pc + tuple(x for x in c if x.kind != 'T'), self.ret); return s

def sel_of(pc, k): return cand(*pc[k:])
def merge_or(ca, cb):
    """ca or cb for disjoint conditions, absorbing complements"""
    la = ca.args if ca.kind == 'and' else (ca,)
    lb = cb.args if cb.kind == 'and' else (cb,)
    na = cnot(ca)
    if cb is na or cb == na: return TRUE
    if na in lb: return cor(ca, cand(*[x for x in lb if x is not na]))
    nb = cnot(cb)
    if nb in la: return cor(cb, cand(*[x for x in la if x is not nb]))
    # shared prefix  p&c , p&!c&r
    com = [x for x in la if x in lb]
    if com:
        ra = cand(*[x for x in la if x not in com]); rb = cand(*[x for x in lb if x not in com])
        return cand(*com, merge_or(ra, rb))
    return cor(ca, cb)
def merge(a, b):
    if a is None or a.dead: return b
    if b is None or b.dead: return a
    k = 0
    while k < len(a.pc) and k < len(b.pc) and a.pc[k] is b.pc[k]: k += 1
    ca, cb_ = sel_of(a.pc, k), sel_of(b.pc, k)
    # choose the simpler selector
    if len(cb_.key) < len(ca.key): a, b, ca, cb_ = b, a, cb_, ca
    st = {}
    for c in a.store.keys() | b.store.keys():
        x = a.store.get(c, UNDEF); y = b.store.get(c, UNDEF)
        if x is y: st[c] = x
        elif x is UNDEF and c not in a.store: st[c] = y
        elif y is UNDEF and c not in b.store: st[c] = x
        else: st[c] = vite(ca, x, y)
    pc = a.pc[:k]
    j = merge_or(ca, cb_)
    if j.kind != 'T': pc = pc + (j,)
    r = a.ret if a.ret is b.ret else vite(ca, a.ret, b.ret)
    return State(st, pc, r)

class Frame:
    __slots__ = ('env', 'this', 'fn')
    def __init__(self, env, this, fn): self.env = env; self.this = this; self.fn = fn

RECDEF = {}
LOOPS = {}
LETDEF = {}

def letP(body, params):
    """name a large entry by its canonical form: let(id, params...)"""
    extra = sorted((s for s in body.fv() if '~' in s and s not in params), key=lambda s: int(s.rsplit('~', 1)[1]))
    allp = list(params) + extra
    env = {p: sym('@L%d' % i) for i, p in enumerate(allp)}
    b = subst(body, env)
    lid = 'L' + hashlib_(kof(b))
    LETDEF[lid] = (b, ['@L%d' % i for i in range(len(allp))])
    return lid, extra
def hashlib_(s):
    import hashlib
    return hashlib.sha1(s.encode()).hexdigest()[:12]

def mapatoms(x, pred, f):
    """rebuild x replacing atoms satisfying pred by f(atom with rebuilt args)"""
    memo = {}
    def go(x):
        if isinstance(x, P):
            if x in memo: return memo[x]
            if not any(hasm(a) for m in x.d for a, e in m): memo[x] = x; return x
            acc = ZERO; simple = {}
            for m, c in x.d.items():
                if not any(hasm(a) for a, e in m): simple[m] = c; continue
                t = P({(): c}); keep = []
                for a, e in m:
                    if hasm(a):
                        g = goA(a)
                        if e != 1: g = g.ipow(e)
                        t = t * g
                    else: keep.append((a, e))
                if keep: t = t * P({tuple(keep): 1})
                acc = acc + t
            r = acc + P(simple)
            memo[x] = r
            return r
        if isinstance(x, A): return goA(x)
        if isinstance(x, C):
            if x in memo: return memo[x]
            if not x.args: return x
            r = recond(x, [go(y) for y in x.args]); memo[x] = r; return r
        if isinstance(x, tuple): return tuple(go(y) for y in x)
        return x
    hm = {}
    def hasm(a):
        r = hm.get(a)
        if r is None: r = hm[a] = bool(subatoms(a, pred))
        return r
    def goA(a):
        if a in memo: return memo[a]
        if not hasm(a): r = toP(a)
        elif a.kind == 'sum':
            rng, mono = a.args
            ren = {v: sym(fresh('b')) for v, _, _ in rng}
            nr = []
            for v, lo, hi in rng:
                lo2 = go(subst(lo, ren)); hi2 = go(subst(hi, ren)); s = ren[v]
                with_facts(cleq(lo2, s), clt(s, hi2))
                nr.append((next(iter(s.fv())), lo2, hi2))
            b = go(subst(P({mono: 1}), ren))
            for v, lo, hi in reversed(nr): b = mksum(v, lo, hi, b)
            r = b
        elif a.kind == 'iv': r = iv(go(a.args[0]))
        else:
            args = [go(y) if not isinstance(y, A) else goA(y) for y in a.args]
            if pred(a): r = f(a, args)
            else: r = rebuild(a, args)
        memo[a] = r
        return r
    return go(x)

class Family:
    """one scalar-valued loop-carried family: value before iteration t at index idx"""
    def __init__(self, loop, key, nidx, init, body, dims):
        self.loop = loop; self.key = key; self.nidx = nidx; self.init = init; self.body = body; self.dims = dims
        self.sol = None; self.busy = False; self.kind = None; self.recused = False
    def g(self):
        idx = []
        for d in range(self.nidx):
            s = fresh('g'); idx.append(sym(s))
            dm = self.dims[d] if self.dims else None
            if dm is not None and isinstance(dm, P) and not has(dm, '$'):
                with_facts(cle(-sym(s)), clt(sym(s), dm))
            else: with_facts(cle(-sym(s)))
        return idx
    def analyse(self):
        if self.sol is not None: return
        if self.busy: return
        self.busy = True
        try:
            self._analyse()
        finally: self.busy = False
    def _own(self, a): return a.kind == '$' and a.args[0] == self.loop.lid and a.args[1] == self.key
    def _analyse(self):
        L = self.loop; t = L.t
        g = self.g()
        F = self.body(g)
        F = L.resolve(F, skip=self.key)
        F = simp(F, GLOBAL)
        X = mkA('$', L.lid, self.key, sym(t), *g)
        XP = toP(X)
        self.gidx = g
        own = subatoms(F, self._own)
        A_ = ZERO; B = ZERO; nonlocal_ = False
        perown = {}
        for m, c in F.d.items():
            inm = [(a, e) for a, e in m if self._own(a)]
            nested = [a for a, e in m if not self._own(a) and subatoms(a, self._own)]
            if nested or len(inm) > 1 or (inm and inm[0][1] != 1): nonlocal_ = True; A_ = A_ + P({m: c}); continue
            if not inm: A_ = A_ + P({m: c}); continue
            a = inm[0][0]
            rest = P({tuple(x for x in m if x[0] is not a): c})
            perown[a] = perown.get(a, ZERO) + rest
        for a, co in perown.items():
            if a is X: B = B + co; continue
            if a.args[2] != sym(t): nonlocal_ = True; A_ = A_ + co * toP(a); continue
            same = cand(*[ceqq(x, y) for x, y in zip(a.args[3:], g)])
            if prove_zero(co * (ONE - iv(same)), GLOBAL)[0]: B = B + co
            else: nonlocal_ = True; A_ = A_ + co * toP(a)
        B = simp(B, GLOBAL)
        tctx = GLOBAL
        if not nonlocal_:
            if B == ONE or prove_zero(B - 1, tctx)[0]:
                if A_.iszero() or prove_zero(A_, tctx)[0]: self.sol = ('const',); return
                self.sol = ('acc', A_); return
            if B.iszero() or prove_zero(B, tctx)[0]:
                self.sol = ('over', A_); return
            if not (prove_zero(A_ * B, tctx)[0] and prove_zero(B * B - B, tctx)[0]):
                raise Give('loop-carried value of %s has no recognised form: %s' % (self.key, show(F)))
            # last writer with a persistent guard
            tn = sym(t) + 1
            B1 = subst(B, {t: tn})
            c2 = Ctx((cleq(L.lo, sym(t)), clt(tn, L.hi)))
            if prove_zero((ONE - B) * B1, c2)[0]:
                self.sol = ('last', A_, B); return
        w = self.writer(B, A_, g, nonlocal_)
        if w is not None:
            self.sol = ('single', A_, B, w, nonlocal_); 
            if nonlocal_:
                RECDEF[(L.lid, self.key)] = dict(fam=self, g=g, w=w, F=A_ + B * toP(mkA('$', L.lid, self.key, sym(t), *g)), mode='index')
            return
        if nonlocal_:
            RECDEF[(L.lid, self.key)] = dict(fam=self, g=g, F=F, mode='time')
            self.sol = ('rec',); return
        raise Give('loop-carried value of %s has no recognised form: %s' % (self.key, show(F)))
    def writer(self, B, A_, g, nonlocal_):
        """unique iteration writing index g, as a term over g"""
        L = self.loop; t = L.t
        ivs = subatoms((B, A_), lambda a: a.kind == 'iv')
        cands = []
        for a in sorted(ivs):
            c = a.args[0]
            if c.kind == 'eq' and t in c.args[0].fv():
                s = solve_lin(c.args[0], t)
                if s is not None: cands.append((s, None))
            if c.kind == 'le' and t in c.args[0].fv():
                p = c.args[0]
                tm = [(m, k) for m, k in p.d.items() if any(x.kind == 'sym' and x.args[0] == t for x, e in m)]
                if len(tm) == 1:
                    m, k = tm[0]
                    s = P({tuple(x for x in m if not (x[0].kind == 'sym' and x[0].args[0] == t)): abs(k)})
                    rest = P({mm: kk for mm, kk in p.d.items() if mm != m})
                    r = -rest if k > 0 else rest + s - 1    # k>0:  s*t <= -rest ; k<0: rest <= s*t
                    # owner symbol
                    for gi in g:
                        gn = next(iter(gi.fv()))
                        if r.d.get(((mkA('sym', gn), 1),)) == 1:
                            off = r - gi
                            cands.append((None, (gn, s, off)))
        for s, dv in cands:
            if s is not None:
                if any(x not in [next(iter(y.fv())) for y in g] and '~' in x and x == t for x in s.fv()): continue
                neq = ONE - iv(ceqq(sym(t), s))
                if prove_zero((ONE - B) * neq, GLOBAL)[0] and (nonlocal_ or prove_zero(A_ * neq, GLOBAL)[0]):
                    if nonlocal_ and not prove_zero(A_ * neq, GLOBAL)[0]: continue
                    return s
            else:
                gn, st, off = dv
                u, w = fresh('u'), fresh('w')
                with_facts(cle(-sym(u)), clt(sym(u), st)); with_facts(cle(-sym(w)))
                env = {gn: sym(u) + st * sym(w) - off}
                neq = ONE - iv(ceqq(sym(t), sym(w)))
                b2 = simp(subst(ONE - B, env), GLOBAL); a2 = simp(subst(A_, env), GLOBAL)
                ctx = Ctx((cleq(L.lo, sym(t)), clt(sym(t), L.hi)))
                if prove_zero(b2 * neq, ctx)[0] and prove_zero(a2 * neq, ctx)[0]:
                    return pdiv(sym(gn) + off, st)
        return None
    def at(self, tt, idx):
        L = self.loop
        if self.sol is None:
            if self.busy:   # mutual recursion through other families
                self.recused = True
                return toP(mkA('rec', L.lid, self.key, tt, *idx))
            self.analyse()
        s = self.sol
        env = {next(iter(g.fv())): i for g, i in zip(self.gidx, idx)}
        if s[0] == 'const': return self.init(idx)
        if s[0] == 'acc':
            v = fresh('b'); with_facts(cleq(L.lo, sym(v)), clt(sym(v), tt))
            return self.init(idx) + mksum(v, L.lo, tt, subst(s[1], dict(env, **{L.t: sym(v)})))
        if s[0] == 'over':
            return ite(simpC(clt(L.lo, tt), GLOBAL), subst(s[1], dict(env, **{L.t: tt - 1})), self.init(idx))
        if s[0] == 'last':
            e2 = dict(env, **{L.t: tt - 1})
            i0 = self.init(idx)
            return ite(simpC(clt(L.lo, tt), GLOBAL), subst(s[1], e2) + subst(s[2], e2) * i0, i0)
        if s[0] == 'single':
            w = subst(s[3], env)
            i0 = self.init(idx)
            guard = cand(simpC(cleq(L.lo, w), GLOBAL), simpC(clt(w, tt), GLOBAL))
            if guard.kind == 'F': return i0
            if s[4]: v = toP(mkA('rec', L.lid, self.key, *idx))
            else:
                e2 = dict(env, **{L.t: w})
                v = subst(s[1], e2) + subst(s[2], e2) * i0
            return ite(guard, v, i0)
        if s[0] == 'rec':
            if tt == L.lo: return self.init(idx)
            return toP(mkA('rec', L.lid, self.key, tt, *idx))
        raise Give('unsolved')

class Loop:
    def __init__(self, lid, t, lo, hi): self.lid = lid; self.t = t; self.lo = lo; self.hi = hi; self.fams = {}; self.vals = {}; self.memo = {}
    def resolve(self, x, skip=None):
        """replace placeholders of this loop by closed forms"""
        def pred(a): return a.kind == '$' and a.args[0] == self.lid and a.args[1] != skip
        def f(a, args):
            fam = self.fams.get(args[1])
            if fam is None: raise Give('no summary for %s' % args[1])
            return fam.at(args[2], list(args[3:]))
        if not subatoms(x, pred): return x
        return mapatoms(x, pred, f)
    def resval(self, v):
        def fs(ph):
            if ph.lid != self.lid: return ph
            return self.valat(ph.cid, ph.t)
        return mapval(v, self.resolve, fs)
    def valat(self, cid, t): 
        init, body = self.vals[cid]
        if haspv(body, self.lid, cid): return Top('loop-carried non-numeric value')
        b = self.resval(body)
        return vite(simpC(clt(self.lo, t), GLOBAL), substval(b, {self.t: t - 1}), init)

def haspv(v, lid, cid):
    if isinstance(v, PhV): return v.lid == lid and v.cid == cid
    if isinstance(v, VIte): return haspv(v.a, lid, cid) or haspv(v.b, lid, cid)
    if isinstance(v, Tup): return any(haspv(x, lid, cid) for x in v.items)
    return False

class YMissT:
    def __repr__(self): return 'missing'
    def __len__(self): return 0
YMISS = YMissT()
class CxxThrow(Exception):
    """an exception of the analysed program"""
    def __init__(self, ty, st): self.type = ty; self.st = st
BASES = {'std::runtime_error': 'std::exception', 'std::logic_error': 'std::exception', 'std::bad_alloc': 'std::exception', 'std::bad_cast': 'std::exception', 'std::bad_any_cast': 'std::bad_cast', 'std::bad_optional_access': 'std::exception', 'std::bad_function_call': 'std::exception',
         'std::out_of_range': 'std::logic_error', 'std::invalid_argument': 'std::logic_error', 'std::length_error': 'std::logic_error', 'std::domain_error': 'std::logic_error',
         'std::range_error': 'std::runtime_error', 'std::overflow_error': 'std::runtime_error', 'std::system_error': 'std::runtime_error', 'std::filesystem::filesystem_error': 'std::system_error', 'std::ios_base::failure': 'std::system_error',
         'casadi::CasadiException': 'std::exception', 'YAML::Exception': 'std::runtime_error', 'YAML::RepresentationException': 'YAML::Exception', 'YAML::ParserException': 'YAML::Exception', 'YAML::BadFile': 'YAML::Exception', 'YAML::EmitterException': 'YAML::Exception',
         'YAML::InvalidScalar': 'YAML::RepresentationException', 'YAML::KeyNotFound': 'YAML::RepresentationException', 'YAML::InvalidNode': 'YAML::RepresentationException', 'YAML::BadConversion': 'YAML::RepresentationException', 'YAML::BadDereference': 'YAML::RepresentationException', 'YAML::BadSubscript': 'YAML::RepresentationException', 'YAML::BadPushback': 'YAML::RepresentationException', 'YAML::BadInsert': 'YAML::RepresentationException'}
def excname(t):
    t = t.replace('const ', '').replace('&', '').replace('__cxx11::', '').strip()
    if t.startswith('YAML::TypedBadConversion'): return 'YAML::BadConversion'
    if t.startswith('YAML::TypedKeyNotFound'): return 'YAML::KeyNotFound'
    return t
def caughtby(ty, h):
    """whether a handler for h takes an exception of class ty"""
    h = excname(h); ty = excname(ty)
    if h == '...': return True
    while ty:
        if ty == h: return True
        ty = BASES.get(ty, None if ty == 'std::exception' or '::' not in ty and not ty[:1].isupper() else 'YAML::Exception' if ty.startswith('YAML::') else 'std::exception')
    return False
class Changed(Give): pass
def hascont(x):
    if isinstance(x, list): return any(hascont(y) for y in x)
    if not isinstance(x, dict): return False
    if x.get('k') == 'Continue': return True
    return x.get('k') not in ('For', 'While', 'Do', 'RFor', 'Lambda') and any(hascont(y) for y in x.values())
def neg(p):
    n = p.num()
    return n is not None and n < 0
class Interp:
    def __init__(self, prog, hooks=None):
        self.prog = prog; self.hooks = hooks or {}; self.exstack = []
        self.events = []; self.loops = []; self.nc = 0; self.depth = 0; self.fns = set(); self.callstack = []
        self.calls = 0; self.globals = {}; self.curloc = ('?', 0); self.dry = 0
        self.filtloops = 0; self.nomodel = set()
    # ----- cells -----
    def new(self, st, v=UNDEF):
        self.nc += 1; st.store[self.nc] = v; return LVal(self.nc)
    exc = False; exc_pc = 0; tries = 0; ydoc = None; bounds = False; curl = None
    def emit(self, kind, d, st, e=None):
        self.events.append(Event(kind, d, st.pc, list(self.loops), (self.curfile(), e.get('l') if e else None), len(self.events)))
    def curfile(self): return self.callstack[-1]['file'] if self.callstack else '?'
    def ctx(self, st): return Ctx(st.pc)
    # ----- path access -----
    def rd(self, st, lv):
        v = st.store.get(lv.cell, UNDEF)
        for el in lv.path: v = self.getp(st, v, el)
        return v
    def getp(self, st, v, el):
        if isinstance(v, VIte): return vite(v.c, self.getp(st, v.a, el), self.getp(st, v.b, el))
        k = el[0]
        if isinstance(v, Top): return v
        if isinstance(v, Undef): return v
        if isinstance(v, PhV): return Top('component of loop-carried value')
        if self.bounds and k in ('x', 's', 'l'): self.boundw(st, v, el, 'br')
        if k == 'f':
            if isinstance(v, Obj): return v.get(el[1])
            if isinstance(v, Tup) and el[1] in ('first', 'second'): return v.items[0 if el[1] == 'first' else 1]
            if isinstance(v, LVal): return self.getp(st, self.rd(st, v), el)
            return Top('field %s of %r' % (el[1], v))
        if k == 'x':
            if isinstance(v, Vec):
                if v.filt: return self.filtget(v, el[1])
                if not self.bounds: return v.get(el[1])
                try: return v.get(el[1])
                except Give as ex:
                    if 'out of range' in str(ex): return Top('read out of bounds')
                    raise
            if isinstance(v, Mat): return v.lin(el[1])
            if isinstance(v, Str): return strchar(v, el[1]) if k == 'x' else Top('char of string')
            if isinstance(v, MapV): return v.get(Str(('int', el[1])))
            return Top('element of %r' % (v,))
        if k == 'm':
            if isinstance(v, MapV): return v.get(el[1])
            return Top('key of %r' % (v,))
        if k == 't':
            if isinstance(v, Tup): return v.items[el[1]]
            return Top('tuple item')
        if k in ('s', 'l'):
            if isinstance(v, P): v = scalM(v)
            if not isinstance(v, Mat): return Top('matrix element of %r' % (v,))
            return self.matget(v, el)
        raise Give('path %r' % (el,))
    def filtget(self, v, k):
        segs = v.filt.segs
        if len(segs) == 1 and segs[0][0] != 'one':
            val = segs[0][4]
            key = hashlib_(kof(v.filt.key()))
            if isinstance(val, P): return toP(mkA('filt', key, k))
            if isinstance(val, Str): return Str(('s', mkA('filt', key, k)))
            if isinstance(val, Mat) and val.isscalar(): return scalM(toP(mkA('filt', key, k)))
        if all(s[0] == 'one' for s in segs): return listV([s[1] for s in segs]).get(k)
        return Top('element of a filtered vector')
    def selmatch(self, sel, i):
        if sel[0] == 'a': return TRUE
        if sel[0] == 'p': return simpC(ceqq(i, sel[1]), GLOBAL)
        if sel[0] == 'v':
            k = FALSE
            for x in sel[1]: k = cor(k, simpC(ceqq(i, x), GLOBAL))
            return k
        return cand(simpC(cleq(sel[1], i), GLOBAL), simpC(clt(i, sel[2]), GLOBAL))
    def selpick(self, l, i):
        """entry i of a list of positions"""
        n = i.num()
        if isinstance(n, int): return l[n] if 0 <= n < len(l) else topP('position past a selection')
        r = l[-1] if l else topP('empty selection')
        for j in range(len(l) - 2, -1, -1): r = ite(ceqq(i, toP(j)), l[j], r)
        return r
    def normel(self, m, el):
        """positions counted from the end and steps, which casadi accepts, as plain positions"""
        if all(s[0] in 'au' or s[0] == 'p' and not neg(s[1]) or s[0] == 'r' and s[2] is not None and not neg(s[1]) and not neg(s[2]) or
               s[0] == 'v' and not any(neg(x) for x in s[1]) for s in el[1:]): return el
        if m.kind != 'sx': return el
        def one(s, n):
            def back(x): return x + n if neg(x) and not neg(x + n) else x
            if s[0] == 'p': return ('p', back(s[1]))
            if s[0] == 'v': return ('v', tuple(back(x) for x in s[1]))
            if s[0] == 'r': return ('r', back(s[1]), n if s[2] is None else back(s[2]))
            if s[0] == 'rs':
                k = [x.num() for x in (back(s[1]), back(s[2]), s[3])]
                if not all(isinstance(x, int) for x in k) or k[2] == 0: return ('u', 'selection by a slice')
                return ('v', tuple(toP(x) for x in range(*k)))
            return s
        if el[0] == 'l': return ('l', one(el[1], m.size()))
        return (el[0], one(el[1], m.rows), one(el[2], m.cols))
    def matget(self, m, el):
        el = self.normel(m, el)
        for s in el[1:]:
            if s[0] == 'u': return Top(s[1])
        if el[0] == 'l':
            s = el[1]
            if s[0] == 'v':
                f = lambda i: m.lin(self.selpick(s[1], i))
                if m.rows.num() == 1 and m.cols.num() != 1: return Mat(1, len(s[1]), lambda r, c: f(c), m.kind)
                return Mat(len(s[1]), 1, lambda r, c: f(r), m.kind)
            if s[0] == 'p': return m.lin(s[1])
            if s[0] == 'a': return Mat(m.size(), 1, lambda r, c: m.lin(r), m.kind)
            if m.rows.num() == 1 and m.cols.num() != 1: return Mat(1, s[2] - s[1], lambda r, c: m.lin(s[1] + c), m.kind)
            return Mat(s[2] - s[1], 1, lambda r, c: m.lin(s[1] + r), m.kind)
        rs, cs = el[1], el[2]
        if rs[0] == 'p' and cs[0] == 'p': return m.get(rs[1], cs[1])
        def dim(s, full): return ONE if s[0] == 'p' else full if s[0] == 'a' else toP(len(s[1])) if s[0] == 'v' else s[2] - s[1]
        def off(s, i): return s[1] if s[0] == 'p' else i if s[0] == 'a' else self.selpick(s[1], i) if s[0] == 'v' else s[1] + i
        return Mat(dim(rs, m.rows), dim(cs, m.cols), lambda r, c: m.get(off(rs, r), off(cs, c)), m.kind)
    def matset(self, m, el, v):
        if isinstance(v, C): v = iv(v)
        if isinstance(v, Top): 
            why = v.why
            v = scalM(topP(why))
        if isinstance(v, VIte) : v = scalM(topP('conditional non-matrix value'))
        if not isinstance(v, (P, Mat)): v = scalM(topP('assignment of %r' % (v,)))
        el = self.normel(m, el)
        if el[0] == 'l':
            s = el[1]
            if m.cols.num() == 1: el = ('s', s, ('p', ZERO))
            elif m.rows.num() == 1: el = ('s', ('p', ZERO), s)
            elif s[0] == 'p': el = ('s', ('p', pmod(s[1], m.rows)), ('p', pdiv(s[1], m.rows)))
            elif s[0] in ('u', 'v'): return Mat(m.rows, m.cols, lambda r, c: topP('write to a selection of a matrix'), m.kind)
            else: el = ('s', s, ('a',)) if not m.rows.isnum() else ('s', s, ('p', ZERO))
        rs, cs = el[1], el[2]
        if rs[0] == 'u' or cs[0] == 'u': return Mat(m.rows, m.cols, lambda r, c: topP('write to an unknown selection'), m.kind)
        if rs[0] == 'v' or cs[0] == 'v':
            # one position after the other: the last of two equal positions wins
            def one(s, full): return [(x, toP(i)) for i, x in enumerate(s[1])] if s[0] == 'v' else [(None, None)]
            if isinstance(v, Mat) and v.isscalar(): v = v.get(ZERO, ZERO)
            for x, i in one(rs, m.rows):
                for y, j in one(cs, m.cols):
                    def part(s, k):
                        return ('p', k) if k is not None else s
                    w = v
                    if isinstance(v, Mat):
                        vt = v
                        if v.cols.num() == 1 and rs[0] == 'p' or v.rows.num() == 1 and cs[0] == 'p' and v.cols.num() != 1: vt = transp(v)
                        w = self.matget(vt, ('s', ('a',) if i is None else ('p', i), ('a',) if j is None else ('p', j)))
                    m = self.matset(m, ('s', part(rs, x), part(cs, y)), w)
            return m
        def off(s, i): return ZERO if s[0] == 'p' else i if s[0] == 'a' else i - s[1]
        if isinstance(v, Mat) and v.isscalar(): v = v.get(ZERO, ZERO)
        if isinstance(v, Mat):
            vt = v
            # a column assigned to a row region (or vice versa) is laid out by position
            if v.cols.num() == 1 and rs[0] == 'p' and cs[0] != 'p': vt = transp(v)
            elif v.rows.num() == 1 and cs[0] == 'p' and rs[0] != 'p': vt = transp(v)
            val = lambda r, c: vt.get(off(rs, r), off(cs, c))
        else: val = lambda r, c: v
        def fn(r, c):
            k = cand(self.selmatch(rs, r), self.selmatch(cs, c))
            if k.kind == 'T': return val(r, c)
            if k.kind == 'F': return m.get(r, c)
            return ite(k, val(r, c), m.get(r, c))
        return Mat(m.rows, m.cols, fn, m.kind)
    badcells = frozenset()
    def bad(self, st, v):
        """a place standing for an unknown or conditional reference: readable, not writable"""
        lv = self.new(st, v); self.badcells = self.badcells | {lv.cell}; return lv
    def wr(self, st, lv, v):
        if lv.cell in self.badcells: raise Give('write through an unknown reference')
        if not lv.path: st.store[lv.cell] = v; return
        old = st.store.get(lv.cell, UNDEF)
        st.store[lv.cell] = self.setp(st, old, lv.path, v)
    def setp(self, st, o, path, v):
        if not path: return v
        el = path[0]; k = el[0]
        if self.bounds and k in ('x', 's', 'l'): self.boundw(st, o, el)
        if isinstance(o, Top): return o
        if isinstance(o, VIte): return vite(o.c, self.setp(st, o.a, path, v), self.setp(st, o.b, path, v))
        if k == 'f':
            if isinstance(o, Undef): o = Obj('?', {})
            if isinstance(o, Obj): return o.set(el[1], self.setp(st, o.get(el[1]), path[1:], v))
            if isinstance(o, Tup):
                i = 0 if el[1] == 'first' else 1
                it = list(o.items); it[i] = self.setp(st, it[i], path[1:], v); return Tup(it)
            return Top('write to field of %r' % (o,))
        if k == 'x':
            if isinstance(o, Mat): return self.setp(st, o, (('l', ('p', el[1])),) + path[1:], v)
            if isinstance(o, Str):
                l = o.lit(); n = el[1].num() if isinstance(el[1], P) else None; c = v.lit() if isinstance(v, Str) else chr(int(v.num())) if isinstance(v, P) and v.num() is not None and 0 <= v.num() < 256 else None
                return Str(l[:int(n)] + c + l[int(n) + 1:]) if l is not None and n is not None and 0 <= n < len(l) and c is not None and len(c) == 1 else Str(('top', 'character written'))
            if not isinstance(o, Vec): return Top('indexed write to %r' % (o,))
            if o.filt: 
                l = self.filtlist(o)
                if l is None: return Top('write into filtered vector')
                o = listV(l, o.et)
            idx = el[1]
            nv = self.setp(st, self.velem(o, idx) if len(path) > 1 else UNDEF, path[1:], v)
            def fn(kk):
                c = simpC(ceqq(kk, idx), GLOBAL)
                if c.kind == 'T': return nv
                if c.kind == 'F': return o.get(kk)
                return vite(c, nv, self.velem(o, kk))
            return Vec(o.size, fn, o.et)
        if k == 'm':
            if not isinstance(o, MapV): return Top('keyed write to %r' % (o,))
            return o.set(el[1], self.setp(st, o.get(el[1]) if len(path) > 1 else UNDEF, path[1:], v))
        if k == 't':
            it = list(o.items); it[el[1]] = self.setp(st, it[el[1]], path[1:], v); return Tup(it)
        if k in ('s', 'l'):
            if isinstance(o, P): o = scalM(o)
            if not isinstance(o, Mat): return Top('matrix write to %r' % (o,))
            if len(path) > 1: raise Give('nested matrix path')
            return self.matset(o, el, v)
        raise Give('path')
    def boundw(self, st, o, el, ev='bw'):
        """records a write (read) with its position and the size of what it accesses"""
        if isinstance(o, Vec):
            if el[0] == 'x' and not o.filt: self.emit(ev, {'what': 'vector', 'idx': [(el[1], el[1] + 1, o.size)], 'kind': 'std'}, st, {'l': self.curl})
            return
        if not isinstance(o, Mat): return
        if el[0] != 'x': el = self.normel(o, el)
        if any(s[0] in ('u', 'v') for s in el[1:] if isinstance(s, tuple)):
            for j, s in enumerate(el[1:]):
                if s[0] == 'v':
                    for x in s[1]: self.boundw(st, o, (el[0],) + tuple(('p', x) if i == j else ('a',) if t[0] in 'uv' else t for i, t in enumerate(el[1:])), ev)
            return
        def rg(s, n): return (s[1], s[1] + 1, n) if s[0] == 'p' else (ZERO, n, n) if s[0] == 'a' else (s[1], s[2], n)
        if el[0] == 'x': ix = [(el[1], el[1] + 1, o.size())]
        elif el[0] == 'l': ix = [rg(el[1], o.size())]
        else: ix = [rg(el[1], o.rows), rg(el[2], o.cols)]
        self.emit(ev, {'what': 'matrix', 'idx': ix, 'kind': o.kind}, st, {'l': self.curl})
        if o.kind == 'sx' and self.exc and not st.pc:           # casadi checks every position
            for lo, hi, sz in ix:
                l, h, z = lo.num(), hi.num(), sz.num()
                if None not in (l, h, z) and h > l and (h > z or l < -z): self.cxxthrow(st, 'casadi::CasadiException')
    def velem(self, o, k):
        return o.get(k)
    def filtlist(self, o):
        if o.filt and all(s[0] == 'one' for s in o.filt.segs): return [s[1] for s in o.filt.segs]
        return None
    # ----- defaults -----
    def default(self, t):
        t0 = strip(t)
        if t0.startswith('std::optional') or t0.startswith('std::nullopt'): return Opq('nullopt')
        if isSX(t0) or isEig(t0):
            if isEig(t0):
                m = re.match(r'Eigen::Matrix<\w+, (-?\d+), (-?\d+)', t0)
                if m:
                    r, c = int(m.group(1)), int(m.group(2))
                    k = fresh('uninit')
                    if r > 0 and c > 0: return Mat(r, c, lambda a, b: topP('uninitialised matrix entry'), 'eig')
                    return Mat(max(r, 0), max(c, 0), lambda a, b: topP('uninitialised matrix entry'), 'eig')
            return zerosM(0, 0)
        if isVecT(t0):
            return Vec(0, lambda k: self.default(elemT(t0)), elemT(t0))
        if isMapT(t0): return MapV(lambda k: self.default(mapT(t0)))
        if isStrT(t0): return Str()
        if isIntT(t0) or isFltT(t0): return ZERO if t0 != 'bool' else FALSE
        if isYT(t0): return self.ynew()
        if t0.startswith(('std::pair<', 'std::tuple<')): return Tup([UNDEF, UNDEF])
        r = self.prog.record(t0)
        if r: return self.mkobj(r)
        return UNDEF
    def mkobj(self, r):
        d = {}
        for f in r['fields']:
            if isIntT(f['t']) or isFltT(f['t']): d[f['name']] = UNDEF
            else: d[f['name']] = self.default(f['t'])
            if f.get('init'):
                try: d[f['name']] = self.conv(self.ev(f['init'], State()), f['t'])
                except (KeyError, AttributeError, IndexError): pass
        return Obj(r['qn'], d)
    def ynew(self):
        self.nc += 1
        return Opq('Y', ('new', self.nc), ())
    # ----- expressions -----
    def conv(self, v, t):
        """implicit representation changes when storing into a declared type"""
        if isinstance(v, VIte): return vite(v.c, self.conv(v.a, t), self.conv(v.b, t))
        if isSX(t) or isEig(t):
            if isinstance(v, C): v = iv(v)
            if isinstance(v, P): return scalM(v, 'eig' if isEig(t) else 'sx')
            if isinstance(v, Vec) and not v.filt: return Mat(v.size, 1, lambda r, c: self.P(v.get(r)), 'sx')
        elif isMapT(t):
            l = v.tolist() if isinstance(v, Vec) and not v.filt else None
            if l is not None and all(isinstance(x, Tup) and len(x.items) == 2 for x in l):
                r = self.default(strip(t))
                for x in l: r = r.set(self.key(x.items[0]), self.conv(x.items[1], mapT(t)))
                return r
        elif isIntT(t) or isFltT(t):
            if isinstance(v, Mat) and v.isscalar(): return v.get(ZERO, ZERO)
            if strip(t) == 'bool':
                if isinstance(v, P): return cnot(ceqq(v, 0))
            elif isinstance(v, C): return iv(v)
        return v
    def P(self, v):
        if isinstance(v, P): return v
        if isinstance(v, C): return iv(v)
        if isinstance(v, Mat) and v.isscalar(): return v.get(ZERO, ZERO)
        if isinstance(v, VIte): return ite(v.c, self.P(v.a), self.P(v.b))
        if isinstance(v, Top): return topP(v.why)
        return topP('scalar from %s' % type(v).__name__)
    def Cn(self, v):
        if isinstance(v, C): return v
        if isinstance(v, P):
            n = v.num()
            if n is not None: return TRUE if n != 0 else FALSE
            return cnot(ceqq(v, 0))
        if isinstance(v, VIte): return cor(cand(v.c, self.Cn(v.a)), cand(cnot(v.c), self.Cn(v.b)))
        if isinstance(v, Mat) and v.isscalar(): return self.Cn(v.get(ZERO, ZERO))
        if isinstance(v, Opq): return cb('truth', repr_key(v))
        if isinstance(v, Top): return cb('top', next_id())
        return cb('top', next_id())
    def ev(self, e, st):
        if e is None: return UNDEF
        m = getattr(self, 'e_' + e['k'], None)
        if m is None: return Top('expression kind ' + e['k'])
        return m(e, st)
    def e_Int(self, e, st): return toP(int(e['v']))
    def e_Float(self, e, st): return num(e['v'])
    def e_Str(self, e, st): return Str(e['v'])
    def e_Char(self, e, st): return Str(chr(e['v']))
    def e_Bool(self, e, st): return TRUE if e['v'] else FALSE
    def e_Null(self, e, st): return ZERO
    def e_SizeOf(self, e, st): return toP(int(e['v'])) if e.get('v') else Top('sizeof')
    def e_This(self, e, st): return self.frame.this
    def e_StdInit(self, e, st): return self.ev(e['e'], st)
    def e_InitList(self, e, st):
        t = e.get('t', '')
        r = self.prog.record(strip(t))
        if r:
            o = self.mkobj(r); d = dict(o.fields)
            for f, it in zip(r['fields'], e['items']): d[f['name']] = self.ev(it, st)
            return Obj(r['qn'], d)
        items = [self.ev(x, st) for x in e['items']]
        if not t.rstrip().endswith(']') and (isIntT(t) or isFltT(t) or isSX(t)): return items[0] if items else self.default(t)
        return listV(items, e['items'][0].get('t') if e['items'] else None)
    def e_ZeroInit(self, e, st): return self.default(e.get('t'))
    def e_Lambda(self, e, st):
        caps = {}
        for c in e['caps']:
            if c.get('this'): continue
            if c.get('init'): caps[c['id']] = self.new(st, self.ev(c['init'], st))
            else:
                lv = self.frame.env.get(c['id'])
                if lv is None: continue
                caps[c['id']] = lv if c['ref'] else self.new(st, self.rd(st, lv))
        return Lam(e, caps, self.frame.this)
    def e_Throw(self, e, st):
        self.emit('throw', {'fn': self.callstack[-1]['qn'] if self.callstack else '?', 'rethrow': not e.get('e')}, st, e)
        if self.exc:
            x = e.get('e')
            if x is None and self.exstack: self.cxxthrow(st, self.exstack[-1].type, e)
            else: self.cxxthrow(st, strip(x.get('t', '?')) if x else '?', e)
        st.dead = True
        return UNDEF
    def e_New(self, e, st): return Top('new')
    def e_Unknown(self, e, st):
        for c in e.get('ch', []): self.ev(c, st)
        return Top('unknown expression ' + e.get('cls', ''))
    def e_Ref(self, e, st):
        if e.get('name') == 'npos' and not e.get('proj'): return toP(NPOS)
        if e.get('name') == 'nullopt' and not e.get('proj'): return Opq('nullopt')
        if 'cv' in e: return toP(int(e['cv'])) if strip(e.get('t', '')) != 'bool' else (TRUE if int(e['cv']) else FALSE)
        if 'cvf' in e: return num(e['cvf'])
        if e.get('fid') and e['id'] not in self.frame.env: return FnRef(e)
        lv = self.lv(e, st)
        if lv is None: return Top('name ' + e['name'])
        return self.rd(st, lv)
    def glob(self, e, st):
        g = self.prog.globals.get(e['qn'])
        if g is None: return None
        if e['qn'] not in self.globals:
            self.globals[e['qn']] = None
            self.globals[e['qn']] = self.new(st, self.ev(g.get('init'), st) if g.get('init') else self.default(g['t']))
        lv = self.globals[e['qn']]
        if lv is not None and lv.cell not in st.store: st.store[lv.cell] = self.ev(g.get('init'), st) if g.get('init') else self.default(g['t'])
        return lv
    def e_Member(self, e, st):
        if e.get('name') == 'npos': return toP(NPOS)
        if 'cv' in e: return toP(int(e['cv']))
        lv = self.lv(e, st)
        return self.rd(st, lv)
    def e_Cast(self, e, st):
        v = self.ev(e['e'], st)
        ck = e['ck']; t = strip(e['t'])
        if ck in ('IntegralToBoolean', 'FloatingToBoolean', 'PointerToBoolean', 'MemberPointerToBoolean'): return self.Cn(v)
        if ck == 'FloatingToIntegral':
            p = self.P(v)
            n = p.num()
            if n is not None: return toP(int(n))
            return toP(mkA('fn', 'trunc', p))
        if ck in ('IntegralCast', 'IntegralToFloating', 'FloatingCast'):
            if isinstance(v, C) and t != 'bool': return iv(v)
            if t == 'bool' and isinstance(v, P): return self.Cn(v)
            if ck == 'FloatingCast' and t == 'float': return narrow(v)
            return v
        if ck == 'ToVoid': return UNDEF
        return self.conv(v, t)
    def e_Cond(self, e, st):
        c = self.simpc(self.Cn(self.ev(e['c'], st)), st)
        if c.kind == 'T': return self.ev(e['a'], st)
        if c.kind == 'F': return self.ev(e['b'], st)
        s1 = st.copy(c); s2 = st.copy(cnot(c))
        a = self.ev(e['a'], s1); b = self.ev(e['b'], s2)
        base = st.pc
        m = merge(None if s1.dead else s1, None if s2.dead else s2)
        if m is None: st.dead = True; return UNDEF
        st.store = m.store
        if s1.dead or s2.dead: st.pc = m.pc; return b if s1.dead else a
        a = self.conv(a, e['t']); b = self.conv(b, e['t'])
        return vite(c, a, b)
    def simpc(self, c, st):
        if c.kind in ('T', 'F'): return c
        ctx = self.ctx(st)
        d = ctx.decide(c)
        if d is None:
            c2 = simp(c, ctx)
            if isinstance(c2, C): c = c2
            d = ctx.decide(c) if c.kind not in ('T', 'F') else None
        return TRUE if d is True else FALSE if d is False else c
    def streamed(self, v, t):
        """parts of the text a value is written as"""
        if isinstance(v, Str): return v.parts
        if isinstance(v, FnRef): return ('\n',) if v.node.get('name') == 'endl' else () if v.node.get('name') in ('flush', 'dec', 'fixed', 'boolalpha') else (('top', 'manipulator'),)
        t = strip(t).replace('const ', '').rstrip(' &')
        if isinstance(v, C): v = iv(v)
        if isinstance(v, P):
            if t == 'char': return (chr(int(v.num())),) if v.num() is not None else (('top', 'character'),)
            return (('num', v),) if isFltT(t) else (('int', v),) if isIntT(t) or t in ('bool', 'std::size_t', 'size_t', 'auto') else (('top', 'written ' + t),)
        return (('top', 'written ' + t),)
    def stepit(self, st, o, op):
        d = 1 if op == '++' else -1
        if isinstance(o, Iter): return Iter(o.lv, o.pos + d)
        if isinstance(o, YIt): return YIt(o.node, o.pos + d)
        m = self.rd(st, o.lv); ks = self.mapkeys(m) if isinstance(m, MapV) else None
        if ks is None or o.key is None or o.key.lit() not in ks or o.has.kind != 'T': return Top('map iterator')
        i = ks.index(o.key.lit()) + d
        return MIt(o.lv, Str(ks[i]), TRUE) if 0 <= i < len(ks) else MIt(o.lv) if i == len(ks) else Top('map iterator')
    def yentry(self, it): return Obj('yiter', {'first': Opq('Ykey', it.node, it.pos), 'second': Opq('Y', it.node.args[0], it.node.args[1] + (('it', it.pos),)), '': UNDEF})
    def e_Un(self, e, st):
        op = e['op']
        if op in ('++', '--'):
            lv = self.lv(e['e'], st)
            old = self.rd(st, lv)
            if isinstance(old, (Iter, MIt, YIt)): nv = self.stepit(st, old, op)
            elif isinstance(old, P): nv = old + (1 if op == '++' else -1)
            else: nv = Top('increment of %r' % (old,))
            self.wr(st, lv, nv)
            return old if e.get('post') else nv
        if op == '*':
            return self.rd(st, self.lv(e, st))
        if op == '&':
            lv = self.lv(e['e'], st)
            return lv
        v = self.ev(e['e'], st)
        if op == '-': return self.neg(v)
        if op == '+': return v
        if op == '!': return cnot(self.Cn(v))
        return Top('unary ' + op)
    def neg(self, v):
        if isinstance(v, Mat): return Mat(v.rows, v.cols, lambda r, c: -v.get(r, c), v.kind)
        if isinstance(v, VIte): return vite(v.c, self.neg(v.a), self.neg(v.b))
        if isinstance(v, Top): return v
        return -self.P(v)
    def e_Bin(self, e, st):
        op = e['op']
        if op == '=':
            return self.assign(e['a'], e['b'], st)
        if op == ',':
            self.ev(e['a'], st); return self.ev(e['b'], st)
        if op in ('&&', '||'):
            a = self.simpc(self.Cn(self.ev(e['a'], st)), st)
            if op == '&&' and a.kind == 'F': return FALSE
            if op == '||' and a.kind == 'T': return TRUE
            s2 = st.copy(a if op == '&&' else cnot(a))
            b = self.Cn(self.ev(e['b'], s2))
            if not s2.dead and any(s2.store.get(k) is not v for k, v in st.store.items()):
                s1 = st.copy(cnot(a) if op == '&&' else a)
                m = merge(s1, s2); st.store = m.store
            else:
                for k, v in s2.store.items():
                    if k not in st.store: st.store[k] = v
            return cand(a, b) if op == '&&' else cor(a, b)
        a = self.ev(e['a'], st); b = self.ev(e['b'], st)
        return self.binop(op, a, b, e, st)
    def isreal(self, e):
        return any(isFltT(x.get('t', '')) or isSX(x.get('t', '')) for x in (e.get('a') or {}, e.get('b') or {}) + tuple(e.get('args') or ()) if x)
    def cmp(self, op, a, b, real):
        if op == '==': return ceqq(a, b)
        if op == '!=': return cnot(ceqq(a, b))
        if not real or (a - b).isnum():
            n = (a - b).num()
            if n is not None: return TRUE if {'<': n < 0, '<=': n <= 0, '>': n > 0, '>=': n >= 0}[op] else FALSE
            return {'<': clt(a, b), '<=': cleq(a, b), '>': clt(b, a), '>=': cleq(b, a)}[op]
        if op in ('>', '>='): a, b = b, a; op = {'>': '<', '>=': '<='}[op]
        # |x| < tiny  is a test for zero
        nb = b.num()
        if nb is not None and 0 < nb < Fraction(1, 10**9) and len(a.d) == 1:
            (m, c), = a.d.items()
            if c == 1 and len(m) == 1 and m[0][0].kind == 'fn' and m[0][0].args[0] == 'abs': return ceq(m[0][0].args[1])
        na = a.num()
        if na is not None and 0 < na < Fraction(1, 10**9) and len(b.d) == 1:
            (m, c), = b.d.items()
            if c == 1 and len(m) == 1 and m[0][0].kind == 'fn' and m[0][0].args[0] == 'abs': return cnot(ceq(m[0][0].args[1]))
        return cb('rlt', a - b) if op == '<' else cnot(cb('rlt', b - a))
    def binop(self, op, a, b, e, st):
        if isinstance(a, VIte): return vite(a.c, self.binop(op, a.a, b, e, st), self.binop(op, a.b, b, e, st))
        if isinstance(b, VIte): return vite(b.c, self.binop(op, a, b.a, e, st), self.binop(op, a, b.b, e, st))
        if isinstance(a, Iter) or isinstance(b, Iter):
            if isinstance(a, Iter) and isinstance(b, Iter):
                if op == '-': return a.pos - b.pos
                return self.cmp(op, a.pos, b.pos, False)
            if isinstance(a, Iter) and op in '+-': return Iter(a.lv, a.pos + self.P(b) if op == '+' else a.pos - self.P(b))
            if isinstance(b, Iter) and op == '+': return Iter(b.lv, b.pos + self.P(a))
            return Top('iterator arithmetic')
        if isinstance(a, MIt) and isinstance(b, MIt) and op in ('==', '!='):
            return a.eq(b) if op == '==' else cnot(a.eq(b))
        if isinstance(a, YIt) and isinstance(b, YIt) and op in ('==', '!='): return self.cmp(op, a.pos, b.pos, False)
        if isinstance(a, Str) or isinstance(b, Str):
            if isinstance(a, Str) and isinstance(b, Str):
                if op == '+': return a + b
                if op == '==': return streq(a, b)
                if op == '!=': return cnot(streq(a, b))
            for x, y in ((a, b), (b, a)):
                # a character and its code
                if isinstance(x, Str) and isinstance(y, P) and y.num() is not None and op in ('==', '!='):
                    if x.lit() is not None and len(x.lit()) == 1: return TRUE if (ord(x.lit()) == y.num()) == (op == '==') else FALSE
                    return cb('top', next_id())
            if op in ('<', '>', '<=', '>=') and isinstance(a, Str) and isinstance(b, Str) and a.lit() is not None and b.lit() is not None:
                x, y = a.lit(), b.lit(); return TRUE if {'<': x < y, '>': x > y, '<=': x <= y, '>=': x >= y}[op] else FALSE
            if op == '+' and isinstance(a, Top): return Str(('top', a.why)) + b
            if op == '+' and isinstance(b, Top): return a + Str(('top', b.why))
            return Top('string operator ' + op)
        if isinstance(a, C) and isinstance(b, C) and op in ('==', '!=', '&', '|', '^'):
            if op == '&': return cand(a, b)
            if op == '|': return cor(a, b)
            eq = cor(cand(a, b), cand(cnot(a), cnot(b)))
            return eq if op == '==' else cnot(eq)
        if op in ('==', '!=', '<', '<=', '>', '>='):
            if isinstance(a, (MIt, YIt)) or isinstance(b, (MIt, YIt)): return cb('top', next_id())
            if isinstance(a, (LVal, Opq)) or isinstance(b, (LVal, Opq)): return cb('cmp', op, str(a), str(b))
            if isinstance(a, Top) or isinstance(b, Top): return cb('top', next_id())
            if isinstance(a, (Vec, Tup, Obj)) : return cb('top', next_id())
            return self.cmp(op, self.P(a), self.P(b), self.isreal(e))
        if isinstance(a, Top): return a
        if isinstance(b, Top): return b
        if isinstance(a, (Mat,)) or isinstance(b, (Mat,)): return self.matop(op, a, b)
        if isinstance(a, LVal) and op in '+-':
            return self.ptradd(a, self.P(b) if op == '+' else -self.P(b))
        a = self.P(a); b = self.P(b)
        if op == '+': return a + b
        if op == '-': return a - b
        if op == '*': return a * b
        if op == '/':
            if isIntT(e.get('t', '')): return pdiv(a, b)
            return a.div(b)
        if op == '%': return pmod(a, b)
        if op in ('<<', '>>', '&', '|', '^'):
            x, y = a.num(), b.num()
            if isinstance(x, int) and isinstance(y, int):
                return toP({'<<': lambda: x << y, '>>': lambda: x >> y, '&': lambda: x & y, '|': lambda: x | y, '^': lambda: x ^ y}[op]())
            if op == '&' and x == 1: a, x, b, y = b, y, a, x
            if op == '&' and isinstance(y, int) and y > 0 and (y & (y + 1)) == 0: return pmod(a, toP(y + 1))
            if op == '<<' and isinstance(y, int): return a * (1 << y)
            if op == '>>' and isinstance(y, int): return pdiv(a, toP(1 << y))
        return Top('operator ' + op)
    def ptradd(self, lv, k):
        if lv.path and lv.path[-1][0] == 'x': return LVal(lv.cell, lv.path[:-1] + (('x', lv.path[-1][1] + k),))
        return Top('pointer arithmetic')
    def matop(self, op, a, b):
        kind = a.kind if isinstance(a, Mat) else b.kind
        def mk(v):
            if isinstance(v, Mat): return v
            return scalM(self.P(v), kind)
        a0, b0 = isinstance(a, Mat), isinstance(b, Mat)
        a, b = mk(a), mk(b)
        if op == '*' and kind == 'eig' and a0 and b0: return mm(a, b)
        sa, sb = a.isscalar(), b.isscalar()
        if sa and not sb:
            rows, cols = b.rows, b.cols
            ga = lambda r, c: a.get(ZERO, ZERO); gb = b.get
        elif sb and not sa:
            rows, cols = a.rows, a.cols
            ga = a.get; gb = lambda r, c: b.get(ZERO, ZERO)
        else:
            rows, cols = a.rows, a.cols
            if rows.num() == 0 and b.rows.num() != 0: rows, cols = b.rows, b.cols
            ga, gb = a.get, b.get
        if op == '+': f = lambda r, c: ga(r, c) + gb(r, c)
        elif op == '-': f = lambda r, c: ga(r, c) - gb(r, c)
        elif op == '*': f = lambda r, c: ga(r, c) * gb(r, c)
        elif op == '/': f = lambda r, c: ga(r, c).div(gb(r, c))
        else: return Top('matrix operator ' + op)
        return Mat(rows, cols, f, kind)
    def assign(self, ea, eb, st, op=None):
        rv = self.ev(eb, st)
        if ea.get('k') == 'Call' and ea.get('fn') == 'std::tie':
            for i, x in enumerate(ea['args']):
                if (x.get('qn') or '').endswith('ignore'): continue
                v = rv.items[i] if isinstance(rv, Tup) and i < len(rv.items) else rv.get(('first', 'second')[i]) if isinstance(rv, Obj) and i < 2 else Top('tie')
                self.store(st, self.lv(x, st), self.conv(v, x.get('t', '')), x)
            return rv
        lv = self.lv(ea, st)
        if lv is None: return rv
        rv = self.conv(rv, ea.get('t', '')) if not lv.path or lv.path[-1][0] not in ('s', 'l') else rv
        self.store(st, lv, rv, ea)
        return rv
    def store(self, st, lv, v, e):
        h = self.hooks.get('store')
        if h and h(self, st, lv, v, e): return
        self.wr(st, lv, v)
    def e_CAssign(self, e, st):
        lv = self.lv(e['a'], st)
        b = self.ev(e['b'], st)
        v = self.binop(e['op'][:-1], self.rd(st, lv), b, {'t': e['a'].get('t'), 'a': e['a'], 'b': e['b']}, st)
        self.wr(st, lv, v)
        return v
    def e_Index(self, e, st): return self.rd(st, self.lv(e, st))
    # ----- lvalues -----
    def tmp(self, e, st): return self.new(st, self.ev(e, st))
    def lv(self, e, st):
        k = e['k']
        if k == 'LV': return e['lv']
        if k == 'Val': return self.new(st, e['v'])
        if k == 'Ref':
            lv = self.frame.env.get(e['id'])
            if lv is None:
                if e.get('glob') or e['qn'] in self.prog.globals: lv = self.glob(e, st)
                if lv is None and e.get('proj') is False:
                    return self.new(st, Opq('ext', e['qn']))
            return lv
        if k == 'Member':
            b = e['base']
            if e.get('dk') not in ('Field', None) and e.get('dk') != 'Var': pass
            if e.get('arrow'):
                v = self.ev(b, st)
                if isinstance(v, LVal): return LVal(v.cell, v.path + (('f', e['name']),))
                if isinstance(v, Iter): return LVal(v.lv.cell, v.lv.path + (('x', v.pos), ('f', e['name'])))
                if isinstance(v, MIt) and v.key is not None: return v.at() if e['name'] == 'second' else self.new(st, v.key)
                if isinstance(v, YIt): return self.new(st, self.yentry(v).get(e['name']))
                if b['k'] == 'This': return LVal(self.frame.this.cell, self.frame.this.path + (('f', e['name']),))
                return self.bad(st, Top('member of %r' % (v,)))
            if b['k'] == 'OpCall' and b['op'] == '*' and len(b['args']) == 1 and e['name'] in ('first', 'second'):
                v = self.ev(b['args'][0], st)
                if isinstance(v, MIt) and v.key is not None: return v.at() if e['name'] == 'second' else self.new(st, v.key)
                if isinstance(v, YIt): return self.new(st, self.yentry(v).get(e['name']))
            lb = self.lv(b, st)
            if lb is None: return self.bad(st, Top('member base'))
            return LVal(lb.cell, lb.path + (('f', e['name']),))
        if k == 'OpCall':
            op = e['op']; a = e['args']
            t0 = strip(a[0].get('t', '')) if a else ''
            if e.get('proj'): return self.callres(e, st)
            if op == '[]':
                if isYT(t0) or isinstance(self.peek(a[0], st), Opq):
                    return self.new(st, self.e_OpCall(e, st))
                lb = self.lv(a[0], st)
                i = self.ev(a[1], st)
                if isMapT(t0): return LVal(lb.cell, lb.path + (('m', self.key(i)),))
                if isinstance(self.rd(st, lb), Iter):
                    it = self.rd(st, lb); return LVal(it.lv.cell, it.lv.path + (('x', it.pos + self.P(i)),))
                if isEig(t0): return LVal(lb.cell, lb.path + (('l', ('p', self.P(i))),))
                return LVal(lb.cell, lb.path + (('x', self.P(i)),))
            if op == '()' and (isSX(t0) or isEig(t0)):
                lb = self.lv(a[0], st)
                sels = [self.sel(self.ev(x, st)) for x in a[1:] if not (x.get('k') == 'Bool')]
                if len(sels) == 1: return LVal(lb.cell, lb.path + (('l', sels[0]),))
                return LVal(lb.cell, lb.path + (('s', sels[0], sels[1]),))
            if op in ('=', '+=', '-=', '*=', '/='):
                self.e_OpCall(e, st); return self.lv(a[0], st)
            if op == '*' and len(a) == 1:
                v = self.ev(a[0], st)
                if isinstance(v, Iter): return LVal(v.lv.cell, v.lv.path + (('x', v.pos),))
                if isinstance(v, MIt) and v.key is not None: return self.new(st, Tup([v.key, self.rd(st, v.at())]))
                if isinstance(v, YIt): return self.new(st, self.yentry(v))
                if isinstance(v, LVal): return v
                if isinstance(v, (VIte, Top, Undef)): return self.bad(st, self.deref(v, st))
                return self.new(st, v)
            if op == '<<' or op == ',':
                self.ev(e, st); x = e
                while x['k'] == 'OpCall': x = x['args'][0]
                return self.lv(x, st)
            if op == '->':
                v = self.ev(a[0], st)
                if isinstance(v, LVal): return self.new(st, v)
        if k == 'MCall':
            t0 = strip(e['obj'].get('t', '')) if e.get('obj') else ''
            nm = e.get('name')
            if e.get('proj'): return self.callres(e, st)
            if nm in ('append', 'assign', 'insert', 'replace', 'erase') and t0.startswith('std::basic_string'):
                self.ev(e, st); x = e
                while x['k'] == 'MCall' and x.get('obj') and x.get('name') in ('append', 'assign', 'insert', 'replace', 'erase') and strip(x['obj'].get('t', '')).startswith('std::basic_string'): x = x['obj']
                return self.lv(x, st)
            if nm in ('back', 'front', 'at') and t0.startswith('std::basic_string') and not e.get('mconst'):
                lb = self.objlv(e, st); n = self.sizeof(self.rd(st, lb))
                return LVal(lb.cell, lb.path + (('x', n - 1 if nm == 'back' else ZERO if nm == 'front' else self.P(self.ev(e['args'][0], st))),))
            if nm == 'at' and isVecT(t0):
                lb = self.objlv(e, st); return LVal(lb.cell, lb.path + (('x', self.P(self.ev(e['args'][0], st))),))
            if nm == 'at' and isMapT(t0):
                lb = self.objlv(e, st); return LVal(lb.cell, lb.path + (('m', self.key(self.ev(e['args'][0], st))),))
            if nm in ('front', 'back') and isVecT(t0):
                lb = self.objlv(e, st); v = self.rd(st, lb)
                if isinstance(v, Vec): return LVal(lb.cell, lb.path + (('x', ZERO if nm == 'front' else v.size - 1),))
            if isEig(t0) and nm in ('segment', 'block', 'head', 'tail', 'row', 'col', 'topLeftCorner', 'leftCols', 'noalias', 'array', 'middleRows', 'coeffRef', 'derived'):
                lb = self.objlv(e, st); a = [self.P(self.ev(x, st)) for x in e['args']]
                ta = [int(x) for x in e.get('targs', []) if re.fullmatch(r'-?\d+', x)]
                v = self.rd(st, lb)
                if nm in ('noalias', 'array', 'derived'): return lb
                if nm == 'segment':
                    n = a[1] if len(a) > 1 else toP(int(self.etargs(e)[0]))
                    return LVal(lb.cell, lb.path + (('l', ('r', a[0], a[0] + n)),))
                if nm == 'head': return LVal(lb.cell, lb.path + (('l', ('r', ZERO, a[0])),))
                if nm == 'coeffRef' and len(a) == 1: return LVal(lb.cell, lb.path + (('l', ('p', a[0])),))
                if nm == 'row': return LVal(lb.cell, lb.path + (('s', ('p', a[0]), ('a',)),))
                if nm == 'col': return LVal(lb.cell, lb.path + (('s', ('a',), ('p', a[0])),))
                if nm == 'block' and len(a) == 4: return LVal(lb.cell, lb.path + (('s', ('r', a[0], a[0] + a[2]), ('r', a[1], a[1] + a[3])),))
                if nm == 'tail' and isinstance(v, Mat): return LVal(lb.cell, lb.path + (('l', ('r', v.size() - a[0], v.size())),))
            if nm == 'data':
                lb = self.objlv(e, st); return self.new(st, LVal(lb.cell, lb.path + (('x', ZERO),)))
        if k == 'Index':
            v = self.ev(e['a'], st)
            i = self.P(self.ev(e['i'], st))
            if isinstance(v, LVal):
                p = self.ptradd(v, i)
                if isinstance(p, LVal): return p
                return LVal(v.cell, v.path + (('x', i),))
            if isinstance(v, Vec):
                lb = self.lv(e['a'], st); return LVal(lb.cell, lb.path + (('x', i),))
            return self.bad(st, Top('array element'))
        if k == 'Un' and e['op'] == '*':
            v = self.ev(e['e'], st)
            if isinstance(v, LVal): return v
            if isinstance(v, Iter): return LVal(v.lv.cell, v.lv.path + (('x', v.pos),))
            return self.bad(st, self.deref(v, st))
        if k == 'Un' and e['op'] in ('++', '--') and not e.get('post'):
            self.ev(e, st); return self.lv(e['e'], st)
        if k in ('CAssign',) or (k == 'Bin' and e['op'] == '='):
            self.ev(e, st); return self.lv(e['a'], st)
        if k == 'Bin' and e['op'] == ',':
            self.ev(e['a'], st); return self.lv(e['b'], st)
        if k == 'Cast': return self.lv(e['e'], st) if e['ck'] in ('NoOp', 'LValueBitCast') else self.tmp(e, st)
        if k == 'Call':
            if e.get('fn', '').startswith('std::get') and e.get('targs'):
                lb = self.lv(e['args'][0], st)
                try: return LVal(lb.cell, lb.path + (('t', int(e['targs'][0])),))
                except ValueError: pass
            if e.get('fn') in ('std::move', 'std::forward', 'std::as_const'): return self.lv(e['args'][0], st)
            return self.callres(e, st)
        if k == 'Cond':
            c = self.simpc(self.Cn(self.ev(e['c'], st)), st)
            if c.kind == 'T': return self.lv(e['a'], st)
            if c.kind == 'F': return self.lv(e['b'], st)
            s1 = self.lv(e['a'], st); s2 = self.lv(e['b'], st)
            return self.bad(st, vite(c, self.rd(st, s1), self.rd(st, s2)))
        if k == 'MCall' and e.get('obj') and (isEig(strip(e['obj'].get('t', ''))) or isSX(strip(e['obj'].get('t', '')))) and not e.get('mconst'): return self.bad(st, self.ev(e, st))
        return self.tmp(e, st)
    def deref(self, v, st):
        if isinstance(v, VIte): return vite(v.c, self.deref(v.a, st), self.deref(v.b, st))
        if isinstance(v, Iter):
            o = self.rd(st, v.lv)
            if isinstance(o, Vec) and not o.filt and isinstance(o.size.num(), int) and isinstance(v.pos.num(), int) and not 0 <= v.pos.num() < o.size.num(): return Top('dereference past the end')
            return self.rd(st, LVal(v.lv.cell, v.lv.path + (('x', v.pos),)))
        if isinstance(v, LVal): return self.rd(st, v)
        return Top('dereference')
    def etargs(self, e):
        m = re.search(r'<(\d+)>', e.get('name', '') + str(e.get('targs', '')))
        return e.get('targs') or ['0']
    def peek(self, e, st):
        """value of a side-effect free base expression (used only to dispatch)"""
        try:
            if e['k'] == 'Ref':
                lv = self.frame.env.get(e['id'])
                return self.rd(st, lv) if lv is not None else None
        except Give: pass
        return None
    def callres(self, e, st):
        v = self.ev(e, st)
        if isinstance(v, LVal) and e.get('reft', True) and self.lastref: return v
        return self.new(st, v)
    lastref = False
    def objlv(self, e, st):
        o = e['obj']
        if e.get('arrow') and o['k'] != 'This':
            v = self.ev(o, st)
            if isinstance(v, LVal): return v
            if isinstance(v, Iter): return LVal(v.lv.cell, v.lv.path + (('x', v.pos),))
            return self.new(st, v)
        if o['k'] == 'This': return self.frame.this
        return self.lv(o, st)
    def key(self, v):
        if isinstance(v, Str): return v
        if isinstance(v, P): return Str(('int', v))
        return Str(('top', 'key %s' % type(v).__name__))
    def sel(self, v):
        if isinstance(v, Slice): return ('a',) if v.lo is None else ('r', v.lo, v.hi) if v.step is None else ('rs', v.lo, v.hi, v.step)
        if isinstance(v, Vec) or isinstance(v, Mat) and not v.isscalar():
            if isinstance(v, Vec): l = v.tolist()
            else: n = v.size().num(); l = [v.lin(toP(i)) for i in range(n)] if isinstance(n, int) else None
            if l is None or not all(isinstance(x, P) or isinstance(x, Mat) and x.isscalar() for x in l): return ('u', 'selection by %r' % (v,))
            return ('v', tuple(self.P(x) for x in l))
        if isinstance(v, (Top, VIte)): return ('u', 'selection by %r' % (v,))
        return ('p', self.P(v))
    # ----- calls -----
    def e_OpCall(self, e, st):
        op = e['op']; a = e['args']
        t0 = strip(a[0].get('t', ''))
        if e.get('proj') and not (op == '()' and 'lambda' in t0): return self.ucall(e, a, None, st)
        h = self.hooks.get('opcall')
        if h:
            r = h(self, e, st)
            if r is not NotImplemented: return r
        if op == '=':
            if isYT(t0):
                return self.yassign(e, st)
            return self.assign(a[0], a[1], st)
        if op in ('+=', '-=', '*=', '/='):
            lv = self.lv(a[0], st); b = self.ev(a[1], st)
            v = self.binop(op[0], self.rd(st, lv), b, {'t': t0, 'a': a[0], 'b': a[1]}, st)
            self.store(st, lv, v, a[0]); return v
        if op == '()':
            if t0.startswith(('(lambda', 'class (lambda')) or 'lambda' in t0:
                f = self.ev(a[0], st); return self.lamcall(f, a[1:], st, e.get('fid'))
            f = None
            if not (isSX(t0) or isEig(t0)):
                f = self.ev(a[0], st)
                if isinstance(f, Lam): return self.lamcall(f, a[1:], st, e.get('fid'))
                if isinstance(f, FnRef): return self.ucall(f.node, a[1:], None, st)
                for x in a[1:]: self.ev(x, st)
                return Top('call through ' + t0)
            return self.rd(st, self.lv(e, st))
        if op == '[]':
            if isYT(t0): return self.yindex(e, st)
            v = self.peek(a[0], st)
            if isinstance(v, Opq) and v.tag == 'Y': return self.yindex(e, st)
            return self.rd(st, self.lv(e, st))
        if op == '<<' or op == ',':
            if isEig(t0): return self.commainit(e, st)
            base = a[0]; items = [a[1]]
            while base['k'] == 'OpCall' and base['op'] == '<<' : items.insert(0, base['args'][1]); base = base['args'][0]
            vals = [self.ev(x, st) for x in items]
            lb = self.lv(base, st)
            self.emit('stream', {'lv': lb, 'vals': vals, 't': t0}, st, e)
            if lb is not None and isStrm(base.get('t', '')):
                o = self.rd(st, lb)
                if isinstance(o, Str):
                    self.wr(st, lb, Str(*(o.parts + tuple(p for v, x in zip(vals, items) for p in self.streamed(v, x.get('t', '')))))); return lb
            h = self.hooks.get('stream')
            if h: h(self, e, st, base, lb, items, vals)
            return lb if lb is not None else UNDEF
        if op == '*' and len(a) == 1 and t0.startswith('std::optional'):
            v = self.ev(a[0], st)
            return Top('empty optional') if isinstance(v, Opq) and v.tag == 'nullopt' else v
        if op == '*' and len(a) == 1:
            return self.rd(st, self.lv(e, st))
        if op == '->': return self.ev(a[0], st)
        if op in ('++', '--'):
            lv = self.lv(a[0], st); o = self.rd(st, lv)
            if isinstance(o, (Iter, MIt, YIt)): self.wr(st, lv, self.stepit(st, o, op))
            elif isinstance(o, VIte): self.wr(st, lv, self.binop('+' if op == '++' else '-', o, ONE, {'t': ''}, st))
            return o if len(a) == 2 else self.rd(st, lv)
        if len(a) == 1:
            v = self.ev(a[0], st)
            if op == '-': return self.neg(v)
            if op == '!': return cnot(self.Cn(v))
            if op == '+': return v
            return Top('operator ' + op)
        x = self.ev(a[0], st); y = self.ev(a[1], st)
        return self.binop(op, x, y, {'t': e.get('t'), 'a': a[0], 'b': a[1]}, st)
    def commainit(self, e, st):
        items = []
        x = e
        while x['k'] == 'Cast' or x['k'] == 'Paren': x = x['e']
        while x['k'] == 'OpCall' and x['op'] in ('<<', ',') and isEig(x['args'][0].get('t', '')):
            items.insert(0, x['args'][1]); x = x['args'][0]
        lv = self.lv(x, st) if x['k'] in ('Ref', 'Member', 'OpCall', 'MCall', 'Un', 'Index', 'This') else None
        m = self.rd(st, lv) if lv is not None else self.ev(x, st)
        vals = [self.ev(i, st) for i in items]
        def done(nm):
            if lv is not None: self.wr(st, lv, nm)
            return nm
        if not isinstance(m, Mat): return done(Top('comma initialiser'))
        ncol = m.cols; blk = [v for v in vals if isinstance(v, Mat) and not v.isscalar()]
        pos = ZERO; segs = []
        if blk and ncol.num() != 1 and m.rows.num() != 1:
            # blocks fill the matrix row of blocks by row of blocks
            R, Cc = m.rows.num(), ncol.num()
            if R is None or Cc is None: return done(Top('blocks of unknown size'))
            r0 = c0 = h = 0; put = []
            for v in vals:
                vr, vc = (v.rows.num(), v.cols.num()) if isinstance(v, Mat) and not v.isscalar() else (1, 1)
                if vr is None or vc is None: return done(Top('blocks of unknown size'))
                if c0 == Cc: r0 += h; c0 = h = 0
                if h == 0: h = vr
                if vr != h or c0 + vc > Cc or r0 + vr > R: return done(Top('blocks do not fit'))
                put.append((r0, c0, vr, vc, v)); c0 += vc; pos = pos + vr * vc
            cells = {(r + i, c + j): (v.get(toP(i), toP(j)) if isinstance(v, Mat) and not v.isscalar() else self.P(v)) for r, c, vr, vc, v in put for i in range(vr) for j in range(vc)}
            old = m
            def fn(r, c):
                i, j = r.num(), c.num()
                if i is not None and j is not None: return cells[(int(i), int(j))] if (int(i), int(j)) in cells else old.get(r, c)
                res = None
                for (i, j), v in cells.items(): res = v if res is None else ite(cand(ceqq(r, toP(i)), ceqq(c, toP(j))), v, res)
                return res
        else:
            for v in vals:
                if isinstance(v, Mat) and not v.isscalar():
                    segs.append((pos, v.size(), v)); pos = pos + v.size()
                else: segs.append((pos, ONE, self.P(v))); pos = pos + 1
            def fn(r, c):
                k = r if ncol.num() == 1 else r * ncol + c
                if ncol.num() != 1 and m.rows.num() == 1: k = c
                res = None
                for p, n, v in reversed(segs):
                    cnd = simpC(clt(k, p + n), GLOBAL)
                    if cnd.kind == 'F': continue
                    if simpC(clt(k, p), GLOBAL).kind == 'T': continue
                    val = v if isinstance(v, P) else v.lin(k - p)
                    if res is None or cnd.kind == 'T': res = val
                    else: res = ite(cnd, val, res)
                return res if res is not None else ZERO
        nm = Mat(m.rows, m.cols, fn, 'eig')
        done(nm)
        self.emit('comma', {'n': pos, 'size': m.size()}, st, e)
        return nm
    def e_Val(self, e, st): return e['v']
    def e_LV(self, e, st): return self.rd(st, e['lv'])
    def e_Call(self, e, st):
        fn = e.get('fn')
        h = self.hooks.get('call:' + (e.get('name') or ''))
        if h:
            r = h(self, e, st)
            if r is not NotImplemented: return r
        if fn is None:
            f = self.ev(e.get('ce'), st) if e.get('ce') else UNDEF
            if isinstance(f, Lam): return self.lamcall(f, e['args'], st)
            if isinstance(f, FnRef): return self.ucall(f.node, e['args'], None, st)
            for x in e['args']: self.ev(x, st)
            return Top('indirect call')
        if e.get('proj'): return self.ucall(e, e['args'], None, st)
        return self.lib(e, st)
    def e_MCall(self, e, st):
        h = self.hooks.get('method:' + (e.get('fn') or ''))
        if h:
            r = h(self, e, st)
            if r is not NotImplemented: return r
        if e.get('proj'):
            return self.ucall(e, e['args'], self.objlv(e, st) if not e.get('mstatic') else None, st)
        return self.libm(e, st)
    def lamcall(self, f, args, st, fid=None):
        if isinstance(f, LVal): f = self.rd(st, f)
        if not isinstance(f, Lam): return Top('call of unknown callable')
        fr = Frame(dict(f.caps), f.this, None); n = f.node
        if n.get('alts'):
            n = next((a for a in n['alts'] if a['id'] == fid), None)
            if n is None: raise Give('generic lambda with several instantiations')
        self.bind(fr, n['params'], args, [], st)
        return self.run(fr, n['body'], st, {'qn': 'lambda', 'file': self.curfile(), 'ret': ''})
    def bind(self, fr, params, args, defs, st):
        vals = []
        for i, p in enumerate(params):
            a = args[i] if i < len(args) else None
            if a is None:
                d = (defs[i] if i < len(defs) else None) or p.get('init')
                v = self.new(st, self.ev(d, st) if d else UNDEF)
            elif p['ref'] and not isinstance(a, dict): v = a if isinstance(a, LVal) else self.new(st, a)
            elif not isinstance(a, dict): v = self.new(st, a)
            elif p['ref']:
                v = self.lv(a, st)
                if v is None: v = self.new(st, UNDEF)
                cur = self.rd(st, v) if not v.path else None
                if not v.path and isinstance(cur, P) and isSX(p['t']): v = self.new(st, scalM(cur))
            else:
                v = self.new(st, self.conv(self.ev(a, st), p['t']))
            vals.append((p['id'], v))
        for i, v in vals: fr.env[i] = v
    def ucall(self, e, args, this, st):
        f = self.prog.func(e)
        if (f is None or not f.get('body')) and e.get('k') == 'OpCall' and e.get('op') == '=' and len(args) == 2:
            return self.assign(args[0], args[1], st)        # defaulted assignment
        if f is None:
            for x in args:
                if isinstance(x, dict): self.ev(x, st)
            for x, t in zip(args, e.get('pt') or []):
                if isinstance(x, dict) and t.endswith('&') and 'const' not in t:
                    try: self.store(st, self.lv(x, st), Top('passed to ' + str(e.get('fn'))), x)
                    except Give: pass
            r = Top('no body for ' + str(e.get('fn')))
            return r
        if e.get('k') == 'OpCall' and f.get('cls') and not f.get('static'):
            this = self.lv(args[0], st); args = args[1:]
        return self.call(f, args, this, st)
    def call(self, f, args, this, st):
        if self.depth > 60: raise Give('call depth')
        if any(c is f for c in self.callstack): 
            if sum(1 for c in self.callstack if c is f) > 2:
                raise Give('recursive call of ' + f['qn'])
        h = self.hooks.get('fn:' + f['qn'])
        if h:
            r = h(self, f, args, this, st)
            if r is not NotImplemented: return r
        self.fns.add((f['file'], f['qn'], f['l'])); self.calls += 1
        fr = Frame({}, this, f)
        self.bind(fr, f['params'], args, f.get('defs', []), st)
        return self.run(fr, f['body'], st, f)
    def run(self, fr, body, st, f):
        old = getattr(self, 'frame', None)
        oldret = st.ret
        self.frame = fr; self.depth += 1; self.callstack.append(f)
        st.ret = UNDEF
        try:
            if f.get('ctor'):
                self.ctorinit(fr, f, st)
            o = self.ex(body, st)
            m = merge(o.get('return'), o.get('next'))
        finally:
            self.frame = old; self.depth -= 1; self.callstack.pop()
        if m is None:
            st.dead = True; st.ret = oldret; return UNDEF
        r = m.ret
        st.store = m.store; st.pc = m.pc; st.ret = oldret
        self.lastref = (f.get('ret') or '').endswith('&')
        if not self.lastref and isinstance(r, LVal) and not (f.get('ret') or '').endswith('*') and f.get('ret'): r = self.rd(st, r)
        if f.get('ret'): r = self.conv(r, f['ret']) if not self.lastref else r
        return r
    def ctorinit(self, fr, f, st):
        cls = self.prog.record(f['cls'])
        done = {}
        for i in f.get('inits', []):
            if i['m'] is None: continue
            done[i['m']] = i['e']
        for fl in cls['fields'] if cls else []:
            e = done.get(fl['name']) or fl.get('init')
            lv = LVal(fr.this.cell, fr.this.path + (('f', fl['name']),))
            if e is not None and not (e.get('k') == 'Construct' and not e['args'] and False):
                v = self.conv(self.ev(e, st), fl['t'])
                self.wr(st, lv, v)
    def construct(self, rec, e, args, st):
        this = self.new(st, self.mkobj(rec))
        f = self.prog.ctor(rec['qn'], e)
        if f is not None:
            self.call(f, args, this, st)
        else:
            for fl in rec['fields']:
                if fl.get('init'): self.wr(st, LVal(this.cell, (('f', fl['name']),)), self.conv(self.ev(fl['init'], st), fl['t']))
        return self.rd(st, this)
    def strrange(self, vals, real, st):
        """the string made of a range, a repeated character or part of another string"""
        v = vals[0]; ns = [int(x.num()) if isinstance(x, P) and x.num() is not None and x.num().denominator == 1 else None for x in vals]
        if isinstance(v, Iter) and isinstance(vals[1], Iter):
            o = self.rd(st, v.lv); a, b = v.pos.num(), vals[1].pos.num()
            if not isinstance(o, Str): return None
            if v.pos.iszero() and kof(vals[1].pos) == kof(self.sizeof(o)): return o
            return Str(o.lit()[int(a):int(b)]) if o.lit() is not None and a is not None and b is not None and 0 <= a <= b <= len(o.lit()) else None
        c = vals[1].lit() if isinstance(vals[1], Str) else chr(ns[1]) if ns[1] is not None and 0 <= ns[1] < 256 else None
        if isinstance(v, P): return Str(c * ns[0]) if ns[0] is not None and 0 <= ns[0] < 10000 and c is not None and len(c) == 1 else None
        l = v.lit() if isinstance(v, Str) else None
        if l is None or None in ns[1:]: return None
        if len(vals) == 2: return Str(l[:ns[1]]) if 'char' in strip(real[0].get('t', ''))[:12] and 'basic_string' not in real[0].get('t', '') else Str(l[ns[1]:])
        if len(vals) == 3 and 0 <= ns[1] <= len(l): return Str(l[ns[1]:] if ns[2] < 0 else l[ns[1]:ns[1] + ns[2]])
        return None
    def e_Construct(self, e, st):
        cls = e['cls']; args = e['args']; t = strip(e.get('t', ''))
        if e.get('copy') and args: return self.conv(self.ev(args[0], st), t)
        r = self.prog.record(cls)
        if r and e.get('proj') is not None and self.prog.record(cls):
            if not args and self.prog.ctor(cls, e) is None: 
                return self.construct(r, e, args, st)
            return self.construct(r, e, args, st)
        n = len([a for a in args if not a.get('defarg')])
        if cls.startswith('std::optional'): return self.ev(args[0], st) if n == 1 else Opq('nullopt') if n == 0 else Top('optional')
        if cls.startswith('std::nullopt'): return Opq('nullopt')
        if cls.startswith('casadi::Matrix'):
            if n == 0: return zerosM(0, 0)
            if n == 2: return zerosM(self.P(self.ev(args[0], st)), self.P(self.ev(args[1], st)))
            v = self.ev(args[0], st)
            return self.conv(v, 'casadi::Matrix<')
        if cls == 'casadi::SXElem' or cls.startswith('casadi::SXElem'): return self.ev(args[0], st) if args else ZERO
        if cls == 'casadi::Slice':
            v = [self.P(self.ev(a, st)) for a in args]
            if not v: return Slice(None, None)
            if len(v) == 1: return Slice(v[0], v[0] + 1) if v[0].num() != -1 else Slice(v[0], None)
            if len(v) == 3 and v[2].num() != 1: return Slice(v[0], v[1], v[2])
            return Slice(v[0], v[1])
        if cls.startswith('Eigen::Matrix'):
            m = re.match(r'Eigen::Matrix<(\w+), (-?\d+), (-?\d+)', t)
            R, Cc = (int(m.group(2)), int(m.group(3))) if m else (-1, -1)
            vals = [self.ev(a, st) for a in args]
            if not vals: return self.default(t)
            if len(vals) == 1:
                v = vals[0]
                if isinstance(v, Mat): return v
                if isinstance(v, Vec): return Mat(v.size, 1, lambda r, c: self.P(v.get(r)), 'eig')
                if isinstance(v, Top): return v
                if R == -1 or Cc == -1: return Mat(self.P(v) if R == -1 else R, self.P(v) if Cc == -1 else Cc, lambda a, b: topP('uninitialised matrix entry'), 'eig')
                return scalM(self.P(v), 'eig')
            if R > 0 and Cc > 0 and len(vals) == R * Cc: return constM([[self.P(vals[i * Cc + j]) for j in range(Cc)] for i in range(R)], 'eig')
            if R > 0 and Cc > 0: return Mat(R, Cc, lambda a, b: topP('uninitialised matrix entry'), 'eig')
            if len(vals) == 2: return Mat(self.P(vals[0]), self.P(vals[1]), lambda a, b: topP('uninitialised matrix entry'), 'eig')
            return Top('Eigen constructor')
        if cls.startswith('std::vector') or cls.startswith('std::initializer_list'):
            et = elemT(t)
            real = [a for a in args if not a.get('defarg')]
            if not real: return self.default(t)
            v = self.ev(real[0], st)
            pt = (e.get('pt') or [''])[0]
            if 'initializer_list' in pt:
                if isinstance(v, Vec):
                    l = v.tolist()
                    if l is not None: return listV([self.conv(x, et) for x in l], et)
                return v
            if isinstance(v, Vec): return v
            if len(real) == 1 and isinstance(v, P): return Vec(v, lambda k: self.default(et), et)
            w = self.ev(real[1], st) if len(real) > 1 else UNDEF
            if len(real) == 2 and isinstance(v, P) and not isinstance(w, (Iter, LVal)):
                return Vec(v, lambda k: w, et)
            return self.rangecopy(v, w, st, et)
        if cls.startswith('std::basic_string'):
            real = [a for a in args if not a.get('defarg')]
            if not real: return Str()
            vals = [self.ev(x, st) for x in real]; v = vals[0]
            if len(real) == 1: return v if isinstance(v, (Str, VIte)) else Str(('top', 'string'))
            r = self.strrange(vals, real, st)
            return Str(('top', 'string')) if r is None else r
        if cls.startswith(('std::map', 'std::unordered_map')):
            real = [a for a in args if not a.get('defarg')]
            if real:
                v = self.ev(real[0], st)
                if isinstance(v, MapV): return v
                if isinstance(v, Vec):
                    m = self.default(t)
                    for it in v.tolist() or []:
                        if isinstance(it, Tup): m = m.set(self.key(it.items[0]), it.items[1])
                    return m
            return self.default(t)
        if cls.startswith('std::pair') or cls.startswith('std::tuple'):
            vals = [self.ev(a, st) for a in args if not a.get('defarg')]
            if len(vals) == 1 and isinstance(vals[0], Tup): return vals[0]
            return Tup(vals) if vals else Tup([UNDEF, UNDEF])
        if isYT(cls):
            vals = [self.ev(a, st) for a in args if not a.get('defarg')]
            if not vals: return self.ynew()
            if isinstance(vals[0], Opq): return vals[0]
            n = self.ynew(); self.emit('yset', {'node': n, 'val': vals[0]}, st, e); return n
        if cls.startswith(('__gnu_cxx', 'YAML::detail::iterator', 'std::_Rb_tree')) and args: return self.ev(args[0], st)
        if cls.startswith('std::function') and args: return self.ev(args[0], st)
        vals = [self.ev(a, st) for a in args if not a.get('defarg')]
        h = self.hooks.get('construct')
        if h:
            r = h(self, e, st, vals)
            if r is not NotImplemented: return r
        if isStrm(cls) and not isinstance(vals[0] if vals else None, Top):
            # the text written so far; a text given first is overwritten unless the stream appends
            return Str() if not vals or not isinstance(vals[0], Str) else vals[0] if len(vals) > 1 or not vals[0].parts else Str(('top', 'text of a stream'))
        if cls.startswith(('std::basic_ofstream', 'std::basic_ifstream', 'std::basic_fstream', 'std::basic_stringstream', 'std::basic_ostringstream')):
            self.nc += 1
            o = Opq('stream', cls, self.nc, *vals[:1])
            self.emit('open', {'cls': cls, 'path': vals[0] if vals else None, 'obj': self.nc}, st, e)
            return o
        if isIntT(t) or isFltT(t): return vals[0] if vals else ZERO
        return Opq('obj', cls, *[v for v in vals if isinstance(v, (Str, P, Opq))])
    def rangecopy(self, a, b, st, et):
        nw = narrow if et and strip(et) == 'float' else (lambda x: x)
        if isinstance(a, Iter) and isinstance(b, Iter):
            src = self.rd(st, a.lv); n = b.pos - a.pos
            if isinstance(src, Vec) and not src.filt: return Vec(n, lambda k: nw(src.get(a.pos + k)), et or src.et)
            if isinstance(src, Mat): return Vec(n, lambda k: nw(src.lin(a.pos + k)), et)
        if isinstance(a, LVal) and isinstance(b, LVal) and a.path and b.path and a.path[-1][0] == 'x' and b.path[-1][0] == 'x':
            src = self.rd(st, LVal(a.cell, a.path[:-1])); n = b.path[-1][1] - a.path[-1][1]; o = a.path[-1][1]
            if isinstance(src, Mat): return Vec(n, lambda k: nw(src.lin(o + k)), et)
            if isinstance(src, Vec) and not src.filt: return Vec(n, lambda k: nw(src.get(o + k)), et)
        return Top('range copy')
    # yaml stubs (overridable)
    def yindex(self, e, st):
        v = self.ev(e['args'][0], st); k = self.ev(e['args'][1], st)
        if isinstance(v, Opq) and v.tag == 'Y':
            return Opq('Y', v.args[0], v.args[1] + ((self.key(k)),))
        if isinstance(v, VIte): 
            return Opq('Y', ('cond',), (self.key(k),))
        return Opq('Y', ('?', next_id()), (self.key(k),))
    def yassign(self, e, st):
        """node assignment: path of the target plus value; local handle variables are rebound"""
        a = e['args']
        v = self.ev(a[1], st)
        t = a[0]
        if t['k'] in ('Ref', 'Member'):
            lv = self.lv(t, st)
            cur = self.rd(st, lv)
            if isinstance(v, Opq) and v.tag == 'Y':
                self.wr(st, lv, v)
                self.emit('yrebind', {'val': v, 'node': cur}, st, e)
                return v
            node = cur
        else: node = self.ev(t, st)
        self.emit('yset', {'node': node, 'val': v}, st, e)
        return v
    # ----- statements -----
    def ex(self, s, st):
        if s is None: return {'next': st}
        if 'l' in s: self.curl = s['l']
        m = getattr(self, 's_' + s['k'], None)
        if m is None: raise Give('statement ' + s['k'])
        return m(s, st)
    def fin(self, st): return {} if st.dead else {'next': st}
    def s_Expr(self, s, st):
        self.ev(s['e'], st); return self.fin(st)
    def s_Nop(self, s, st): return {'next': st}
    def s_Block(self, s, st):
        acc = {}
        for x in s['b']:
            o = self.ex(x, st)
            for k in ('break', 'continue', 'return'):
                if o.get(k): acc[k] = merge(acc.get(k), o[k])
            st = o.get('next')
            if st is None: break
        acc['next'] = st
        return acc
    def decl(self, v, st):
        if v.get('bindings') is not None:
            src = self.lv(v['init'], st) if v['ref'] else self.tmp(v['init'], st)
            for i, b in enumerate(v['bindings']):
                cur = self.rd(st, src)
                if isinstance(cur, Tup): self.frame.env[b['id']] = LVal(src.cell, src.path + (('t', i),))
                elif isinstance(cur, Obj):
                    r = self.prog.record(cur.cls)
                    nm = r['fields'][i]['name'] if r else ('first', 'second')[i]
                    self.frame.env[b['id']] = LVal(src.cell, src.path + (('f', nm),))
                else: self.frame.env[b['id']] = self.new(st, Top('binding'))
            return
        if v['ref'] and v.get('init'):
            lv = self.lv(v['init'], st)
            if lv is None: lv = self.new(st, UNDEF)
            self.frame.env[v['id']] = lv
            return
        if v.get('init') is not None:
            x = self.conv(self.ev(v['init'], st), v['t'])
            if isinstance(x, Undef): x = self.default(v['t']) if not (isIntT(v['t']) or isFltT(v['t'])) else UNDEF
            if isEig(v['t']) and isinstance(x, Vec): x = Mat(x.size, 1, lambda r, c, x=x: self.P(x.get(r)), 'eig')
        else:
            x = UNDEF if (isIntT(v['t']) or isFltT(v['t'])) else self.default(v['t'])
        self.frame.env[v['id']] = self.new(st, x)
    def s_Decl(self, s, st):
        for v in s['vars']:
            self.decl(v, st)
            if st.dead: return {}
        return {'next': st}
    def s_If(self, s, st):
        if s.get('init'): 
            o = self.ex(s['init'], st); st = o['next']
        if s.get('var'): self.decl(s['var'], st)
        c = self.simpc(self.Cn(self.ev(s['c'], st)), st)
        if st.dead: return {}
        if c.kind == 'T': return self.ex(s['a'], st)
        if c.kind == 'F': return self.ex(s.get('b'), st)
        h = self.hooks.get('if')
        if h:
            r = h(self, s, c, st)
            if r is not NotImplemented: return r
        s1 = st.copy(c); s2 = st.copy(cnot(c))
        if self.ctx(s1).infeasible(): return self.ex(s.get('b'), st)
        if self.ctx(s2).infeasible(): return self.ex(s['a'], st)
        o1 = self.ex(s['a'], s1); o2 = self.ex(s.get('b'), s2)
        out = {}
        for k in ('next', 'break', 'continue', 'return'):
            m = merge(o1.get(k), o2.get(k))
            if m is not None: out[k] = m
        return out
    def s_Return(self, s, st):
        f = self.callstack[-1] if self.callstack else {}
        if s.get('e'):
            if (f.get('ret') or '').endswith('&'):
                v = self.lv(s['e'], st)
            else: v = self.ev(s['e'], st)
            if st.dead: return {}
            if f.get('ret') and not f['ret'].endswith('&'): v = self.conv(v, f['ret'])
            st.ret = v
        self.onreturn(s, st)
        return {'return': st}
    def onreturn(self, s, st):
        h = self.hooks.get('return')
        if h: h(self, s, st)
    def s_Break(self, s, st): return {'break': st}
    def s_Continue(self, s, st): return {'continue': st}
    def s_Try(self, s, st):
        h = self.hooks.get('try')
        if h:
            r = h(self, s, st)
            if r is not NotImplemented: return r
        if not self.exc: return self.ex(s['body'], st)
        saved = (self.frame, self.depth, list(self.callstack), list(self.loops))
        self.tries += 1
        try: return self.ex(s['body'], st)
        except CxxThrow as x:
            self.frame, self.depth = saved[0], saved[1]; self.callstack[:] = saved[2]; self.loops[:] = saved[3]
            for h in s['h']:
                if caughtby(x.type, h['t']):
                    st2 = x.st; st2.dead = False
                    if h.get('var'): self.frame.env[h['var']['id']] = self.new(st2, Opq('exception', x.type))
                    self.emit('caught', {'type': x.type, 'by': h['t'], 'fn': self.callstack[-1]['qn'] if self.callstack else '?'}, st2, h)
                    self.exstack.append(x)
                    try: return self.ex(h['body'], st2)
                    finally: self.exstack.pop()
            raise
        finally: self.tries -= 1
    def cxxthrow(self, st, ty, e=None):
        """an exception of class ty leaves the current expression"""
        if self.exc and len(st.pc) <= self.exc_pc: raise CxxThrow(ty, st)
        st.dead = True
    def s_Switch(self, s, st):
        v = strsplit(self.ev(s['c'], st))
        body = s['body']['b'] if s['body']['k'] == 'Block' else [s['body']]
        flat = []; labels = []
        for x in body:
            while x['k'] in ('Case', 'Default'):
                labels.append((len(flat), None if x['k'] == 'Default' else x['v'])); x = x['sub']
                if x is None: break
            if x is not None: flat.append(x)
        out = {}; rest = TRUE; default = None
        conds = []
        for pos, lab in labels:
            if lab is None: default = pos; continue
            lvv = self.ev(lab, st)
            c = self.Cn(self.binop('==', v, lvv, {'t': 'bool'}, st)) if isinstance(v, (Str, VIte)) else ceqq(self.P(v), self.P(lvv))
            conds.append((cand(rest, c), pos)); rest = cand(rest, cnot(c))
        conds.append((rest, default))
        for c, pos in conds:
            c = self.simpc(c, st)
            if c.kind == 'F': continue
            s1 = st.copy(c)
            o = self.s_Block({'b': flat[pos:]}, s1) if pos is not None else {'next': s1}
            o['next'] = merge(o.get('next'), o.pop('break', None))
            for k in ('next', 'continue', 'return'):
                if o.get(k) is not None: out[k] = merge(out.get(k), o[k])
        return out
    # ----- loops -----
    def s_Seq(self, s, st):
        """the body of a loop followed by its increment, which `continue` reaches too"""
        o = self.ex(s['a'], st); n = merge(o.get('next'), o.pop('continue', None)); o['next'] = None
        if n is None: return o
        for x in s['b']:
            self.ev(x, n)
        o['next'] = n
        return o
    itercap = 60
    def unrolled(self, s, st, cond, body, inc=None, test=True):
        """iteration by iteration; an undecided condition is followed on both sides"""
        out = {}; und = 0; n = 0; cur = st; leave = None
        while cur is not None:
            if test and cond is not None:
                c = self.simpc(self.Cn(self.ev(cond, cur)), cur)
                if c.kind == 'F': break
                if c.kind != 'T':
                    und += 1
                    if und > 10: raise Give('loop condition undecided')
                    leave = merge(leave, cur.copy(cnot(c))); cur = cur.copy(c)
            test = True; n += 1
            if n > self.itercap: raise Give('loop does not end within %d iterations' % self.itercap)
            o = self.ex(body, cur)
            if o.get('return') is not None: out['return'] = merge(out.get('return'), o['return'])
            leave = merge(leave, o.get('break'))
            cur = merge(o.get('next'), o.get('continue'))
            if cur is not None and inc is not None: self.ev(inc, cur)
        out['next'] = merge(cur, leave)
        return out
    def s_Do(self, s, st):
        return self.unrolled(s, st, s.get('c'), s['body'], test=False)
    def s_While(self, s, st):
        if s['body']['k'] == 'Block' and s['body']['b']:
            last = s['body']['b'][-1]
            if last['k'] == 'Expr' and self.incof(last['e']) and not hascont(s['body']):
                return self.s_For({'k': 'For', 'l': s.get('l'), 'init': None, 'c': s['c'], 'inc': last['e'], 'body': {'k': 'Block', 'b': s['body']['b'][:-1]}}, st)
        h = self.hooks.get('while')
        if h:
            r = h(self, s, st)
            if r is not NotImplemented: return r
        if s.get('var'): self.decl(s['var'], st)
        return self.unrolled(s, st, s['c'], s['body'])
    def incof(self, e):
        """(variable ref, step expr or int) of a counter update"""
        if e is None: return None
        if e['k'] == 'Un' and e['op'] in ('++', '--') and e['e']['k'] == 'Ref': return e['e'], (1 if e['op'] == '++' else -1)
        if e['k'] == 'CAssign' and e['op'] in ('+=', '-=') and e['a']['k'] == 'Ref':
            b = e['b']
            while b['k'] == 'Cast': b = b['e']
            if b['k'] == 'Int' or 'cv' in b:
                n = int(b.get('v', b.get('cv')))
                return e['a'], (n if e['op'] == '+=' else -n)
        if e['k'] == 'Bin' and e['op'] == '=' and e['a']['k'] == 'Ref':
            b = e['b']
            if b['k'] == 'Bin' and b['op'] in '+-' and b['a'].get('id') == e['a']['id'] and b['b']['k'] == 'Int': return e['a'], int(b['b']['v']) * (1 if b['op'] == '+' else -1)
            if b['k'] == 'Bin' and b['op'] == '+' and b['b'].get('id') == e['a']['id'] and b['a']['k'] == 'Int': return e['a'], int(b['a']['v'])
        return None
    def s_For(self, s, st):
        outer = st
        if s.get('init'):
            o = self.ex(s['init'], st); st = o['next']
        inc = s.get('inc'); extra = []
        parts = []
        def flat(x):
            if x and x['k'] == 'Bin' and x['op'] == ',': flat(x['a']); flat(x['b'])
            elif x: parts.append(x)
        flat(inc)
        cond = s.get('c')
        body = s['body']
        cs = cond
        while cs and cs['k'] == 'Cast': cs = cs['e']
        ctr = None
        if cs and cs['k'] == 'Bin' and cs['op'] in ('<', '<=', '>', '>=', '!='):
            def core(x):
                while x['k'] == 'Cast': x = x['e']
                return x
            for side in ('a', 'b'):
                r = core(cs[side])
                for p in parts:
                    i = self.incof(p)
                    if i and r['k'] == 'Ref' and r['id'] == i[0]['id']: ctr = (i[0], i[1], side)
        if ctr is None:
            # counter increment at the end of the body
            if not parts and body['k'] == 'Block' and body['b'] and body['b'][-1]['k'] == 'Expr' and self.incof(body['b'][-1]['e']):
                return self.s_For(dict(s, inc=body['b'][-1]['e'], init=None, body=dict(body, b=body['b'][:-1])), st)
            r = self.iterloop(s, st)
            if r is not NotImplemented: return r
            return self.unrolled(s, st, s.get('c'), s['body'], s.get('inc'))
        ref, step, side = ctr
        op = cs['op']
        bnd = cs['b'] if side == 'a' else cs['a']
        if side == 'b': op = {'<': '>', '<=': '>=', '>': '<', '>=': '<=', '!=': '!='}[op]
        clv = self.lv(ref, st)
        lo = self.rd(st, clv)
        if not isinstance(lo, P): raise Give('loop counter is not numeric')
        hi = self.P(self.ev(bnd, st))
        rest = [p for p in parts if not (self.incof(p) and self.incof(p)[0]['id'] == ref['id'])]
        if rest: body = {'k': 'Seq', 'a': body, 'b': rest}
        if step > 0:
            n = hi - lo
            if op == '<=': n = n + 1
            elif op not in ('<', '!='): raise Give('loop direction')
        else:
            n = lo - hi
            if op == '>=': n = n + 1
            elif op not in ('>', '!='): raise Give('loop direction')
        if abs(step) != 1: n = pdiv(n + (abs(step) - 1), toP(abs(step)))
        nn = simp(n, self.ctx(st)).num()
        if nn is None or nn > 130 or nn <= 0: return self.counted(s, st, n, body, clv, lo, step, bnd)
        # fixed number of iterations, unless the body changes the counter or the bound
        back = st.copy(); nev = len(self.events)
        try: return self.counted(s, st, n, body, clv, lo, step, (bnd, hi))
        except Changed:
            del self.events[nev:]
            return self.unrolled(s, back, cond, s['body'], inc)
    def iterloop(self, s, st):
        return NotImplemented
    def s_RFor(self, s, st):
        rng = self.ev(s['range'], st)
        rlv = self.lv(s['range'], st) if s['range']['k'] in ('Ref', 'Member', 'OpCall') else self.new(st, rng)
        if isinstance(rng, Opq) and rng.tag == 'Y':
            ln = self.ylen(rng)
            def setv(st, k):
                kk = k
                return Obj('yiter', {'first': Opq('Ykey', rng, kk), 'second': Opq('Y', rng.args[0], rng.args[1] + (('it', kk),)), '': UNDEF})
            return self.counted(s, st, ln, s['body'], None, ZERO, 1, None, var=s['var'], elem=setv)
        h = self.hooks.get('rfor')
        if h:
            r = h(self, s, rng, st)
            if r is not NotImplemented: return r
        if isinstance(rng, MapV):
            ks = self.mapkeys(rng)
            if ks is not None: return self.maploop(s, rng, rlv, ks, st)
        if isinstance(rng, Vec):
            if rng.filt:
                return self.filtloop(s, rng, st)
            n = rng.size
            v = s['var']
            def setv(st, k):
                if v['ref'] and not v['const']: return LVal(rlv.cell, rlv.path + (('x', k),))
                return self.rd(st, rlv).get(k) if False else rng.get(k)
            return self.counted(s, st, n, s['body'], None, ZERO, 1, None, var=v, elem=setv)
        raise Give('range-for over %r' % (rng,))
    def mapkeys(self, m):
        """keys of a map in iteration order, when they are known"""
        ks = getattr(m.base, 'keys', None)
        h = self.hooks.get('mapkeys')
        if ks is None and h: ks = h(m)
        if ks is None and m.name is None: ks = []
        if ks is None: return None
        ks = list(ks)
        for c, k, v in m.ups:
            if k.lit() is None: return None
            if k.lit() in ks: continue
            if c.kind != 'T': return None
            ks.append(k.lit())
        return sorted(ks)
    def maploop(self, s, rng, rlv, ks, st):
        acc = {}; brk = None; cur = st; v = s['var']
        for k in ks:
            key = Str(k); val = self.rd(cur, LVal(rlv.cell, rlv.path + (('m', key),)))
            cell = self.new(cur, Tup([key, val]))
            if v.get('bindings') is not None:
                for i, b in enumerate(v['bindings']): self.frame.env[b['id']] = LVal(cell.cell, (('t', i),))
            else: self.frame.env[v['id']] = cell
            o = self.ex(s['body'], cur)
            brk = merge(brk, o.get('break'))
            if o.get('return'): acc['return'] = merge(acc.get('return'), o['return'])
            cur = merge(o.get('next'), o.get('continue'))
            if cur is None: break
            if v.get('ref') and not v.get('const'):
                n = self.rd(cur, cell)
                if isinstance(n, Tup) and n.items[1] is not val: self.wr(cur, LVal(rlv.cell, rlv.path + (('m', key),)), n.items[1])
        acc['next'] = merge(cur, brk)
        return acc
    def filtloop(self, s, rng, st):
        l = self.filtlist(rng)
        if l is not None:
            return self.counted(s, st, toP(len(l)), s['body'], None, ZERO, 1, None, var=s['var'], elem=lambda st, k: l[k.num()])
        out = {}
        for sg in rng.filt.segs:
            if sg[0] == 'one': raise Give('mixed filtered vector')
            t, lo, hi, c, v = sg
            body = s['body']
            def setv(st, k): return substval(v, {t: lo + k})
            # run the body guarded by the filter condition
            o = self.counted(s, st, hi - lo, body, None, ZERO, 1, None, var=s['var'], elem=setv, guard=lambda k: subst(c, {t: lo + k}))
            st = o['next']
        return {'next': st}
    def ylen(self, y):
        d = self.ynode(y)
        if d is not None: return toP(len(d)) if isinstance(d, (dict, list, tuple)) else ZERO
        return self.ylen0(y)
    def ynode(self, v):
        """contents of a node of the given document, YMISS when there is none, None without document"""
        if self.ydoc is None or v.args[0][0] != 'file': return None
        d = self.ydoc
        for p in v.args[1]:
            if isinstance(p, tuple) and p[0] == 'it':
                i = p[1].num()
                if i is None: return None
                if isinstance(d, dict) and i < len(d): d = list(d.values())[i]
                elif isinstance(d, (list, tuple)) and i < len(d): d = d[i]
                else: return YMISS
                continue
            k = p.lit() if isinstance(p, Str) else None
            if k is None and isinstance(p, Str):
                k = p
                if isinstance(d, dict):
                    for kk in d:
                        if isinstance(kk, Str) and kk == p: k = kk
            if isinstance(d, dict): d = d.get(k, YMISS)
            elif isinstance(d, (list, tuple)) and k is not None and k.isdigit() and int(k) < len(d): d = d[int(k)]
            else: return YMISS
            if d is YMISS: return YMISS
        return d
    def ylen0(self, y): return toP(mkA('sym', 'ylen:' + ykey(y)[0])) if not ykey(y)[1] else toP(mkA('ent', 'ylen:' + ykey(y)[0], *ykey(y)[1]))
    def same(self, v, p): return isinstance(v, P) and (v - p).iszero()
    def bodyrun(self, st, body, setup, t):
        s1 = st
        if setup: setup(s1, t)
        o = self.ex(body, s1)
        return o
    def counted(self, s, st, n, body, clv, lo, step, bnd, var=None, elem=None, guard=None):
        """n iterations; counter cell clv (or range variable var) = lo + step*k"""
        n = simp(n, self.ctx(st))
        nn = n.num()
        def setup(s1, k):
            if clv is not None: self.wr(s1, clv, lo + k * step)
            if var is not None:
                x = elem(s1, k)
                if var.get('bindings') is not None:
                    src = x if isinstance(x, LVal) else self.new(s1, x)
                    cur = self.rd(s1, src)
                    for i, b in enumerate(var['bindings']):
                        if isinstance(cur, Obj) and cur.cls == 'yiter': self.frame.env[b['id']] = self.new(s1, cur.get(('first', 'second')[i]))
                        elif isinstance(cur, Tup): self.frame.env[b['id']] = LVal(src.cell, src.path + (('t', i),))
                        else: self.frame.env[b['id']] = self.new(s1, Top('binding'))
                elif isinstance(x, LVal) and var['ref']: self.frame.env[var['id']] = x
                else: self.frame.env[var['id']] = self.new(s1, self.conv(x, var['t']) if not isinstance(x, (Obj, Opq)) else x)
        if nn is not None:
            if nn <= 0: return {'next': st}
            if nn <= 130:
                acc = {}; brk = None
                cur = st
                for k in range(int(nn)):
                    setup(cur, toP(k))
                    o = self.ex(body, cur)
                    brk = merge(brk, o.get('break'))
                    if o.get('return'): acc['return'] = merge(acc.get('return'), o['return'])
                    cur = merge(o.get('next'), o.get('continue'))
                    if cur is None: break
                    if clv is not None and isinstance(bnd, tuple):
                        ne = len(self.events); same = self.rd(cur, clv) == lo + step * k and self.same(self.ev(bnd[0], cur), bnd[1])
                        del self.events[ne:]
                        if not same: raise Changed('counter or bound')
                if cur is not None and clv is not None: self.wr(cur, clv, lo + step * int(nn))
                acc['next'] = merge(cur, brk)
                return acc
        return self.symloop(s, st, n, body, clv, lo, step, setup, guard)
    def symloop(self, s, st, n, body, clv, lo, step, setup, guard=None):
        nonempty = None
        # iteration symbol: prefer the counter itself when step is +1
        tn = fresh('i'); t = sym(tn)
        if clv is not None and step == 1: tlo, thi, kof_ = lo, lo + n, (lambda: t - lo)
        else: tlo, thi, kof_ = ZERO, n, (lambda: t)
        with_facts(cleq(tlo, t), clt(t, thi))
        pre = set(st.store)
        nev = len(self.events)
        changed = {}
        self.nc += 1; base_lid = 'l%d' % self.nc
        rnd = 0
        loopinfo = (tn, tlo, thi)
        while True:
            rnd += 1
            if rnd > 8: raise Give('loop analysis does not stabilise')
            lid = '%s.%d' % (base_lid, rnd)
            L = Loop(lid, tn, tlo, thi); LOOPS[lid] = L
            s1 = st.copy()
            hpc = len(s1.pc)
            for cid in changed: s1.store[cid] = self.placeholder(L, cid, st.store[cid], changed[cid])
            start = dict(s1.store)
            del self.events[nev:]
            self.loops.append(loopinfo)
            try:
                setup(s1, kof_())
                if guard is not None:
                    gc = guard(kof_())
                    s1 = State(s1.store, s1.pc + (gc,), s1.ret)
                    sk = State(dict(s1.store), st.pc + (cnot(gc),), st.ret)
                o = self.ex(body, s1)
                if guard is not None: o['next'] = merge(o.get('next'), sk)
            finally: self.loops.pop()
            end = merge(o.get('next'), o.get('continue'))
            if end is None and o.get('break') is None and o.get('return') is None: raise Give('loop body never completes')
            brk = o.get('break')
            rets = o.get('return')
            new = {}
            for st2 in (end, brk):
                if st2 is None: continue
                for cid in pre:
                    if clv is not None and cid == clv.cell and not clv.path: continue
                    if st2.store.get(cid, UNDEF) is not start.get(cid, UNDEF): new[cid] = st2.store[cid]
            if clv is not None and clv.path: raise Give('loop counter in a compound location')
            if clv is not None and end is not None and end.store.get(clv.cell) != lo + kof_() * step: raise Give('loop counter modified in the body')
            stable = set(new) <= set(changed)
            if stable:
                # refine prototypes once
                if rnd > 1 and all(self.sameproto(changed[c], end.store[c] if end else None) for c in changed): break
                if rnd > 3: break
            for c, v in new.items(): changed[c] = v
            if not changed: break
        L.changed = changed
        # break / return handling
        if rets is not None:
            if not self.ctx(rets).infeasible():
                r = self.loopreturn(s, L, rets, st)
                if r is None: raise Give('return inside a symbolic loop (line %s)' % s.get('l'))
                return self.afterreturn(r)
        self.makefams(L, changed, st, end)
        if brk is not None and not self.ctx(brk).infeasible():
            k = max(0, hpc)
            bc = cand(*brk.pc[k:])
            N = self.breakbound(L, bc, t, tlo, thi)
            if N is None: raise Give('break inside a symbolic loop (line %s): %r' % (s.get('l'), bc))
            m = fresh('m'); mp = sym(m)
            # bound = min(thi, N)
            mn = pmin(thi, N)
            L.hi = mn
            for ev in self.events[nev:]:
                if loopinfo in ev.loops: ev.loops[ev.loops.index(loopinfo)] = (tn, tlo, mn)
            thi = mn
        # resolve events recorded inside
        for ev in self.events[nev:]:
            ev.d = {k: L.resval(v) if isinstance(v, VALS) else v for k, v in ev.d.items()}
            ev.pc = tuple(L.resolve(c) for c in ev.pc)
            ev.loops = [(a, L.resolve(b), L.resolve(c)) for a, b, c in ev.loops]
        # exit state
        out = State(dict(st.store), st.pc, st.ret)
        for cid in changed: out.store[cid] = self.exitval(L, cid, st.store[cid], end.store[cid], thi)
        if clv is not None: 
            self.wr(out, clv, lo + (thi - tlo) * step)
        return {'next': out}
    def loopreturn(self, s, L, rets, st): return None
    def sameproto(self, a, b):
        if type(a) is not type(b): return False
        if isinstance(a, Mat): return (a.rows == b.rows and a.cols == b.cols) or has(a.rows, '$') or True
        return True
    def breakbound(self, L, bc, t, tlo, thi):
        """t == N form of a break condition evaluated on loop-carried values"""
        bc = L.resolve(bc)
        cs = bc.args if bc.kind == 'and' else (bc,)
        for c in cs:
            if c.kind == 'eq':
                N = solve_lin(c.args[0], L.t)
                if N is not None and len(cs) == 1: return N
            if c.kind == 'le':
                # N <= t
                p = c.args[0]
                if p.d.get(((mkA('sym', L.t), 1),)) == -1 and len(cs) == 1:
                    N = p + sym(L.t)
                    if L.t not in N.fv(): return N
        return None
    def placeholder(self, L, cid, init, proto):
        return self.ph(L, str(cid), init, proto)
    def ph(self, L, key, init, proto):
        t = sym(L.t)
        if isinstance(proto, P) and isinstance(init, (P, Undef)): return toP(mkA('$', L.lid, key, t))
        if isinstance(proto, C) and isinstance(init, (C, Undef)): return ceqq(toP(mkA('$', L.lid, key, t)), ONE)
        if isinstance(proto, Mat):
            i = init if isinstance(init, Mat) else None
            rows, cols = proto.rows, proto.cols
            if L.t in rows.fv() or has(rows, '$') : rows = i.rows if i is not None else rows
            if L.t in cols.fv() or has(cols, '$'): cols = i.cols if i is not None else cols
            return Mat(rows, cols, lambda r, c: toP(mkA('$', L.lid, key, t, r, c)), proto.kind)
        if isinstance(proto, Vec) and isinstance(init, Vec):
            if proto.filt or init.filt or self.grows(proto, init, L):
                return Vec(toP(mkA('$', L.lid, key + '#', t)), lambda k: PhV(L.lid, key, t), init.et, None, tag=('ph', L.lid, key))
            ep = None
            try: ep = self.elemproto(proto, init, L)
            except Give: pass
            if ep is None: return PhV(L.lid, key, t)
            e0 = self.elemph(L, key, ep)
            return Vec(init.size, e0, init.et or proto.et)
        if isinstance(proto, Obj) and isinstance(init, Obj):
            d = dict(init.fields)
            for f in proto.fields:
                x, y = init.get(f), proto.get(f)
                if x is not y: d[f] = self.ph(L, key + '.' + f, x, y)
            return Obj(init.cls, d, init.default)
        if isinstance(proto, MapV) and isinstance(init, MapV):
            # slots written under a loop-invariant key are carried; other writes are appended and resolved at exit
            ups = init.ups
            for k in self.slotkeys(L, init, proto):
                v0, v1 = init.get(k), proto.get(k)
                ups = ups + ((TRUE, k, self.ph(L, '%s@%r' % (key, k), v0, v1)),)
            return MapV(init.base, ups, init.name)
        if isinstance(proto, Tup) and isinstance(init, Tup) and len(proto.items) == len(init.items):
            return Tup([x if x is y else self.ph(L, '%s.%d' % (key, i), x, y) for i, (x, y) in enumerate(zip(init.items, proto.items))])
        return PhV(L.lid, key, t)
    def slotkeys(self, L, init, proto):
        out = []
        for c, k, v in proto.ups[len(init.ups):]:
            if not isinstance(k, Str) or k.istop() or any(isinstance(p, tuple) and isinstance(p[1], (P, A)) and L.t in (p[1].fv() if isinstance(p[1], P) else toP(p[1]).fv()) for p in k.parts): continue
            if has(toP(0) if not any(isinstance(p, tuple) and isinstance(p[1], P) for p in k.parts) else sum_(p[1] for p in k.parts if isinstance(p, tuple) and isinstance(p[1], P)), '$'): continue
            if isinstance(v, (P, C, Mat, Vec)) and k not in out: out.append(k)
        return out
    def grows(self, proto, init, L):
        return proto.size != init.size and not (proto.tag == 'resized')
    def elemproto(self, proto, init, L):
        # prefer an element actually written
        k = fresh('k'); 
        with_facts(cle(-sym(k)))
        v = proto.get(sym(k))
        return v
    def elemph(self, L, key, ep):
        t = sym(L.t)
        while isinstance(ep, VIte): ep = ep.a
        if isinstance(ep, P): return lambda k: toP(mkA('$', L.lid, key, t, k))
        if isinstance(ep, Mat):
            rows, cols = ep.rows, ep.cols
            rows = self.stripk(rows); cols = self.stripk(cols)
            return lambda k: Mat(rows, cols, lambda r, c: toP(mkA('$', L.lid, key, t, k, r, c)), ep.kind)
        if isinstance(ep, Str): return lambda k: Str(('s', mkA('$', L.lid, key, t, k)))
        return lambda k: PhV(L.lid, key, t)
    def stripk(self, d):
        """dimension of the written element: drop conditional empties"""
        if d.isnum(): return d
        ivs = free_ivs(d)
        if ivs:
            for c in ivs:
                for v in (1, 0):
                    q = set_iv(d, c, v)
                    if not q.iszero() and not free_ivs(q): return q
        return d
    # --- family construction ---
    def makefams(self, L, changed, st, end):
        if end is None: raise Give('loop always leaves')
        for cid in changed:
            self.fam(L, str(cid), st.store[cid], end.store[cid], changed[cid])
    def fam(self, L, key, init, body, proto):
        ph = self.ph(L, key, init, proto)
        if isinstance(ph, P):
            i0 = init if isinstance(init, P) else topP('uninitialised')
            L.fams[key] = Family(L, key, 0, lambda idx: i0, lambda g: self.P(body), None); return
        if isinstance(ph, C):
            i0 = iv(init) if isinstance(init, C) else topP('uninitialised')
            L.fams[key] = Family(L, key, 0, lambda idx: i0, lambda g: iv(self.Cn(body)), None); return
        if isinstance(ph, Mat):
            def i0(idx):
                if not isinstance(init, Mat): return ZERO if isinstance(init, Undef) else self.P(init)
                if init.rows.iszero() or init.cols.iszero(): return ZERO
                return init.get(*idx)
            def b0(g):
                if isinstance(body, Mat): return body.get(*g)
                if isinstance(body, P): return body
                raise Give('matrix becomes %r' % (body,))
            L.fams[key] = Family(L, key, 2, i0, b0, [ph.rows, ph.cols]); return
        if isinstance(ph, Vec):
            if ph.tag: L.vals[key] = (init, body); return
            ep = ph.get(sym(fresh('k')))
            if isinstance(ep, P):
                L.fams[key] = Family(L, key, 1, lambda idx: self.P(init.get(idx[0])), lambda g: self.P(body.get(g[0])), [ph.size]); return
            if isinstance(ep, Mat):
                def i1(idx):
                    m = init.get(idx[0])
                    if isinstance(m, P): return m
                    if not isinstance(m, Mat) or m.rows.iszero(): return ZERO
                    return m.get(idx[1], idx[2])
                def b1(g):
                    m = body.get(g[0])
                    if isinstance(m, P): return m
                    return m.get(g[1], g[2])
                L.fams[key] = Family(L, key, 3, i1, b1, [ph.size, ep.rows, ep.cols]); return
            if isinstance(ep, Str):
                L.vals[key] = (init, body); return
            L.vals[key] = (init, body); return
        if isinstance(ph, Obj):
            for f in ph.fields:
                x, y = init.get(f), proto.get(f)
                if x is not y: self.fam(L, key + '.' + f, x, body.get(f), y)
            L.vals[key] = (init, body)
            return
        if isinstance(ph, MapV):
            for k in self.slotkeys(L, init, proto):
                self.fam(L, '%s@%r' % (key, k), init.get(k), body.get(k), proto.get(k))
            L.vals[key] = (init, body); return
        if isinstance(ph, Tup):
            for i, (x, y) in enumerate(zip(init.items, proto.items)):
                if x is not y: self.fam(L, '%s.%d' % (key, i), x, body.items[i], y)
            return
        L.vals[key] = (init, body)
    def exitval(self, L, cid, init, body, hi):
        return self.exv(L, str(cid), init, body, L.changed[cid], hi)
    def exv(self, L, key, init, body, proto, hi):
        ph = self.ph(L, key, init, proto)
        if isinstance(ph, P): return self.lazyP(lambda: L.fams[key].at(hi, []))
        if isinstance(ph, C): return ceqq(L.fams[key].at(hi, []), ONE)
        if isinstance(ph, Mat):
            return Mat(L.resolve(ph.rows), L.resolve(ph.cols), lambda r, c: L.fams[key].at(hi, [r, c]), ph.kind)
        if isinstance(ph, Vec):
            if ph.tag: return self.pushes(L, key, init, body, hi)
            if key in L.fams:
                if L.fams[key].nidx == 1: return Vec(ph.size, lambda k: L.fams[key].at(hi, [k]), ph.et)
                ep = ph.get(sym(fresh('k')))
                return Vec(ph.size, lambda k: Mat(ep.rows, ep.cols, lambda r, c: L.fams[key].at(hi, [k, r, c]), ep.kind), ph.et)
            return Top('loop-carried vector')
        if isinstance(ph, Obj):
            d = dict(init.fields)
            for f in ph.fields:
                x, y = init.get(f), proto.get(f)
                if x is not y: d[f] = self.exv(L, key + '.' + f, x, body.get(f), y, hi)
            return Obj(init.cls, d, init.default)
        if isinstance(ph, Tup):
            return Tup([x if x is y else self.exv(L, '%s.%d' % (key, i), x, body.items[i], y, hi) for i, (x, y) in enumerate(zip(init.items, proto.items))])
        if isinstance(ph, MapV) and isinstance(body, MapV):
            ks = self.slotkeys(L, init, proto)
            out = self.mapexit(L, key, init, body, hi, ks)
            if isinstance(out, MapV):
                for k in ks: out = out.set(k, self.exv(L, '%s@%r' % (key, k), init.get(k), body.get(k), proto.get(k), hi))
            return out
        try: return L.valat(key, hi)
        except KeyError: return Top('loop-carried value')
    def lazyP(self, f): return f()
    def mapexit(self, L, key, init, body, hi, skip=()):
        """writes appended to a map in a loop, as loop-quantified writes"""
        nu = [u for u in body.ups[len(init.ups):] if u[1] not in skip]
        prev = MapV(init.base, init.ups, init.name)
        ups = []
        for c, k, v in nu: ups.append((L.resolve(c), L.resval(k), L.resval(v)))
        if not all(L.t not in valfv(k) and L.t not in _fvC(c) for c, k, v in ups): 
            return Top('map written at loop-dependent keys')
        out = init
        for c, k, v in ups: out = out.set(k, substval(v, {L.t: hi - 1}), cand(c, simpC(clt(L.lo, hi), GLOBAL)))
        return out
    def pushes(self, L, key, init, body, hi):
        """vector grown by push_back in the loop"""
        segs = []
        app = getattr(body, 'tag', None)
        def collect(v, cond):
            # returns list of (cond, val) appended after the placeholder
            if isinstance(v, Vec):
                if v.tag and v.tag[0] == 'ph' and v.tag[1:] == (L.lid, key): return []
                if v.tag and v.tag[0] == 'push':
                    pre = collect(v.tag[1], cond)
                    return None if pre is None else pre + [(cond, v.tag[2])]
            if isinstance(v, VIte):
                a = collect(v.a, cand(cond, v.c)); b = collect(v.b, cand(cond, cnot(v.c)))
                if a is None or b is None: return None
                # common prefix impossible to tell in general: only disjoint pushes
                return a + b
            return None
        r = collect(body, TRUE)
        if r is None: return Top('vector rebuilt in loop')
        isegs = None
        if init.filt: isegs = list(init.filt.segs)
        elif init.size.iszero(): isegs = []
        else:
            l = init.tolist()
            if l is not None: isegs = [('one', x) for x in l]
        if len(r) == 1:
            c, v = L.resolve(r[0][0]), L.resval(r[0][1])
            if c.kind == 'T' and isegs == []:
                n = hi - L.lo
                return Vec(n, lambda k: substval(v, {L.t: L.lo + k}), init.et)
            if c.kind == 'T' and isegs is None:
                n0 = init.size
                return Vec(n0 + hi - L.lo, lambda k: vite(simpC(clt(k, n0), GLOBAL), init.get(k), substval(v, {L.t: L.lo + k - n0})), init.et)
            if isegs is not None:
                seg = (L.t, L.lo, hi, c, v)
                cnt = mksum_c(L.t, L.lo, hi, iv(c))
                return Vec(init.size + cnt, lambda k: UNDEF, init.et, Filt(isegs + [seg]))
        return Top('vector grown in an unrecognised way')

def sum_(xs):
    s = ZERO
    for x in xs: s = s + x
    return s
def isStrm(t): return strip(t).replace('class ', '').startswith(('std::basic_stringstream', 'std::basic_ostringstream', 'std::stringstream', 'std::ostringstream'))
def pmin(a, b):
    if a == b: return a
    d = (a - b)
    if prove(cleq(a, b)): return a
    if prove(cleq(b, a)): return b
    return ite(cleq(a, b), a, b)
def mksum_c(v, lo, hi, body):
    u = fresh('b'); with_facts(cleq(lo, sym(u)), clt(sym(u), hi))
    return mksum(u, lo, hi, subst(body, {v: sym(u)}))
def valfv(v):
    if isinstance(v, Str):
        s = frozenset()
        for p in v.parts:
            if isinstance(p, tuple) and isinstance(p[1], (P, A)): s |= T._fv(p[1])
        return s
    return frozenset()
def _fvC(c): return T._fv(c)
def transp(m): return Mat(m.cols, m.rows, lambda r, c: m.get(c, r), m.kind)
def sumrange(n, f):
    """sum_{k<n} f(k)"""
    v = n.num()
    if isinstance(v, int):
        s = ZERO
        for i in range(v): s = s + f(toP(i))
        return s
    if len(n.d) == 1:
        (m, c), = n.d.items()
        if c == 1 and sum(e for a, e in m) == 2 and all(a.kind == 'sym' and e > 0 for a, e in m):
            n1 = toP(m[0][0]); n2 = n.div(n1)
            u, w = fresh('b'), fresh('b')
            with_facts(cle(-sym(u)), clt(sym(u), n1)); with_facts(cle(-sym(w)), clt(sym(w), n2))
            return mksum(w, ZERO, n2, mksum(u, ZERO, n1, f(sym(u) + n1 * sym(w))))
    k = fresh('b'); with_facts(cle(-sym(k)), clt(sym(k), n))
    return mksum(k, ZERO, n, f(sym(k)))
def mm(a, b):
    if a.isscalar() and not (b.rows.num() == 1): return Mat(b.rows, b.cols, lambda r, c: a.get(ZERO, ZERO) * b.get(r, c), a.kind)
    if b.isscalar() and not (a.cols.num() == 1): return Mat(a.rows, a.cols, lambda r, c: a.get(r, c) * b.get(ZERO, ZERO), a.kind)
    n = a.cols if a.cols.isnum() or not b.rows.isnum() else b.rows
    return Mat(a.rows, b.cols, lambda r, c: sumrange(n, lambda k: a.get(r, k) * b.get(k, c)), a.kind)
VALS = (P, C, Mat, Vec, Str, Obj, MapV, Tup, VIte, PhV, Opq)
def repr_key(v):
    if isinstance(v, Opq) and v.tag == 'Y':
        k, idx = ykey(v)
        return (k,) + tuple(idx)
    return str(v)
def ykey(y):
    """textual template of a YAML path plus its symbolic indices"""
    root = y.args[0]; s = str(root[0] if root[0] != 'file' else root[0]); idx = []
    if root[0] == 'new': s = 'new%d' % root[1]
    elif len(root) > 1: s += ':' + str(root[1])
    for p in y.args[1]:
        if isinstance(p, tuple) and p[0] == 'it': s += '/*'; idx.append(p[1])
        elif isinstance(p, Str):
            s += '/'
            for q in p.parts:
                if isinstance(q, str): s += q
                elif q[0] == 'int': s += '#'; idx.append(q[1])
                elif isinstance(q[1], P): s += '$'; idx.append(q[1])
                else: s += '{%s}' % q[1]
        else: s += '/?'
    return s, idx
def mapT(t):
    m = re.match(r'std::(?:unordered_)?map<(.*)>$', strip(t))
    if not m: return ''
    s = m.group(1); d = 0
    for i, ch in enumerate(s):
        if ch in '<(': d += 1
        elif ch in '>)': d -= 1
        elif ch == ',' and d == 0:
            rest = s[i+1:].strip(); d2 = 0
            for j, c2 in enumerate(rest):
                if c2 in '<(': d2 += 1
                elif c2 in '>)': d2 -= 1
                elif c2 == ',' and d2 == 0: return rest[:j].strip()
            return rest
    return ''
