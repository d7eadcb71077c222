"""Comparison of what the code registers with the reference definitions."""
from spec import *
import time, itertools

PATTERNS = [  # (n, elastic flags, orders, symbolic flag pattern)
    (1, (1,), {'K_order': 2, 'D_order': 3, 'Dl_order': 1, 'Dm_order': 2}, 'all'),
    (2, (0, 1), {'K_order': 2, 'D_order': 2, 'Dl_order': 3, 'Dm_order': 1}, 'alt'),
    (3, (1, 0, 1), {'K_order': 1, 'D_order': 2, 'Dl_order': 2, 'Dm_order': 3}, 'alt2'),
]
class Result:
    """outcome of one obligation"""
    def __init__(self, name, status, detail='', loc=None, mode=''): self.name = name; self.status = status; self.detail = detail; self.loc = loc; self.mode = mode
    def __repr__(self): return '%s %s %s %s %s' % (self.status, self.mode, self.name, self.loc or '', self.detail)

def symbflags(pat, fam, size):
    if pat == 'all': return [1] * size
    h = sum(map(ord, fam)) + (1 if pat == 'alt2' else 0)
    return [1 if (i * 7 + h) % 3 else 0 for i in range(size)]

def mkinst(prog, pat, hooks=None):
    n, el, od, sp = pat
    w = World(prog, n=n, elastic=list(el), orders=od, hooks=hooks)
    w.symb = {}
    for f in ('par_DHtable', 'par_world2L0', 'par_Ln2EE', 'par_gravity', 'par_DYN', 'par_REG', 'par_Dl', 'par_K', 'par_D', 'par_Dm', 'par_Mm'):
        w.symb[f] = symbflags(sp, f, w.dims(f)[0].num())
    w.label = 'n=%d elastic=%s orders=%s symbolic=%s' % (n, list(el), ','.join('%s:%d' % (k[:-6], v) for k, v in sorted(od.items())), sp)
    return w

def inst_indices(w, fam):
    n = w.n.num()
    if fam == 'T_#': return [(i,) for i in range(0, n + 1)]
    if fam == 'T_0_#': return [(i,) for i in range(0, n + 2)]
    if fam == 'J_#': return [(i,) for i in range(1, n + 2)]
    if fam == 'J_cm_#': return [(i,) for i in range(1, n + 1)]
    o = {'K#': 'K_order', 'D#': 'D_order', 'Dm#': 'Dm_order', 'Dl#': 'Dl_order'}
    if fam in o:
        k = w.orders[o[fam]].num()
        return [((2 * i + 1) if fam == 'K#' else i + 1,) for i in range(k)]
    return [()]

def key_text(w, fam, idx):
    s = fam.replace('#', '') + ''.join(str(i) for i in idx)
    return s

def locof(evs):
    return '%s:%s' % evs[-1].loc if evs else '?'

NVAL = 5
def isingular(vals, a, b):
    """the definition has a value under every valuation, the code inverts a singular matrix under each of them"""
    try:
        for v in vals: v.e(b)
    except (NoVal, Give, KeyError, TypeError, ValueError, StopIteration, OverflowError, ZeroDivisionError, Undefined): return False
    for v in vals:
        try: v.e(a); return False
        except NoVal as ex:
            if str(ex) != 'singular': return False
        except (Give, KeyError, TypeError, ValueError, StopIteration, OverflowError, ZeroDivisionError, Undefined): return False
    return True
def refute(w, spec, vals, diff):
    """a valuation of the robot's variables under which the difference is non-zero, or None / 'opaque'"""
    bad = 0; n = 0
    for v in vals:
        try: x = v.e(diff)
        except Undefined: continue
        except (NoVal, Give, KeyError, TypeError, ValueError, StopIteration, OverflowError, ZeroDivisionError) as ex: return 'opaque', str(ex)
        n += 1
        mag = sum(abs(v.e(P({m: c}))) for m, c in list(diff.d.items())[:400]) if diff.d else 0
        if abs(x) > 1e-7 * (1 + mag): bad += 1
    return ('differs' if bad else 'equal'), None

class Norm:
    """rewrites a difference using the values registered in the same analysis: let-names of a registered
    entry become that entry; entries registered in the same run are replaced by their values"""
    def __init__(self, w, sp): self.w = w; self.sp = sp; self.lets = {}; self.vals = {}; self.ivals = {}
    def regentry(self, a):
        fam = a.args[0][6:]; ix = a.args[1:]
        nidx = 1 if fam.endswith('#') else 0
        k = (fam, tuple(ix[:nidx]))
        if k not in self.vals:
            v, cov, evs = reg_value(self.w, fam, list(ix[:nidx]))
            self.vals[k] = v if isinstance(v, Mat) and Ctx().decide(cov) else None
        v = self.vals[k]
        if v is None: return None
        rc = ix[nidx:]
        return v.get(rc[0], rc[1] if len(rc) > 1 else ZERO)
    def ents2lets(self, d):
        """entries registered in this run, under the name the code's own derivative operators give them"""
        fams = {'M', 'C', 'C_std', 'G', 'J_ee_dot', 'dl', 'k', 'd', 'dm'}
        def pred(a): return a.kind == 'ent' and isinstance(a.args[0], str) and a.args[0][6:] in fams
        def f(a, args):
            if a not in self.lets:
                v = self.regentry(a)
                if v is None: v = toP(a)
                elif len(v.d) > LETBIG[0]:
                    lid = 'L' + I.hashlib_(v.key); LETDEF.setdefault(lid, (v, [])); v = mklet(lid)
                self.lets[a] = v
            return self.lets[a]
        return mapatoms(d, pred, f)
    def expand(self, d, fams):
        """replace entries registered in this run by their registered value"""
        def pred(a): return a.kind == 'ent' and isinstance(a.args[0], str) and a.args[0][6:] in fams
        def f(a, args):
            if a not in self.ivals:
                self.ivals[a] = self.regentry(a)
            v = self.ivals[a]
            return toP(a) if v is None else v
        return mapatoms(d, pred, f)
    def __call__(self, d, fam):
        d = self.ents2lets(d)
        if d.iszero(): return d
        fs = {'T_0_#': {'T_0_#'}, 'M': {'J_cm_#'}, 'G': {'J_cm_#'}, 'C': {'J_cm_#'}, 'C_std': {'J_cm_#'}}.get(fam)
        if fs and len(d.d) < 40000:
            for _ in range(6 if fam == 'T_0_#' else 1):
                d2 = self.expand(d, fs)
                if d2 == d: break
                d = d2
        return simp(d, GLOBAL)

def compare_instance(prog, fn, fams, pat, budget=120, mu=None, results=None, pipe=False):
    """registered functions of the listed families against their definitions, number of joints fixed"""
    out = []
    t0 = time.time()
    try:
        if pipe:
            from checks_api import Pipe
            w = Pipe(prog, pat).w; w.label = 'robot_from_file, ' + w.label
        else: w = mkinst(prog, pat)
        w.mu = toP(Fraction(1, 50))
        if not pipe: w.run(fn)
    except Missing as ex: return [Result(fn, 'missing', str(ex))]
    except Give as ex: return [Result(fn, 'undecided', 'analysis gave up: %s' % ex, mode='n=%d' % pat[0])]
    sp = Spec(w); vals = [DefVal(w, sp, s) for s in range(NVAL + 2)]; nm = Norm(w, sp)
    for fam in fams:
        for idx in inst_indices(w, fam):
            name = key_text(w, fam, idx)
            d = None
            try: sm = sp.defn(fam, tuple(toP(i) for i in idx))
            except Give as ex: out.append(Result(name, 'undecided', 'reference: %s' % ex, mode=w.label)); continue
            if sm is None: continue
            v, cov, evs = reg_value(w, fam, [toP(i) for i in idx])
            empty = sm.rows.iszero() or sm.cols.iszero()
            if v is None:
                if not empty: out.append(Result(name, 'violation' if w_complete(w) else 'undecided', 'never registered', None, w.label))
                continue
            loc = locof(evs)
            if cov.kind != 'T' and not Ctx().decide(cov) and (df := domfails(cov)) is not None:
                if df and w_complete(w) and not empty: out.append(Result(name, 'violation', 'not registered when %s' % ', '.join('%s is %s' % (k[6:-1].replace('t,', 'joint '), v) for k, v in df.items()), loc, w.label)); continue
                out.append(Result(name, 'undecided', 'registered only when %s' % cov.key[:200], loc, w.label)); continue
            if not isinstance(v, Mat):
                out.append(Result(name, 'undecided', 'value is %r' % (v,), loc, w.label)); continue
            if empty: continue
            if v.rows != sm.rows or v.cols != sm.cols:
                num = all(isinstance(x.num(), int) for x in (v.rows, v.cols))
                out.append(Result(name, 'violation' if num else 'undecided', 'is %s x %s instead of %s x %s' % (show(v.rows), show(v.cols), show(sm.rows), show(sm.cols)), loc, w.label)); continue
            if fam == 'J_ee_pinv': fixmu(w, sp, v)
            ok = 0
            for r in range(sm.rows.num()):
                for c in range(sm.cols.num()):
                    try:
                        a = v.get(toP(r), toP(c)); b = sp.defn(fam, tuple(toP(i) for i in idx)).get(toP(r), toP(c))
                        diff = a - b
                        if diff.iszero(): ok += 1; continue
                        diff = simp(diff, GLOBAL)
                        if diff.iszero(): ok += 1; continue
                        diff = nm(diff, fam)
                        if diff.iszero(): ok += 1; continue
                        if sp.alt(fam, tuple(toP(i) for i in idx)) and simp(a - sp.alt(fam, tuple(toP(i) for i in idx)).get(toP(r), toP(c)), GLOBAL).iszero(): ok += 1; continue
                        st, why = refute(w, sp, vals, diff)
                        if st == 'opaque' and why == 'singular' and isingular(vals, a, b): st = 'differs'
                    except Give as ex: st, why = 'opaque', str(ex)
                    if st == 'equal': out.append(Result('%s(%d,%d)' % (name, r, c), 'agree', 'not identical as polynomials, equal under all valuations', loc, w.label))
                    elif st == 'opaque': out.append(Result('%s(%d,%d)' % (name, r, c), 'undecided', why, loc, w.label))
                    else: out.append(Result('%s(%d,%d)' % (name, r, c), 'violation', 'expression differs from its definition by %s' % show(diff, 4), loc, w.label))
            if ok: out.append(Result(name, 'equal', '%d entries' % ok, loc, w.label))
            out[-1].n = ok
    return out
BENIGN = ('std::basic_', 'std::runtime_error::', 'std::chrono', 'std::exception', 'std::logic_error', 'std::to_string')
def w_complete(w): return not w.unknown and not any(e.kind == 'giveup' for e in w.m.events) and not any(not x.startswith(BENIGN) for x in w.m.nomodel)
def fixmu(w, sp, v):
    for e in dim_points(v.rows, 'r'):
        at = subatoms(v.get(e, ZERO), lambda a: a.kind == 'fn' and str(a.args[0]).startswith('inv:'))
        for a in at:
            m = w.m.invdefs.get(a.args[0])
            if m is None: continue
            J = w.mat('J_#', [w.n + 1])
            mu = simp(m.get(ZERO, ZERO) - mul(J, Tr(J)).get(ZERO, ZERO), GLOBAL).num()
            if mu is not None and 0 < mu <= Fraction(1, 10):
                if toP(mu) != w.mu: w.mu = toP(mu); sp.m.pop(('J_ee_pinv', ()), None)
                return

# ---------------- parametric comparison: every number of joints ----------------
class Cert:
    """recurrences of the analysed loops identified with published quantities, by induction on the loop"""
    def __init__(self, w, sp): self.w = w; self.sp = sp; self.done = {}; self.log = []
    def frame0(self, x):
        fr = self.sp.frame('par_world2L0')
        def pred(a): return a.kind == 'ent' and a.args[0] == 'model:T_0_#' and a.args[1].iszero()
        return mapatoms(x, pred, lambda a, args: fr.get(toP(args[2]), toP(args[3])))
    def own(self, lid, key): return lambda a: a.kind in ('$', 'rec') and a.args[0] == lid and a.args[1] == key
    def cand(self, lid, key):
        k = (lid, key)
        if k in self.done: return self.done[k]
        self.done[k] = None
        rd = RECDEF.get(k)
        if rd is None: return None
        fam = rd['fam']; g = rd['g']; L = fam.loop
        if len(g) < 2: return None
        i = fresh('t'); ip = sym(i)
        t = sym(L.t)
        for delta in (0, 1):
            ok = True
            try:
                for r in range(4):
                    for c in range(4):
                        if rd['mode'] == 'index':
                            if len(g) != 3: raise Give('shape')
                            gn = [next(iter(x.fv())) for x in g]
                            wr = rd['w']                      # iteration writing index g0
                            # solve for the index written at iteration t
                            ix = solve_lin(wr - t, gn[0])
                            if ix is None: raise Give('writer')
                            env = {gn[0]: ix, gn[1]: toP(r), gn[2]: toP(c)}
                            F = subst(rd['F'], env); E = self.sp.e('T_0_#', ix + delta, r, c)
                            def val(a, args):
                                if a.kind == 'rec': idx = args[2:]
                                else: idx = args[3:]
                                j = idx[0]; wj = subst(wr, {gn[0]: j})
                                e = self.sp.e('T_0_#', j + delta, *idx[1:])
                                if a.kind == 'rec': return e
                                return ite(cand(cleq(L.lo, wj), clt(wj, t)), e, fam.init(list(idx)))
                            F = mapatoms(F, self.own(lid, key), val)
                            D_ = self.sp.defn('T_0_#', (ix + delta,)).get(toP(r), toP(c))
                        else:
                            if len(g) != 2: raise Give('shape')
                            gn = [next(iter(x.fv())) for x in g]
                            F = subst(rd['F'], {gn[0]: toP(r), gn[1]: toP(c)})
                            base = fam.init([toP(r), toP(c)])
                            E0 = self.sp.e('T_0_#', L.lo + delta, r, c)
                            if not zero(self.frame0(base - E0), GLOBAL): raise Give('base')
                            F = mapatoms(F, self.own(lid, key), lambda a, args: self.sp.e('T_0_#', args[2] + delta, *args[3:]))
                            D_ = self.sp.defn('T_0_#', (t + 1 + delta,)).get(toP(r), toP(c))
                        if not zero(F - D_, GLOBAL, self.frame0): raise Give('step')
            except Give as ex: ok = False; self.log.append("%s: %s" % (k, ex))
            except (KeyError, IndexError, TypeError): ok = False
            if ok:
                self.done[k] = (rd['mode'], delta); self.log.append('loop %s: carried value identified with T_0 (index offset %d) by induction' % (lid, delta))
                return self.done[k]
        return None
    def __call__(self, x):
        def pred(a): return a.kind == 'rec' and self.cand(a.args[0], a.args[1]) is not None
        def f(a, args):
            mode, delta = self.cand(a.args[0], a.args[1])
            return self.sp.e('T_0_#', args[2] + delta, *args[3:])
        return self.frame0(mapatoms(x, pred, f)) if subatoms(x, lambda a: a.kind == 'rec') else x
def zero(p, ctx, norm=None):
    p = simp(p, ctx)
    if p.iszero(): return True
    ok, res, c = prove_zero(p, ctx)
    if ok: return True
    if norm is not None:
        # case split again, normalising after every substitution
        return zero_cases(p, ctx, norm, 0)
    return False
def zero_cases(p, ctx, norm, depth):
    p = norm(simp(p, ctx))
    if p.iszero() or ctx.infeasible(): return True
    if depth > 10: return False
    cs = free_ivs(p)
    if not cs: return False
    c = min(cs, key=lambda c: ({'streq': 0, 'b': 1, 'eq': 2, 'le': 3}.get(c.kind, 4), c.key))
    for lit in (c, cnot(c)):
        c2 = ctx.plus(lit)
        if c2.infeasible(): continue
        q = p; es = list(c2.eqs)
        if lit.kind == 'le':
            # a range collapsed to a point
            pv = lit.args[0]
            for s in sorted(pv.fv()):
                sol = solve_lin(pv, s)
                if sol is not None and c2.decide(ceqq(sym(s), sol)): es.append(sym(s) - sol); break
        for e in es:
            for s in sorted(e.fv()):
                sol = solve_lin(e, s)
                if sol is not None and s in q.fv():
                    q = subst(q, {s: sol}); c2 = subst_ctx(c2, {s: sol}); break
        if not zero_cases(q, c2, norm, depth + 1): return False
    return True

def param_indices(w, fam):
    """(label, index expressions) over a symbolic number of joints"""
    n = w.n
    def ix(lo, hi, nm='i'):
        s = sym(fresh(nm)); with_facts(cleq(lo, s), clt(s, hi)); return s
    if fam == 'T_#': return [('0', [ZERO]), ('i=1..n', [ix(ONE, n + 1)])]
    if fam == 'T_0_#': return [('0', [ZERO]), ('i=1..n', [ix(ONE, n + 1)]), ('n+1', [n + 1])]
    if fam == 'J_#': return [('i=1..n', [ix(ONE, n + 1)]), ('n+1', [n + 1])]
    if fam == 'J_cm_#': return [('i=1..n', [ix(ONE, n + 1)])]
    if fam == 'K#': o = ix(ZERO, w.orders['K_order']); return [('1,3,..,2K-1', [2 * o + 1])]
    o = {'D#': 'D_order', 'Dm#': 'Dm_order', 'Dl#': 'Dl_order'}
    if fam in o: s = ix(ONE, w.orders[o[fam]] + 1); return [('1..order', [s])]
    return [('', [])]
def dim_points(d, nm):
    """representatives of the rows (columns) of a dimension: all of a fixed one, symbolic otherwise"""
    k = d.num()
    if isinstance(k, int) and k <= 12: return [toP(i) for i in range(k)]
    if len(d.d) == 1:
        (m, c), = d.d.items()
        if isinstance(c, int) and c == 10:
            s = sym(fresh(nm)); with_facts(cleq(ZERO, s), clt(s, P({m: 1})))
            return [10 * s + l for l in range(10)]
    s = sym(fresh(nm)); with_facts(cleq(ZERO, s), clt(s, d))
    return [s]

def compare_param(prog, fn, fams, budget=60, seed_orders=None):
    out = []
    w = World(prog); w.mu = toP(Fraction(1, 50)); w.symb = {}; w.label = 'any number of joints'
    w.orders_pos = True
    try: w.run(fn)
    except Missing as ex: return [Result(fn, 'missing', str(ex))]
    except Give as ex: return [Result(fn, 'open', 'analysis gave up: %s' % ex, mode=w.label)]
    sp = Spec(w); ce = Cert(w, sp); nm = PNorm(w, sp, ce)
    for fam in fams:
        t0 = time.time()
        for lab, idx in param_indices(w, fam):
            name = fam.replace('#', '') + (lab and '[%s]' % lab)
            try:
                sm = sp.defn(fam, tuple(idx))
                if sm is None: out.append(Result(name, 'open', 'no reference', None, w.label)); continue
                v, cov, evs = reg_value(w, fam, idx)
                if v is None: out.append(Result(name, 'open', 'not found among the registered functions', None, w.label)); continue
                loc = locof(evs)
                if not isinstance(v, Mat): out.append(Result(name, 'open', repr(v), loc, w.label)); continue
                if cov.kind != 'T' and not w_cover(w, cov): out.append(Result(name, 'open', 'registered when %s' % cov.key[:200], loc, w.label)); continue
                if not (zero(v.rows - sm.rows, GLOBAL) and zero(v.cols - sm.cols, GLOBAL)):
                    out.append(Result(name, 'open', 'size %s x %s' % (show(v.rows), show(v.cols)), loc, w.label)); continue
                if fam == 'J_ee_pinv': fixmu(w, sp, v); sm = sp.defn(fam, tuple(idx))
                bad = None; k = 0
                for r in dim_points(sm.rows, 'r'):
                    for c in dim_points(sm.cols, 'c'):
                        if time.time() - t0 > budget: bad = 'time'; break
                        d = v.get(r, c) - sm.get(r, c)
                        ok = d.iszero()
                        if not ok:
                            d = nm(d, fam)
                            ok = d.iszero() or zero(d, GLOBAL, ce.frame0)
                        if not ok and sp.alt(fam, tuple(idx)):
                            d = nm(v.get(r, c) - sp.alt(fam, tuple(idx)).get(r, c), fam); ok = zero(d, GLOBAL)
                        if not ok: bad = '(%s,%s): %s' % (show(r), show(c), show(d, 4)); break
                        k += 1
                    if bad: break
                if bad: out.append(Result(name, 'open', bad, loc, w.label))
                else: out.append(Result(name, 'proved', '%d entry classes' % k, loc, w.label)); out[-1].n = k
            except Give as ex: out.append(Result(name, 'open', 'gave up: %s' % ex, None, w.label))
            except RecursionError: out.append(Result(name, 'open', 'recursion', None, w.label))
    return out
def w_cover(w, cov):
    c = Ctx((cb('ELASTIC'),))
    return bool(c.decide(cov)) or simp(cov, c).kind == 'T'
class PNorm:
    """rewriting with the values registered in the same analysis, number of joints symbolic"""
    def __init__(self, w, sp, ce): self.w = w; self.sp = sp; self.ce = ce; self.memo = {}
    def fam_generic(self, fam):
        return None
    def __call__(self, d, fam):
        d = simp(self.ce(d), GLOBAL)
        if d.iszero(): return d
        fs = {'M': {'J_cm_#'}, 'G': {'J_cm_#'}, 'C': {'M'}, 'C_std': {'M'}}.get(fam)
        return d

if __name__ == '__main__':
    import sys, pickle
    prog = pickle.load(open('/tmp/prog.pkl', 'rb'))
    G = {'chain': ('thunder_ns::compute_chain', ['T_#', 'T_0_#']), 'jac': ('thunder_ns::compute_jacobians', ['J_#']),
         'adv': ('thunder_ns::compute_kin_adv', ['J_ee_dot', 'J_ee_ddot', 'J_ee_pinv']), 'MCG': ('thunder_ns::compute_MCG', ['J_cm_#', 'M', 'G', 'C', 'C_std']),
         'dd': ('thunder_ns::compute_dyn_derivatives', ['M_dot', 'M_ddot', 'C_dot', 'C_ddot', 'G_dot', 'G_ddot']),
         'el': ('thunder_ns::compute_elastic', ['k', 'K#', 'd', 'D#', 'dm', 'Dm#', 'Mm']), 'dl': ('thunder_ns::compute_Dl', ['dl', 'Dl#']),
         'Yr': ('thunder_ns::compute_Yr', ['reg_M', 'reg_C', 'reg_G', 'Yr']), 'rdl': ('thunder_ns::compute_reg_Dl', ['reg_dl']),
         'rel': ('thunder_ns::compute_reg_elastic', ['reg_k', 'reg_d', 'reg_dm', 'reg_Mm']), 'rJ': ('thunder_ns::compute_reg_J', ['reg_Jdq', 'reg_JTw'])}
    for g in sys.argv[1].split(','):
        if len(sys.argv) > 2 and sys.argv[2] == 'p':
            t = time.time()
            for r in compare_param(prog, *G[g]): print(str(r)[:600])
            print(g, '%.2fs' % (time.time() - t)); continue
        for pat in PATTERNS[:int(sys.argv[2]) if len(sys.argv) > 2 else 3]:
            t = time.time()
            rs = compare_instance(prog, *G[g], pat)
            print(g, pat[0], '%.2fs' % (time.time() - t), {s: sum(1 for r in rs if r.status == s) for s in set(r.status for r in rs)})
            for r in rs:
                if r.status not in ('equal',): print('   ', str(r)[:300])
