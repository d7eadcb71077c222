"""Models of the standard algorithms on containers of known length, std::tie, and further casadi/Eigen functions."""
import re
from terms import *
from values import *
import interp as I
from interp import *

def vmap(v, f):
    return vite(v.c, vmap(v.a, f), vmap(v.b, f)) if isinstance(v, VIte) else f(v)

class Alg:
    # ---- helpers ----
    def maprange(self, a, b, st):
        """map location and keys of [a, b), or None"""
        if not isinstance(a, MIt) or not isinstance(b, MIt): return None
        if a.lv.cell != b.lv.cell or a.lv.path != b.lv.path: return None
        m = self.rd(st, a.lv); ks = self.mapkeys(m) if isinstance(m, MapV) else None
        if ks is None: return None
        def at(i):
            if i.key is None: return len(ks)
            return ks.index(i.key.lit()) if i.has.kind == 'T' and i.key.lit() in ks else None
        i, j = at(a), at(b)
        return (a.lv, ks[i:j]) if i is not None and j is not None and i <= j else None
    def range_(self, a, b):
        """container, first position, number of elements of [a, b)"""
        (sl, sp), (el, ep) = self.itloc(a), self.itloc(b)
        if sl is None or el is None: return None
        n = (ep - sp).num()
        return (sl, sp, n) if isinstance(n, int) and n <= 4096 else None
    def elems(self, a, b, st):
        m = self.maprange(a, b, st)
        if m is not None: return [Tup([Str(k), self.rd(st, LVal(m[0].cell, m[0].path + (('m', Str(k)),)))]) for k in m[1]]
        r = self.range_(a, b)
        if r is None: return None
        src = self.rd(st, r[0])
        if isinstance(src, Top): return None
        return [self.elemof(src, r[1] + i) for i in range(r[2])]
    def callf(self, f, xs, st):
        """result of calling the callable f on values or places"""
        if isinstance(f, LVal) and not isinstance(self.rd(st, f), (Vec, Mat, P)): f = self.rd(st, f)
        if isinstance(f, Lam): return self.lamcall(f, list(xs), st)
        if isinstance(f, FnRef):
            fd = self.prog.func({'sig': f.node.get('sig') or None}) or self.prog.fn(f.node['qn'])
            if fd: return self.call(fd, list(xs), None, st)
        if isinstance(f, Opq) and f.tag == 'obj' and str(f.args[0]).startswith('std::'):
            op = {'std::plus': '+', 'std::multiplies': '*', 'std::minus': '-', 'std::divides': '/', 'std::equal_to': '==', 'std::not_equal_to': '!=', 'std::less': '<', 'std::greater': '>', 'std::less_equal': '<=', 'std::greater_equal': '>=', 'std::logical_and': '&&', 'std::logical_or': '||'}.get(re.sub(r'<.*', '', str(f.args[0])))
            vs = [self.rd(st, x) if isinstance(x, LVal) else x for x in xs]
            if op == '&&': return cand(self.Cn(vs[0]), self.Cn(vs[1]))
            if op == '||': return cor(self.Cn(vs[0]), self.Cn(vs[1]))
            if op and len(vs) == 2: return self.binop(op, vs[0], vs[1], {'t': 'double' if op == '/' else ''}, st)
        return Top('call of an unknown callable')
    def eqv(self, a, b, st): return self.Cn(self.binop('==', a, b, {'t': 'bool'}, st))
    def pick(self, cs, lv, sp, n):
        """position of the first element whose condition holds, else the end"""
        r = Iter(lv, sp + n)
        for i in range(n - 1, -1, -1):
            if cs[i].kind == 'T': r = Iter(lv, sp + i)
            elif cs[i].kind != 'F': r = vite(cs[i], Iter(lv, sp + i), r)
        return r
    # ---- searching ----
    def f_find(self, e, st):
        a = self.args(e, st)
        if len(a) != 3: return NotImplemented
        r = self.range_(a[0], a[1]); xs = self.elems(a[0], a[1], st)
        if xs is None: return NotImplemented
        return self.pick([self.simpc(self.eqv(x, a[2], st), st) for x in xs], r[0], r[1], r[2])
    def find_if_(self, e, st, want):
        a = self.args(e, st); r = self.range_(a[0], a[1]); xs = self.elems(a[0], a[1], st)
        if xs is None: return NotImplemented
        cs = [self.simpc(self.Cn(self.callf(a[2], [x], st)), st) for x in xs]
        return self.pick(cs if want else [cnot(c) for c in cs], r[0], r[1], r[2])
    def f_find_if(self, e, st): return self.find_if_(e, st, True)
    def f_find_if_not(self, e, st): return self.find_if_(e, st, False)
    def conds(self, e, st):
        a = self.args(e, st)
        if len(a) != 3: return None
        xs = self.elems(a[0], a[1], st)
        return None if xs is None else [self.Cn(self.callf(a[2], [x], st)) for x in xs]
    def f_any_of(self, e, st):
        c = self.conds(e, st); return NotImplemented if c is None else cor(*c) if c else FALSE
    def f_all_of(self, e, st):
        c = self.conds(e, st); return NotImplemented if c is None else cand(*c) if c else TRUE
    def f_none_of(self, e, st):
        c = self.conds(e, st); return NotImplemented if c is None else cnot(cor(*c)) if c else TRUE
    def f_count_if(self, e, st):
        c = self.conds(e, st)
        if c is None: return NotImplemented
        t = ZERO
        for x in c: t = t + iv(x)
        return t
    def f_count(self, e, st):
        a = self.args(e, st); xs = self.elems(a[0], a[1], st) if len(a) == 3 else None
        if xs is None: return NotImplemented
        t = ZERO
        for x in xs: t = t + iv(self.eqv(x, a[2], st))
        return t
    def f_equal(self, e, st):
        a = self.args(e, st); xs = self.elems(a[0], a[1], st)
        l, p = self.itloc(a[2]) if len(a) in (3, 4) else (None, None)
        if xs is None or l is None: return NotImplemented
        ys = self.rd(st, l)
        if len(a) == 4:
            q = self.itloc(a[3])[1]
            if q is None or (q - p).num() is None: return NotImplemented
            if (q - p).num() != len(xs): return FALSE
        return cand(*[self.eqv(x, self.elemof(ys, p + i), st) for i, x in enumerate(xs)]) if xs else TRUE
    def f_distance(self, e, st):
        a = self.args(e, st); return self.binop('-', a[1], a[0], {'t': 'long'}, st)
    def f_next(self, e, st):
        a = self.args(e, st); return self.binop('+', a[0], a[1] if len(a) > 1 else ONE, {'t': ''}, st)
    def f_prev(self, e, st):
        a = self.args(e, st); return self.binop('-', a[0], a[1] if len(a) > 1 else ONE, {'t': ''}, st)
    def f_advance(self, e, st):
        lv = self.lv(e['args'][0], st); n = self.ev(e['args'][1], st)
        self.wr(st, lv, self.binop('+', self.rd(st, lv), n, {'t': ''}, st)); return UNDEF
    # ---- reductions ----
    def f_accumulate(self, e, st):
        a = self.args(e, st); xs = self.elems(a[0], a[1], st)
        if xs is None: return NotImplemented
        v = a[2]; t = e['args'][2].get('t', '')
        for x in xs:
            v = self.callf(a[3], [v, x], st) if len(a) > 3 else self.binop('+', v, x, {'t': t}, st)
            if isIntT(t) and isinstance(v, P) and v.num() is not None and v.num() != int(v.num()): v = toP(int(v.num()))
        return v
    f_reduce = f_accumulate
    def f_inner_product(self, e, st):
        a = self.args(e, st); xs = self.elems(a[0], a[1], st); l, p = self.itloc(a[2])
        if xs is None or l is None or len(a) != 4: return NotImplemented
        ys = self.rd(st, l); v = a[3]
        for i, x in enumerate(xs): v = self.binop('+', v, self.binop('*', x, self.elemof(ys, p + i), {'t': ''}, st), {'t': ''}, st)
        return v
    def extreme(self, e, st, big):
        a = self.args(e, st); r = self.range_(a[0], a[1]) if len(a) == 2 else None; xs = self.elems(a[0], a[1], st) if r else None
        if xs is None or not all(isinstance(x, P) and x.num() is not None for x in xs): return NotImplemented
        if not xs: return a[1]
        ns = [x.num() for x in xs]; return Iter(r[0], r[1] + ns.index(max(ns) if big else min(ns)))
    def f_max_element(self, e, st): return self.extreme(e, st, True)
    def f_min_element(self, e, st): return self.extreme(e, st, False)
    def f_clamp(self, e, st):
        a = self.args(e, st)
        if len(a) != 3 or not all(isinstance(x, P) for x in a): return NotImplemented
        return -self.rmin(-self.rmin(a[0], a[2], e), -a[1], e)
    # ---- writing ----
    def f_for_each(self, e, st):
        a = self.args(e, st); r = self.range_(a[0], a[1]) if len(a) == 3 else None
        m = self.maprange(a[0], a[1], st) if len(a) == 3 else None
        if m is not None:
            for k in m[1]:
                at = LVal(m[0].cell, m[0].path + (('m', Str(k)),)); val = self.rd(st, at); c = self.new(st, Tup([Str(k), val]))
                self.callf(a[2], [c], st)
                n = self.rd(st, c)
                if isinstance(n, Tup) and n.items[1] is not val: self.wr(st, at, n.items[1])
            return a[2]
        if r is None or not isinstance(self.rd(st, r[0]), (Vec, Mat)): return NotImplemented
        v = self.rd(st, r[0])
        if isinstance(v, Vec) and v.filt: return NotImplemented
        for i in range(r[2]): self.callf(a[2], [LVal(r[0].cell, r[0].path + (('x', r[1] + i),))], st)
        return a[2]
    def f_iota(self, e, st):
        a = self.args(e, st); (sl, sp), (el, ep) = self.itloc(a[0]), self.itloc(a[1])
        if sl is None or el is None: return NotImplemented
        v = self.P(a[2]); self.fillrange(st, sl, sp, ep - sp, lambda k: v + k, e, 'iota'); return UNDEF
    def f_fill_n(self, e, st):
        a = self.args(e, st); sl, sp = self.itloc(a[0])
        if sl is None: return NotImplemented
        n = self.P(a[1]); self.fillrange(st, sl, sp, n, lambda k: a[2], e, 'fill'); return Iter(sl, sp + n)
    def f_generate(self, e, st):
        a = self.args(e, st); r = self.range_(a[0], a[1])
        if r is None: return NotImplemented
        l = [self.callf(a[2], [], st) for i in range(r[2])]
        v = listV(l); self.fillrange(st, r[0], r[1], toP(r[2]), lambda k: v.get(k), e, 'generate'); return UNDEF
    def rewrite(self, r, l, st, e, what):
        v = listV(l)
        if l: self.fillrange(st, r[0], r[1], toP(len(l)), lambda k: v.get(k), e, what)
    def f_reverse(self, e, st):
        a = self.args(e, st); r = self.range_(a[0], a[1]); xs = self.elems(a[0], a[1], st)
        if xs is None: return NotImplemented
        self.rewrite(r, xs[::-1], st, e, 'reverse'); return UNDEF
    def f_rotate(self, e, st):
        a = self.args(e, st); r = self.range_(a[0], a[2]); xs = self.elems(a[0], a[2], st); k = self.range_(a[0], a[1])
        if xs is None or k is None: return NotImplemented
        self.rewrite(r, xs[k[2]:] + xs[:k[2]], st, e, 'rotate'); return Iter(r[0], r[1] + (r[2] - k[2]))
    def f_sort(self, e, st):
        a = self.args(e, st); r = self.range_(a[0], a[1]); xs = self.elems(a[0], a[1], st)
        if xs is None or len(a) != 2: return NotImplemented
        ks = [x.num() if isinstance(x, P) else x.lit() if isinstance(x, Str) else None for x in xs]
        if any(k is None for k in ks): return NotImplemented
        o = sorted(range(len(xs)), key=lambda i: ks[i]); self.rewrite(r, [xs[i] for i in o], st, e, 'sort'); return UNDEF
    f_stable_sort = f_sort
    def f_copy_if(self, e, st):
        a = self.args(e, st); xs = self.elems(a[0], a[1], st)
        if xs is None: return NotImplemented
        cs = [self.simpc(self.Cn(self.callf(a[3], [x], st)), st) for x in xs]
        if any(c.kind not in 'TF' for c in cs): return NotImplemented
        return self.deliver([x for x, c in zip(xs, cs) if c.kind == 'T'], a[2], st, e)
    def removed(self, e, st, drop):
        """elements kept are moved to the front; position after them"""
        a = self.args(e, st); r = self.range_(a[0], a[1]); xs = self.elems(a[0], a[1], st) if r is not None else None
        if xs is None: return NotImplemented
        cs = [self.simpc(drop(a, x), st) for x in xs]
        if any(c.kind not in 'TF' for c in cs): return NotImplemented
        l = [x for x, c in zip(xs, cs) if c.kind == 'F']
        self.rewrite((r[0], toP(r[1]) if isinstance(r[1], int) else r[1]), l, st, e, 'remove')
        return Iter(r[0], r[1] + len(l))
    def f_remove_if(self, e, st): return self.removed(e, st, lambda a, x: self.Cn(self.callf(a[2], [x], st)))
    def f_remove(self, e, st): return self.removed(e, st, lambda a, x: self.eqv(x, a[2], st))
    def f_partition(self, e, st):
        a = self.args(e, st); r = self.range_(a[0], a[1]); xs = self.elems(a[0], a[1], st) if r is not None else None
        if xs is None: return NotImplemented
        cs = [self.simpc(self.Cn(self.callf(a[2], [x], st)), st) for x in xs]
        if any(c.kind not in 'TF' for c in cs): return NotImplemented
        l = [x for x, c in zip(xs, cs) if c.kind == 'T']
        self.rewrite(r, l + [x for x, c in zip(xs, cs) if c.kind == 'F'], st, e, 'partition'); return Iter(r[0], r[1] + len(l))
    f_stable_partition = f_partition
    def deliver(self, l, dst, st, e):
        if isinstance(dst, Opq) and dst.tag == 'back_inserter':
            lv = dst.args[0]
            for x in l:
                v = self.rd(st, lv)
                self.wr(st, lv, self.push(v, self.conv(x, v.et) if isinstance(v, Vec) and v.et else x))
            return UNDEF
        dl, dp = self.itloc(dst)
        if dl is None: return NotImplemented
        self.rewrite((dl, dp, len(l)), l, st, e, 'copy'); return Iter(dl, dp + len(l))
    # ---- tuples ----
    def f_tie(self, e, st): return Tup([self.rd(st, self.lv(a, st)) for a in e['args']])
    def f_apply(self, e, st):
        a = self.args(e, st)
        return self.callf(a[0], a[1].items, st) if isinstance(a[1], Tup) else NotImplemented
    def f_ref(self, e, st): return self.args(e, st)[0]
    f_cref = f_ref
    def f_exchange(self, e, st):
        lv = self.lv(e['args'][0], st); o = self.rd(st, lv); self.wr(st, lv, self.conv(self.ev(e['args'][1], st), e['args'][0].get('t', ''))); return o
    # ---- casadi ----
    def splits(self, e, st, vert):
        a = self.args(e, st); m = self.asmat_(a[0])
        if not isinstance(m, Mat): return m
        n = (m.rows if vert else m.cols).num()
        if not isinstance(n, int): return Top('split of symbolic size')
        if len(a) == 1: cut = list(range(n + 1))
        elif isinstance(a[1], Vec):
            l = a[1].tolist()
            if l is None or any(not isinstance(x.num(), int) for x in l): return Top('split')
            cut = [x.num() for x in l]
            if cut[-1] != n: cut.append(n)
        else:
            k = self.P(a[1]).num()
            if not isinstance(k, int) or k <= 0: return Top('split')
            cut = list(range(0, n, k)) + [n]
        def part(lo, hi): return Mat(hi - lo, m.cols, lambda r, c: m.get(r + lo, c)) if vert else Mat(m.rows, hi - lo, lambda r, c: m.get(r, c + lo))
        return listV([part(x, y) for x, y in zip(cut, cut[1:])], 'casadi::SX')
    def f_vertsplit(self, e, st): return self.splits(e, st, True)
    def f_horzsplit(self, e, st): return self.splits(e, st, False)
    def asmat_(self, v):
        import lib
        return lib.asmat(self, v)
    def f_veccat(self, e, st):
        import lib
        ms = self.mats(e, st)
        if isinstance(ms, Vec): return Top('concatenation')
        return lib.vconcat([Mat(m.size(), 1, lambda i, j, m=m: m.lin(i)) if isinstance(m, Mat) else m for m in ms])
    def f_diagcat(self, e, st):
        ms = self.mats(e, st)
        if isinstance(ms, Vec) or any(isinstance(m, Top) for m in ms): return Top('diagcat')
        R = C_ = ZERO; pos = []
        for m in ms: pos.append((R, C_, m)); R = R + m.rows; C_ = C_ + m.cols
        def fn(r, c):
            s = ZERO
            for a, b, m in pos:
                g = cand(simpC(cleq(a, r), GLOBAL), simpC(clt(r, a + m.rows), GLOBAL), simpC(cleq(b, c), GLOBAL), simpC(clt(c, b + m.cols), GLOBAL))
                if g.kind == 'F': continue
                s = s + (m.get(r - a, c - b) if g.kind == 'T' else iv(g) * m.get(r - a, c - b))
            return s
        return Mat(R, C_, fn)
    f_blkdiag = f_diagcat
    def f_sparsify(self, e, st):
        a = self.args(e, st); m = self.asmat_(a[0]); tol = self.P(a[1]).num() if len(a) > 1 and not isinstance(a[1], Top) else 0
        if tol == 0 or isinstance(m, Top): return m                            # only what is exactly zero is dropped
        if tol is None: return Top('sparsify')
        def fn(r, c):
            p = m.get(r, c); at = subatoms(p, lambda a: a.kind == 'ent')
            if p.num() is not None: return p if abs(p.num()) > tol else ZERO
            if at and all(str(a.args[0]).startswith(('args:', 'wr:')) for a in at):   # numbers
                return p * (ONE - iv(cand(cnot(cb('rlt', toP(tol) - p)), cnot(cb('rlt', p + toP(tol))))))
            if tol > Fraction(1, 10 ** 9): raise Give('sparsify with a tolerance')
            return p                                                           # symbolic expressions are kept
        return Mat(m.rows, m.cols, fn, m.kind)
    def f_rank1(self, e, st):
        a = [self.asmat_(x) for x in self.args(e, st)]
        if any(isinstance(x, Top) for x in a): return Top('rank1')
        A_, k, x, y = a
        return Mat(A_.rows, A_.cols, lambda r, c: A_.get(r, c) + k.lin(ZERO) * x.lin(r) * y.lin(c))
    def f_blockcat(self, e, st):
        import lib
        a = self.args(e, st)
        if len(a) == 4:
            ms = [self.asmat_(x) for x in a]
            if any(isinstance(m, Top) for m in ms): return Top('blockcat')
            rows = [ms[:2], ms[2:]]
        else:
            l = a[0].tolist() if isinstance(a[0], Vec) else None
            if l is None or any(not isinstance(x, Vec) or x.tolist() is None for x in l): return Top('blockcat')
            rows = [[self.asmat_(y) for y in x.tolist()] for x in l]
        hs = []
        for r in rows:
            h = lib.vconcat([transp(m) if isinstance(m, Mat) else m for m in r])
            hs.append(transp(h) if isinstance(h, Mat) else h)
        return lib.vconcat(hs)
    def f_repmat(self, e, st):
        a = self.args(e, st); m = self.asmat_(a[0])
        if not isinstance(m, Mat): return m
        n = self.P(a[1]); k = self.P(a[2]) if len(a) > 2 else ONE
        return Mat(m.rows * n, m.cols * k, lambda r, c: m.get(pmod(r, m.rows), pmod(c, m.cols)))
    def f_kron(self, e, st):
        a = self.args(e, st); x, y = self.asmat_(a[0]), self.asmat_(a[1])
        if not isinstance(x, Mat) or not isinstance(y, Mat): return Top('kron')
        return Mat(x.rows * y.rows, x.cols * y.cols, lambda r, c: x.get(pdiv(r, y.rows), pdiv(c, y.cols)) * y.get(pmod(r, y.rows), pmod(c, y.cols)))
    def f_bilin(self, e, st):
        a = self.args(e, st); A_ = self.asmat_(a[0]); x = self.asmat_(a[1]); y = self.asmat_(a[2]) if len(a) > 2 else x
        if any(isinstance(z, Top) for z in (A_, x, y)): return Top('bilin')
        return mm(transp(x), mm(A_, y))
    def tri(self, e, st, keep):
        m = self.asmat_(self.args(e, st)[0])
        return Mat(m.rows, m.cols, lambda r, c: iv(keep(r, c)) * m.get(r, c)) if isinstance(m, Mat) else m
    def f_triu(self, e, st): return self.tri(e, st, lambda r, c: cleq(r, c))
    def f_tril(self, e, st): return self.tri(e, st, lambda r, c: cleq(c, r))
    def sym2(self, e, st, up):
        m = self.asmat_(self.args(e, st)[0])
        if not isinstance(m, Mat): return m
        def fn(r, c):
            g = simpC(cleq(r, c) if up else cleq(c, r), GLOBAL)
            return m.get(r, c) if g.kind == 'T' else m.get(c, r) if g.kind == 'F' else ite(g, m.get(r, c), m.get(c, r))
        return Mat(m.rows, m.cols, fn)
    def f_triu2symm(self, e, st): return self.sym2(e, st, True)
    def f_tril2symm(self, e, st): return self.sym2(e, st, False)
    def f_cumsum(self, e, st):
        m = self.asmat_(self.args(e, st)[0])
        if not isinstance(m, Mat) or not isinstance(m.rows.num(), int): return Top('cumsum')
        return Mat(m.rows, m.cols, lambda r, c: sumrange(r + 1, lambda k: m.get(k, c)))
    def f_norm_fro(self, e, st):
        m = self.asmat_(self.args(e, st)[0])
        return scalM(mkfn('sqrt', sumrange(m.size(), lambda k: m.lin(k) * m.lin(k)))) if isinstance(m, Mat) else m
    def f_times(self, e, st):
        a = self.args(e, st); return self.binop('*', a[0], a[1], {'t': ''}, st)
    def f_plus(self, e, st):
        a = self.args(e, st); return self.binop('+', a[0], a[1], {'t': ''}, st)
    def f_minus(self, e, st):
        a = self.args(e, st); return self.binop('-', a[0], a[1], {'t': ''}, st)
    def f_rdivide(self, e, st):
        a = self.args(e, st); return self.binop('/', a[0], a[1], {'t': 'double'}, st)
    def f_mac(self, e, st):
        a = [self.asmat_(x) for x in self.args(e, st)]
        if any(isinstance(x, Top) for x in a): return Top('mac')
        return self.matop('+', mm(a[0], a[1]), a[2])
    def f_hypot(self, e, st):
        a = [self.P(x) for x in self.args(e, st)]; t = ZERO
        for x in a: t = t + x * x
        return mkfn('sqrt', t)
