"""Abstract Robot object, families of symbolic matrices, and comparison of registered
functions with their specification."""
import re, math
from terms import *
from values import *
import terms as T
import interp as I
from interp import *
from lib import *

STRD = {'P', 'P_SEA', 'R', 'R_SEA'}
T.STRDOMS['1*ent(jt'] = STRD

def strdoms():
    T.STRDOMS['1*ent(jt'] = STRD

# families whose entries are functions of several base variables
KIN = {'q', 'par_DHtable', 'par_world2L0'}
DEPS = {
    'model:T_#': {'q', 'par_DHtable', 'par_world2L0'}, 'model:T_0_#': KIN | {'par_Ln2EE'}, 'model:J_#': KIN | {'par_Ln2EE'},
    'model:J_cm_#': KIN | {'par_DYN'}, 'model:M': KIN | {'par_DYN'}, 'model:C': KIN | {'par_DYN', 'dq'}, 'model:C_std': KIN | {'par_DYN', 'dq'},
    'model:G': KIN | {'par_DYN', 'par_gravity'}, 'model:J_ee_dot': KIN | {'par_Ln2EE', 'dq'},
    'model:dl': {'dq', 'par_Dl'}, 'model:k': {'q', 'x', 'par_K'}, 'model:d': {'dq', 'dx', 'par_D'}, 'model:dm': {'dx', 'par_Dm'}, 'model:Mm': {'par_Mm'},
    'model:K#': {'par_K'}, 'model:D#': {'par_D'}, 'model:Dm#': {'par_Dm'}, 'model:Dl#': {'par_Dl'},
}
_ldep = {}
def letdeps(lid):
    r = _ldep.get(lid)
    if r is None:
        _ldep[lid] = set()
        b = LETDEF[lid][0]; r = set()
        for a in subatoms(b, lambda a: a.kind in ('ent', 'let', 'top', '$', 'rec', 'fn')):
            if a.kind == 'ent': r |= entdeps(a.args[0])
            elif a.kind == 'let': r |= letdeps(a.args[0])
            elif a.kind == 'fn' and (str(a.args[0]).startswith('inv:') or str(a.args[0]) not in KNOWNFN): r.add('*')
            elif a.kind in ('top', '$', 'rec'): r.add('*')
        _ldep[lid] = r
    return r
KNOWNFN = T.NUMFN
def entdeps(fam):
    d = DEPS.get(fam)
    if d is not None: return {'model:' + x for x in d}
    return {fam}
def depends(a, fam):
    k = a.kind
    if k == 'ent': return fam in entdeps(a.args[0]) if a.args[0] in DEPS else False
    if k == 'let':
        d = letdeps(a.args[0]); return '*' in d or fam in d
    if k == 'D':
        while a.kind == 'D': a = a.args[0]
        return depends(a, fam)
    return True
T.DEPENDS[0] = depends

def _letrebuild(a, args):
    return mklet(args[0], *args[1:])
LETSYM = set()
def mklet(lid, *args):
    args = [toP(x) for x in args]
    if lid in LETSYM and len(args) >= 2 and args[1].key < args[0].key: args[0], args[1] = args[1], args[0]
    if lid in LETZERO: return ZERO
    return toP(mkA('let', lid, *args))
LETZERO = set()
T.REBUILD['let'] = _letrebuild
LETBIG = [24]
def letmat(m):
    """entries of m named when they are large, so that derivatives stay small"""
    if m.tag == 'let': return m
    small = {}
    numeric = isinstance(m.rows.num(), int) and isinstance(m.cols.num(), int)
    st = {}
    def fn(r, c):
        if r.num() is not None and c.num() is not None and numeric:
            b = m.get(r, c)
            if len(b.d) <= LETBIG[0]: return b
            lid = 'L' + I.hashlib_(b.key)
            LETDEF[lid] = (b, [])
            return mklet(lid)
        if 'g' not in st:
            if m.rows.num() == 1: rs = ZERO
            else:
                rs = sym(fresh('r')); with_facts(cle(-rs), clt(rs, m.rows))
            if m.cols.num() == 1: cs = ZERO
            else:
                cs = sym(fresh('c')); with_facts(cle(-cs), clt(cs, m.cols))
            b = simp(m.get(rs, cs), GLOBAL)
            if len(b.d) <= LETBIG[0]: st['g'] = None
            else:
                ps = [next(iter(x.fv())) for x in (rs, cs) if x.fv()]
                lid, extra = I.letP(b, ps)
                if len(ps) == 2:
                    sw = subst(b, {ps[0]: sym('@t1'), ps[1]: sym('@t2')}); sw = subst(sw, {'@t1': sym(ps[1]), '@t2': sym(ps[0])})
                    if sw == b or prove_zero(sw - b, GLOBAL)[0]: LETSYM.add(lid)
                st['g'] = (lid, extra, bool(rs.fv()), bool(cs.fv()))
        if st['g'] is None: return m.get(r, c)
        lid, extra, hr, hc = st['g']
        return mklet(lid, *([r] if hr else []), *([c] if hc else []), *[sym(x) for x in extra])
    return Mat(m.rows, m.cols, fn, m.kind, 'let')

class RMachine(Machine):
    """machine with naming of large differentiated expressions"""
    def f_jacobian(self, e, st):
        a = self.args(e, st); y = asmat(self, a[0]); x = asmat(self, a[1])
        for z in (y, x):
            if isinstance(z, Top): return z
        return jac(y, x)
    def f_jtimes(self, e, st):
        a = self.args(e, st); y = asmat(self, a[0]); x = asmat(self, a[1]); v = asmat(self, a[2])
        for z in (y, x, v):
            if isinstance(z, Top): return z
        if len(a) > 3 and self.Cn(a[3]).kind == 'T': 
            J = jac(y, x); return Mat(x.size(), 1, lambda r, c: sumrange(y.size(), lambda k: J.get(k, r) * v.lin(k)))
        return jtimes(y, x, v)
def dvar(x, c):
    va = varatom(x.lin(c))
    if va is None: raise Give('derivative with respect to a non-variable: %r' % (x.lin(c),))
    return va
def jac(y, x):
    y = letmat(y)
    return Mat(y.size(), x.size(), lambda r, c: deriv(y.lin(r), *dvar(x, c)))
def jtimes(y, x, v):
    y = letmat(y)
    return Mat(y.rows, y.cols, lambda r, c: sumrange(x.size(), lambda k: deriv(y.get(r, c), *dvar(x, k)) * v.lin(k)))

# ---------------- robot object ----------------
class World:
    """configuration of an analysis: n etc. symbolic (parametric) or integers (instance)"""
    def __init__(self, prog, n=None, elastic=None, orders=None, hooks=None, facts=True):
        self.prog = prog; self.param = n is None
        self.n = sym('n') if n is None else toP(n)
        self.elastic = elastic
        self.nE = sym('nE') if n is None else toP(sum(elastic) if elastic else 0)
        od = orders or {}
        self.orders = {k: (sym(k) if n is None and k not in od else toP(od.get(k, 2))) for k in ('K_order', 'D_order', 'Dl_order', 'Dm_order')}
        if self.param and facts:
            with_facts(cleq(ONE, self.n), cleq(ZERO, self.nE), cleq(self.nE, self.n), *[cleq(ONE if (k in od and od[k] == 'pos') or True else ZERO, v) for k, v in self.orders.items()])
        self.m = RMachine(prog, {})
        self.reads = set(); self.unknown = []
        self.regs = []
        h = self.m.hooks
        h['fn:thunder_ns::Robot::add_function'] = self.h_add
        h['fn:thunder_ns::Robot::obtain_symb_parameters'] = self.h_obt
        h['mapcount'] = self.h_count
        if hooks: h.update(hooks)
        prog.cur = lambda: self.m.callstack[-1].get('unit') if self.m.callstack else None
        self.st = State()
        self.robot = self.m.new(self.st, self.mkrobot())
    def dims(self, fam):
        n, nE, o = self.n, self.nE, self.orders
        t = {'q': n, 'dq': n, 'ddq': n, 'd3q': n, 'd4q': n, 'dqr': n, 'ddqr': n, 'x': nE, 'dx': nE, 'ddx': nE, 'ddxr': nE, 'par_Mm': nE, 'w': toP(6),
             'par_DHtable': 4 * n, 'par_world2L0': toP(6), 'par_Ln2EE': toP(6), 'par_gravity': toP(3), 'par_DYN': 10 * n, 'par_REG': 10 * n,
             'par_Dl': n * o['Dl_order'], 'par_K': nE * o['K_order'], 'par_D': nE * o['D_order'], 'par_Dm': nE * o['Dm_order']}
        if fam in t: return t[fam], ONE
        f = {'T_#': (4, 4), 'T_0_#': (4, 4), 'J_#': (6, n), 'J_cm_#': (6, n), 'M': (n, n), 'C': (n, n), 'C_std': (n, n), 'G': (n, 1),
             'J_ee_dot': (6, n), 'dl': (n, 1), 'k': (nE, 1), 'd': (nE, 1), 'dm': (nE, 1), 'Mm': (nE, nE), 'K#': (nE, nE), 'D#': (nE, nE), 'Dm#': (nE, nE), 'Dl#': (n, n)}
        return tuple(toP(x) for x in f[fam]) if fam in f else None
    PATS = [('T_0_#', r'T_0_(\d+)'), ('J_cm_#', r'J_cm_(\d+)'), ('J_#', r'J_(\d+)'), ('T_#', r'T_(\d+)'), ('K#', r'K(\d+)'), ('Dl#', r'Dl(\d+)'), ('Dm#', r'Dm(\d+)'), ('D#', r'D(\d+)')]
    def keyfam(self, k):
        """(family, [index]) of a model key"""
        l = k.lit()
        if l is not None:
            if l == 'T_0_ee': return 'T_0_#', [self.n + 1]
            if l == 'J_ee': return 'J_#', [self.n + 1]
            for f, rx in self.PATS:
                m = re.fullmatch(rx, l)
                if m: return f, [toP(int(m.group(1)))]
            return l, []
        if all(isinstance(p, str) or p[0] == 'int' for p in k.parts):
            return ''.join(p if isinstance(p, str) else '#' for p in k.parts), [p[1] for p in k.parts if not isinstance(p, str)]
        return None, []
    def ent(self, fam, *idx): return ent('model:' + fam, *idx)
    def mbase(self, k):
        f, idx = self.keyfam(k)
        if f is None: return Top('model key %r' % k)
        d = self.dims(f)
        self.reads.add((f, repr(k)))
        if d is None:
            self.unknown.append(repr(k)); return Top('model entry %r is never registered' % k)
        return self.mat(f, idx)
    def mat(self, f, idx=()):
        d = self.dims(f); idx = [toP(i) for i in idx]
        if d[1].num() == 1 and not idx and f not in ('G', 'dl', 'k', 'd', 'dm'): return Mat(d[0], 1, lambda r, c: self.ent(f, r))
        if d[1].num() == 1: return Mat(d[0], 1, lambda r, c: self.ent(f, *idx, r))
        return Mat(d[0], d[1], lambda r, c: self.ent(f, *idx, r, c))
    symb = None
    def vecbase(self, pre):
        def f(k):
            fam, idx = self.keyfam(k)
            if pre == 'symb' and self.symb and fam in self.symb: return listV([toP(x) for x in self.symb[fam]], 'int')
            d = self.dims(fam) if fam else None
            if d is None: return Top('%s entry %r' % (pre, k))
            return Vec(d[0], lambda i: ent(pre + ':' + fam, i), 'int')
        return f
    def argbase(self, k):
        fam, idx = self.keyfam(k)
        d = self.dims(fam) if fam else None
        if d is None: return Top('args entry %r' % k)
        return Mat(d[0], 1, lambda r, c: ent('args:' + fam, r))
    def mkrobot(self):
        n = self.n
        def default(f):
            if f == 'numJoints': return n
            if f == 'numElasticJoints': return self.nE
            if f == 'ELASTIC': return (TRUE if self.elastic and any(self.elastic) else FALSE) if not self.param else cb('ELASTIC')
            if f in self.orders: return self.orders[f]
            if f == 'jointsType': return Vec(n, lambda k: Str(('s', mkA('ent', 'jt', k))), 'std::basic_string<char>')
            if f == 'isElasticJoint':
                if not self.param:
                    el = list(self.elastic or [0] * n.num())
                    return listV([toP(x) for x in el], 'int')
                return Vec(n, lambda k: ent('isE', k), 'int')
            if f == 'model': return MapV(self.mbase, (), 'model')
            if f == 'symb': return MapV(self.vecbase('symb'), (), 'symb')
            if f == 'args': return MapV(self.argbase, (), 'args')
            if f in ('fun_args', 'fun_descr', 'casadi_fun'): return MapV(lambda k: Top(f), (), f)
            if f == 'STD_PAR_LINK': return toP(10)
            rec = self.prog.record('thunder_ns::Robot')
            for fl in rec['fields'] if rec else []:
                if fl['name'] == f:
                    t = fl['t']
                    if isIntT(t): return sym('field:' + f) if strip(t) != 'bool' else cb('field', f)
                    if isFltT(t): return sym('field:' + f)
                    if isStrT(t): return Str(('s', mkA('sym', 'field:' + f)))
            return Top('robot field ' + f)
        return Obj('thunder_ns::Robot', {}, default)
    # hooks
    def h_count(self, m, mv, k, lv, st, e):
        if isinstance(mv, MapV) and mv.name == 'model':
            self.m.emit('count', {'key': k}, st, e); return ONE
        return NotImplemented
    def h_add(self, m, f, args, this, st):
        v = [m.ev(a, st) if isinstance(a, dict) else a for a in args]
        e = args[0] if args and isinstance(args[0], dict) else None
        x = m.conv(v[1], 'casadi::Matrix<') if len(v) > 1 else None
        if not isinstance(v[0], Str) or self.keyfam(v[0])[0] is None: self.unknown.append('name of a registered function: %r' % (v[0],))
        m.emit('addfn', {'key': v[0], 'val': x, 'args': v[2] if len(v) > 2 else None}, st, e)
        return ONE
    def h_obt(self, m, f, args, this, st):
        v = [m.ev(a, st) if isinstance(a, dict) else a for a in args]
        def lst(x):
            l = x.tolist() if isinstance(x, Vec) else None
            return tuple(l) if l is not None else None
        return Opq('arglist', lst(v[0]) if v else (), lst(v[1]) if len(v) > 1 else ())
    def run(self, qn, args=None, nargs=()):
        f = self.prog.fn(qn)
        if f is None: raise Missing(qn)
        st = self.st
        a = [self.robot] + list(nargs) if args is None else args
        r = self.m.call(f, a, None, st)
        return r
class Missing(Exception): pass

def registered(w, fam):
    """events registering a function of this family, with their index expression"""
    out = []
    for ev in w.m.events:
        if ev.kind != 'addfn': continue
        k = ev.d['key']
        if isinstance(k, VIte) or not isinstance(k, Str): continue
        f, idx = w.keyfam(k)
        if f == fam: out.append((ev, idx))
    return out

def at_index(w, ev, idx, xs):
    """(guard, value, feasible) of the event for registered index xs"""
    loops = ev.loops; env = {}; conds = [ev.pc_cond() if hasattr(ev, 'pc_cond') else cand(*ev.pc)]
    eqs = [(i - x) for i, x in zip(idx, xs)]
    free = [l[0] for l in loops]
    for e in list(eqs):
        s = None
        e2 = subst(e, env)
        for v in free:
            if v in e2.fv() and v not in env:
                s = solve_lin(e2, v)
                if s is not None: env[v] = s; break
        if s is None: conds.append(ceq(e2))
    g = [subst(c, env) for c in conds]
    for v, lo, hi in loops:
        lo2, hi2 = subst(lo, env), subst(hi, env)
        if v in env: g += [cleq(lo2, env[v]), clt(env[v], hi2)]
        else:
            # last iteration wins
            env[v] = hi2 - 1; g.append(clt(lo2, hi2))
            g = [subst(c, {v: env[v]}) for c in g]
    return cand(*[simpC(c, GLOBAL) for c in g]), (substval(ev.d['val'], env) if env else ev.d['val']), env

def reg_value(w, fam, xs):
    """value registered for family fam at index xs: (Mat or None, coverage condition, events)"""
    evs = registered(w, fam)
    cur = None; cov = FALSE; used = []
    for ev, idx in evs:
        g, v, env = at_index(w, ev, idx, xs)
        if g.kind == 'F': continue
        used.append(ev)
        cur = v if cur is None else vite(g, v, cur)
        cov = cor(g, cov)
    return cur, cov, used
