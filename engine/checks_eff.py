"""C13, C14, C15, C22: effects of setters, getters, conversions and helpers, computed by value numbering, against
reference definitions."""
from checks import check
from report import Check, Ob
from eff import *
import traceback, os

RULE_EFF = ('value numbering of effects. Each function is analysed as a transformer of the object\'s stored quantities (sizes symbolic, '
            'loops summarised by their index) and the final value of every quantity and the result are compared with the reference')
VALS = [EVal(s, {}) for s in range(4)]
P_ = 'thunder_ns::Robot::'
ARGS = ['q', 'dq', 'ddq', 'd3q', 'd4q', 'dqr', 'ddqr', 'x', 'dx', 'ddx', 'ddxr', 'w', 'par_DYN', 'par_REG', 'par_Dl', 'par_K', 'par_D', 'par_Dm', 'par_Mm',
        'par_DHtable', 'par_world2L0', 'par_Ln2EE', 'par_gravity']

def loc(f): return '%s:%d' % (f['file'], f['l'])
def vec(d, nm='val'): return Mat(d, 1, lambda r, c: ent(nm, r), 'eig')

# ----- reference conversions of the inertial parameters of one link -----
def par_axis(cx, cy, cz):
    """|c|^2 E - c c^T in the order xx, xy, xz, yy, yz, zz"""
    return [cy * cy + cz * cz, -(cx * cy), -(cx * cz), cx * cx + cz * cz, -(cy * cz), cx * cx + cy * cy]
def to_reg(p):
    m, c = p[0], p[1:4]; s = par_axis(*c)
    return [m] + [m * x for x in c] + [p[4 + i] + m * s[i] for i in range(6)]
def to_dyn(p):
    m = p[0]; c = [x * mkfn('recip', m) for x in p[1:4]]; s = par_axis(*c)
    return [m] + c + [p[4 + i] - m * s[i] for i in range(6)]
def conv_mat(src, conv, n):
    """10n x 1 matrix of converted parameters"""
    def fn(r, c):
        k = r.num()
        if isinstance(k, int): b, l = toP(k // 10 * 10), k % 10
        else:
            l = k0(r)
            if l is None: raise Give('parameter index %s' % show(r))
            b = r - l
        return conv([src(b + i) for i in range(10)])[l]
    return Mat(10 * n, 1, fn, 'eig')
def k0(r):
    """constant part of 10*s + l"""
    l = r.d.get((), 0)
    return int(l) if all(int(c) % 10 == 0 for m, c in r.d.items() if m) and 0 <= l < 10 else None

def same10(got, exp, vals):
    """comparison with indices of the form 10*s + l"""
    g, e = asM(got), asM(exp)
    if g is None: return 'open', 'value is %r' % (got,)
    for x, y, w in ((g.rows, e.rows, 'rows'), (g.cols, e.cols, 'columns')):
        s, why = diffP(x, y, vals)
        if s != 'equal': return s, '%s: %s' % (w, why)
    from compare import dim_points
    worst = ('equal', '')
    for r in (points(e.rows) or dim_points(e.rows, 'i')):
        try: s, why = diffP(recipnorm(g.get(r, ZERO)), recipnorm(e.get(r, ZERO)), vals)
        except Give as ex: s, why = 'open', str(ex)
        if s == 'differs': return s, 'entry %s: %s' % (show(r), why)
        if s == 'open' and worst[0] == 'equal': worst = (s, 'entry %s: %s' % (show(r), why))
    return worst
def recipnorm(p):
    """x * recip(x) -> 1 for every x whose reciprocal occurs"""
    rs = [a for a in subatoms(p, lambda a: a.kind == 'fn' and a.args[0] == 'recip')]
    if not rs: return p
    inv = {}
    for a in rs:
        x = toP(a.args[1])
        if len(x.d) == 1:
            (m, c), = x.d.items()
            if len(m) == 1 and m[0][1] == 1: inv[m[0][0]] = (a, Fraction(1) / Fraction(c))
    out = ZERO
    for m, c in p.d.items():
        d = dict(m); k = Fraction(c)
        for b, (a, f) in inv.items():
            while d.get(b, 0) > 0 and d.get(a, 0) > 0:
                d[b] -= 1; d[a] -= 1; k *= f
        t = toP(k)
        for a, e in d.items():
            for _ in range(int(e)): t = t * toP(a)
        out = out + t
    return out

class Target:
    """one class whose setters/getters are analysed"""
    def __init__(self, prog, kind, n=None): self.prog = prog; self.kind = kind; self.n = n
    def world(self):
        w = World(self.prog, n=self.n, elastic=((0, 1, 1) * 4)[:self.n] if self.n else None, orders={'K_order': 2, 'D_order': 3, 'Dl_order': 2, 'Dm_order': 1} if self.n else None)
        if self.kind == 'gen': w.self_ = w.robot
        else: w.self_ = w.m.new(w.st, mkwrap(w))
        return w
    def fn(self, nm, nargs=None):
        l = self.prog.byqn.get((P_ if self.kind == 'gen' else 'tpl!thunder_robot::') + nm, [])
        l = [f for f in l if nargs is None or len(f['params']) == nargs]
        return l[0] if l else None
    def quantity(self, w, f, st=None):
        st = st or w.st
        if self.kind == 'gen': return w.m.rd(st, LVal(w.self_.cell, (('f', 'args'),))).get(Str(f))
        return w.m.rd(st, LVal(w.self_.cell, (('f', f),)))
    def initial(self, w, f):
        if self.kind == 'gen': return w.argbase(Str(f))
        return Mat(w.dims(f)[0], 1, lambda r, c: ent('wr:' + f, r), 'eig')
    def ini(self, w, f, r): return ent(('args:' if self.kind == 'gen' else 'wr:') + f, r)

def mkwrap(w):
    rec = w.prog.records.get('thunder_robot')
    ft = {f['name']: f['t'] for f in rec['fields']} if rec else {}
    inits = {f['name']: f.get('init') for f in rec['fields']} if rec else {}
    def default(f):
        if f == 'n_joints': return w.n
        if f == 'numElasticJoints': return w.nE
        if f in w.orders: return w.orders[f]
        if f == 'STD_PAR_LINK': return toP(10)
        if f in ('numParDYN', 'numParREG'): return 10 * w.n
        if f == 'ELASTIC': return cb('ELASTIC') if w.param else TRUE
        if f == 'robotName': return Str(('s', mkA('sym', 'ROBOT')))
        t = ft.get(f)
        if t is None: return Top('field ' + f)
        if isEig(t):
            d = w.dims(f)
            return Mat(d[0], 1, lambda r, c: ent('wr:' + f, r), 'eig') if d else Top('field ' + f)
        if isVecT(t) and f.endswith('_symb'):
            d = w.dims('par_' + f[:-5])
            return Vec(d[0], lambda i: ent('wr:' + f, i), 'int') if d else Top('field ' + f)
        return Top('field ' + f)
    return Obj('thunder_robot', {}, default)

def put(c, name, st, why, where, mode, key=None):
    c.add(Ob(name, {'equal': 'proved' if mode == 'any size' else 'bounded', 'differs': 'violation', 'open': 'open'}[st], why, where, mode, key=key or name))

def guardrun(c, name, where, mode, body):
    """runs an analysis step; an exception leaves the obligation undecided"""
    try: body()
    except (Give, Missing, AttributeError, KeyError, TypeError, IndexError, StopIteration, RecursionError, ValueError) as ex:
        if os.environ.get('VERIF_DEBUG'): traceback.print_exc()
        c.add(Ob(name, 'open', '%s: %s' % (type(ex).__name__, str(ex)[:150]), where, mode))

def setter(c, T, nm, own, nargs=1, extra=(), report=True, derived=None, mode='any size', tag=''):
    """setter of one quantity: right size stores everything and nothing else, other sizes change nothing"""
    f = T.fn(nm, nargs)
    name = tag + nm
    if f is None: c.add(Ob(name, 'open', 'setter not found', None, mode)); return
    c.funcs.add('%s (%s)' % (f['qn'], loc(f)))
    def ok():
        w = T.world(); d = w.dims(own)[0]; v = vec(d)
        r = w.m.call(f, [v] + list(extra), w.self_, w.st)
        if w.st.dead: c.add(Ob(name, 'open', 'never returns', loc(f), mode)); return
        put(c, name + ' stores every entry', *cmpd(T.quantity(w, own), v), loc(f), mode)
        for o in ARGS:
            if o == own or (derived and o in derived): continue
            st, why = cmpd(T.quantity(w, o), T.initial(w, o))
            if st != 'equal' or o == ARGS[-1]: put(c, '%s leaves %s alone' % (name, o if st != 'equal' else 'the other quantities'), st, why, loc(f), mode)
        for o, e in (derived or {}).items():
            st, why = same10(T.quantity(w, o), e(w, v), VALS) if not callable(getattr(e, 'plain', None)) else cmpd(T.quantity(w, o), e(w, v))
            put(c, '%s %s' % (name, o), st, why, loc(f), mode)
        if report: put(c, name + ' reports success', *same(r, ONE, VALS), loc(f), mode)
    def bad():
        w = T.world(); d = w.dims(own)[0]
        sz = sym(fresh('vs')); with_facts(cnot(ceqq(sz, d)), cleq(ZERO, sz)); v = vec(sz)
        r = w.m.call(f, [v] + list(extra), w.self_, w.st)
        worst = ('equal', '')
        for o in ARGS:
            st, why = cmpd(T.quantity(w, o), T.initial(w, o))
            if st == 'differs': put(c, '%s with a wrong size leaves %s alone' % (name, o), st, why, loc(f), mode)
            elif st == 'open': worst = (st, '%s: %s' % (o, why))
        put(c, name + ' with a wrong size changes nothing', *worst, loc(f), mode)
        if report: put(c, name + ' with a wrong size reports failure', *same(r, ZERO, VALS), loc(f), mode)
    guardrun(c, name, loc(f), mode, ok); guardrun(c, name + ' (wrong size)', loc(f), mode, bad)
def cmpd(a, b):
    try: return same(a, b, VALS)
    except Give as ex: return 'open', str(ex)

def getter(c, T, nm, exp, args=(), mode='any size'):
    f = T.fn(nm, len(args))
    if f is None: c.add(Ob(nm, 'open', 'getter not found', None, mode)); return
    c.funcs.add('%s (%s)' % (f['qn'], loc(f)))
    def go():
        w = T.world()
        r = w.m.call(f, list(args), w.self_, w.st)
        e = exp(w)
        put(c, '%s%s returns its quantity' % (nm, ''.join(' "%s"' % a.lit() for a in args)), *cmpd(r, e), loc(f), mode)
        for o in ARGS:
            st, why = cmpd(T.quantity(w, o), T.initial(w, o))
            if st == 'differs': put(c, '%s changes %s' % (nm, o), st, why, loc(f), mode)
    guardrun(c, nm, loc(f), mode, go)
    own = args[0].lit() if args else nm[4:]
    if T.kind == 'gen' and own.startswith('par_') and nm in ('get_arg', 'get_par_DYN', 'get_par_REG'):
        def sp():
            # a parameter file with fewer links stores only some entries of the casadi vector
            from checks_sel import SMat
            w = T.world(); m0 = T.quantity(w, own); spoiled = []
            w.m.wr(w.st, LVal(w.self_.cell, (('f', 'args'), ('m', Str(own)))), SMat(m0.rows, m0.cols, m0.fn, 'sx'))
            w.m.hooks['densify'] = lambda m: Mat(m.rows, m.cols, m.fn, m.kind)
            w.m.hooks['elements'] = lambda m, v: spoiled.append(1) if isinstance(v, SMat) else None
            w.m.call(f, list(args), w.self_, w.st)
            put(c, '%s%s returns entries that are not stored too' % (nm, ''.join(' "%s"' % a.lit() for a in args)), 'differs' if spoiled else 'equal', 'only the stored elements of a sparse vector are copied', loc(f), mode)
        guardrun(c, nm, loc(f), mode, sp)

def vecexp(fam, dim):
    def f(w): return Mat(dim(w), 1, lambda r, c: toP(mkA('ent', fam, r)))
    return f

@check('C13')
def c13(pid, prog):
    c = Check(pid, RULE_EFF)
    c.assume = ['Eigen, casadi and std operations behave as modelled in engine/lib.py', 'real arithmetic']
    for n in (None, 3, 12):
        mode = 'any size' if n is None else 'n=%d, %d elastic joints' % (n, n * 2 // 3)
        T = Target(prog, 'gen', n)
        for o in ('q', 'dq', 'dqr', 'ddqr', 'x', 'dx', 'ddx', 'ddxr'): setter(c, T, 'set_' + o, o, mode=mode)
        setter(c, T, 'set_par_DYN', 'par_DYN', mode=mode, derived={'par_REG': lambda w, v: conv_mat(lambda i: v.lin(i), to_reg, w.n)})
        setter(c, T, 'set_par_REG', 'par_REG', mode=mode, derived={'par_DYN': lambda w, v: conv_mat(lambda i: v.lin(i), to_dyn, w.n)})
        # any other method of the class named set_<quantity>
        done = {'set_' + o for o in ('q', 'dq', 'dqr', 'ddqr', 'x', 'dx', 'ddx', 'ddxr', 'par_DYN', 'par_REG', 'arg')}
        for k, l in prog.byqn.items():
            if k.startswith(P_ + 'set_') and k[len(P_):] not in done and k[len(P_) + 4:] in ARGS and len(l[0]['params']) == 1:
                setter(c, T, k[len(P_):], k[len(P_) + 4:], mode=mode)
        f = T.fn('set_arg', 2)
        if f:
            def go():
                for o in ('q', 'w', 'par_K', 'par_DYN'):
                    w = T.world(); d = w.dims(o)[0]; v = vec(d)
                    r = w.m.call(f, [Str(o), v], w.self_, w.st)
                    put(c, 'set_arg("%s") stores every entry' % o, *cmpd(T.quantity(w, o), v), loc(f), mode)
                    for p in ARGS:
                        if p == o: continue
                        st, why = cmpd(T.quantity(w, p), T.initial(w, p))
                        if st != 'equal' or p == ARGS[-1]: put(c, 'set_arg("%s") leaves %s alone' % (o, p if st != 'equal' else 'the others'), st, why, loc(f), mode)
                    put(c, 'set_arg("%s") reports success' % o, *same(r, ONE, VALS), loc(f), mode)
            guardrun(c, 'set_arg', loc(f), mode, go)
        for o in ARGS: getter(c, T, 'get_arg', (lambda o: lambda w: T.initial(w, o))(o), args=[Str(o)], mode=mode)
        getter(c, T, 'get_par_DYN', lambda w: T.initial(w, 'par_DYN'), mode=mode)
        getter(c, T, 'get_par_REG', lambda w: T.initial(w, 'par_REG'), mode=mode)
        for g, e in (('get_numJoints', lambda w: w.n), ('get_K_order', lambda w: w.orders['K_order']), ('get_D_order', lambda w: w.orders['D_order']),
                     ('get_Dl_order', lambda w: w.orders['Dl_order']), ('get_Dm_order', lambda w: w.orders['Dm_order']), ('get_numElasticJoints', lambda w: w.nE),
                     ('get_numParDYN', lambda w: 10 * w.n), ('get_numParREG', lambda w: 10 * w.n),
                     ('get_ELASTIC', lambda w: iv(w.robot_get('ELASTIC'))), ('get_isElasticJoint', lambda w: w.robot_get('isElasticJoint'))):
            getter(c, T, g, e, mode=mode)
    from checks_yaml import refresh
    refresh(c, prog, False)
    c.minimum = 20
    c.finish()
def robot_get(w, f): return w.m.rd(w.st, LVal(w.robot.cell, (('f', f),)))
World.robot_get = robot_get

WR = [o for o in ARGS]
@check('C14')
def c14(pid, prog):
    c = Check(pid, RULE_EFF)
    c.assume = ['Eigen, casadi and std operations behave as modelled in engine/lib.py', 'real arithmetic', 'placeholders of the template are analysed as the generator fills them (C19)']
    stored = template_fields(prog)
    for n in (None, 3, 12):
        mode = 'any size' if n is None else 'n=%d, %d elastic joints' % (n, n * 2 // 3)
        T = Target(prog, 'tpl', n)
        for o in ARGS:
            nm = 'set_' + o
            if T.fn(nm) is None: 
                continue
            if o in ('par_DYN', 'par_REG'):
                other = 'par_REG' if o == 'par_DYN' else 'par_DYN'
                conv = to_reg if o == 'par_DYN' else to_dyn
                setter(c, T, nm, o, 2, (TRUE,), report=False, mode=mode, derived={other: (lambda cv: lambda w, v: conv_mat(lambda i: v.lin(i), cv, w.n))(conv)}, tag='refreshing ')
                setter(c, T, nm, o, 2, (FALSE,), report=False, mode=mode, tag='not refreshing ')
            else: setter(c, T, nm, o, 1, report=False, mode=mode)
            g = 'get_' + o
            if T.fn(g): getter(c, T, g, (lambda o: lambda w: T.initial(w, o))(o), mode=mode)
        f = T.fn('setArguments', 4)
        if f:
            names = ['q', 'dq', 'dqr', 'ddqr']
            def ok():
                w = T.world(); vs = [vec(w.n, 'val' + o) for o in names]
                w.m.call(f, vs, w.self_, w.st)
                for o, v in zip(names, vs): put(c, 'setArguments stores ' + o, *cmpd(T.quantity(w, o), v), loc(f), mode)
                for o in ARGS:
                    if o in names: continue
                    st, why = cmpd(T.quantity(w, o), T.initial(w, o))
                    if st != 'equal' or o == ARGS[-1]: put(c, 'setArguments leaves %s alone' % (o if st != 'equal' else 'the others'), st, why, loc(f), mode)
            guardrun(c, 'setArguments', loc(f), mode, ok)
            for bad in names:
                def go():
                    w = T.world(); sz = sym(fresh('vs')); with_facts(cnot(ceqq(sz, w.n)), cleq(ZERO, sz))
                    w.m.call(f, [vec(sz if o == bad else w.n, 'val' + o) for o in names], w.self_, w.st)
                    worst = ('equal', '')
                    for o in ARGS:
                        st, why = cmpd(T.quantity(w, o), T.initial(w, o))
                        if st == 'differs': worst = (st, '%s: %s' % (o, why)); break
                        if st == 'open': worst = (st, why)
                    put(c, 'setArguments with a wrong %s changes nothing' % bad, *worst, loc(f), mode)
                guardrun(c, 'setArguments (wrong %s)' % bad, loc(f), mode, go)
        for g, e in (('get_numJoints', lambda w: w.n), ('get_numParDYN', lambda w: 10 * w.n), ('get_numParREG', lambda w: 10 * w.n)):
            getter(c, T, g, e, mode=mode)
        # storage
        f = next((x for x in prog.byqn.get('tpl!thunder_robot::thunder_robot', []) if not x['params']), None) or T.fn('resizeVariables')
        def go(vals=None):
            w = T.world(); rec = prog.records.get('thunder_robot'); keep = {}
            # the numbers the generator substitutes into the initialisers
            if vals is None: vals = dict({'n_joints': w.n, 'numElasticJoints': w.nE}, **w.orders)
            try:
                for x in rec['fields']:
                    if x['name'] in vals: keep[x['name']] = (x, x.get('init')); x['init'] = {'k': 'Val', 'l': 0, 't': 'int', 'v': toP(vals[x['name']])}
                ini = [dict(i, e={'k': 'Val', 'l': 0, 't': 'int', 'v': toP(vals[i['m']])}) if i.get('m') in vals and i['e']['k'] in ('Int', 'Cast') else i for i in f.get('inits') or []]
                w.m.call(dict(f, inits=ini), [], w.self_, w.st)
            finally:
                for x, i in keep.values(): x['init'] = i
            # sizes the object has after construction
            fld = lambda x: vP(w.m.rd(w.st, LVal(w.self_.cell, (('f', x),))))
            w.n = fld('n_joints'); w.nE = fld('numElasticJoints'); w.orders = {k: fld(k) for k in w.orders}
            for o in inputs_of(prog):
                if o not in stored: put(c, 'input %s is stored' % o, 'differs', 'the generated class has no member %s' % o, loc(f), mode); continue
                d = w.dims(o)
                if d is None: continue
                put(c, 'storage of ' + o, *cmpd(T.quantity(w, o), zerosM(d[0], 1)), loc(f), mode)
        if f: guardrun(c, 'storage', loc(f), mode, go)
    from checks_yaml import refresh
    refresh(c, prog, True)
    c.minimum = 20
    c.finish()

def template_fields(prog):
    rec = prog.records.get('thunder_robot')
    return {f['name'] for f in rec['fields']} if rec else set()
def inputs_of(prog):
    """names of the quantities functions are declared to take, from the declarations"""
    from checks_api import declared_inputs
    return declared_inputs(prog)

# ---------------- C15 ----------------
@check('C15')
def c15(pid, prog):
    c = Check(pid, RULE_EFF)
    c.assume = ['non-zero masses for the conversion from regressor to standard parameters', 'real arithmetic', 'Eigen operations behave as modelled in engine/lib.py']
    for n in (None, 3, 12):
        mode = 'any size' if n is None else 'n=%d' % n
        for kind, cls in (('gen', 'generator'), ('tpl', 'generated class')):
            T = Target(prog, kind, n)
            for nm, src, dst, conv in (('update_inertial_REG', 'par_DYN', 'par_REG', to_reg), ('update_inertial_DYN', 'par_REG', 'par_DYN', to_dyn)):
                f = T.fn(nm, 0)
                if f is None: c.add(Ob('%s %s' % (cls, nm), 'open', 'not found', None, mode)); continue
                c.funcs.add('%s (%s)' % (f['qn'], loc(f)))
                def go():
                    w = T.world()
                    w.m.call(f, [], w.self_, w.st)
                    exp = conv_mat(lambda i: T.ini(w, src, i), conv, w.n)
                    put(c, '%s %s' % (cls, nm), *same10(T.quantity(w, dst), exp, VALS), loc(f), mode)
                    put(c, '%s %s keeps its source' % (cls, nm), *cmpd(T.quantity(w, src), T.initial(w, src)), loc(f), mode)
                guardrun(c, '%s %s' % (cls, nm), loc(f), mode, go)
    import checks_yaml
    checks_yaml.c15_yaml(c, prog)
    c.minimum = 4
    c.finish()

# ---------------- C22 ----------------
def ref_hat(v): return constM([[ZERO, -v(2), v(1)], [v(2), ZERO, -v(0)], [-v(1), v(0), ZERO]], 'eig')
def ref_I(p): return constM([[p(0), p(1), p(2)], [p(1), p(3), p(4)], [p(2), p(4), p(5)]], 'eig')
def mmul(a, b): return constM([[sum((a.get(toP(i), toP(k)) * b.get(toP(k), toP(j)) for k in range(a.cols.num())), ZERO) for j in range(b.cols.num())] for i in range(a.rows.num())], 'eig')
def madd(*ms): return constM([[sum((m.get(toP(i), toP(j)) for m in ms), ZERO) for j in range(ms[0].cols.num())] for i in range(ms[0].rows.num())], 'eig')
def mscal(s, m): return constM([[s * m.get(toP(i), toP(j)) for j in range(m.cols.num())] for i in range(m.rows.num())], 'eig')
def rot(ax, a):
    c, s = mkfn('cos', a), mkfn('sin', a)
    return {'x': constM([[ONE, ZERO, ZERO], [ZERO, c, -s], [ZERO, s, c]]), 'y': constM([[c, ZERO, s], [ZERO, ONE, ZERO], [-s, ZERO, c]]), 'z': constM([[c, -s, ZERO], [s, c, ZERO], [ZERO, ZERO, ONE]])}[ax]
def ref_rpy(v): return mmul(rot('z', v(2)), mmul(rot('y', v(1)), rot('x', v(0))))
def v3(nm): return lambda i: ent(nm, toP(i))
def vecd(nm, n): return Vec(n, lambda i: ent(nm, i), 'double')
def colm(nm, n, kind='eig'): return Mat(n, 1, lambda r, c: ent(nm, r), kind)
def sixof(M): return [M.get(toP(i), toP(j)) for i, j in ((0, 0), (0, 1), (0, 2), (1, 1), (1, 2), (2, 2))]

def copies(prog, nm, pred=None):
    out = []
    for k, l in prog.byqn.items():
        if k.rsplit('::', 1)[-1] == nm:
            for f in l:
                if pred is None or pred(f): out.append(f)
    return out
def trig(p):
    """sin^2 -> 1 - cos^2"""
    return simp(p, GLOBAL)

@check('C22')
def c22(pid, prog):
    c = Check(pid, RULE_EFF + '; every function of the repository with one of these names is an obligation')
    c.assume = ['real arithmetic', 'Eigen and casadi operations behave as modelled in engine/lib.py']
    mode = 'any size'
    def call(f, args, this=None):
        w = World(prog, n=3, elastic=(0, 1, 1))
        if f.get('cls') and not f.get('static'):
            if this is None:
                this = w.m.new(w.st, mkwrap(w) if f['cls'] == 'thunder_robot' else w.m.mkobj(prog.record(f['cls'])))
            elif isinstance(this, Obj): this = w.m.new(w.st, this)
        w.this = this
        a = [x(w) if callable(x) else x for x in args]
        return w, w.m.call(f, a, this, w.st)
    def one(f, exp, args, this=None, label=''):
        c.funcs.add('%s (%s)' % (f['qn'], loc(f)))
        name = '%s [%s]%s' % (f['qn'], os.path.basename(f['file']), label)
        def go():
            w, r = call(f, args, this)
            put(c, name, *cmpd(r, exp), loc(f), mode)
        guardrun(c, name, loc(f), mode, go)
    for f in copies(prog, 'hat', lambda f: len(f['params']) == 1):
        one(f, ref_hat(v3('v')), [colm('v', 3, 'sx' if isSX(f['params'][0]['t']) else 'eig') if not isVecT(f['params'][0]['t']) else vecd('v', 3)])
    for f in copies(prog, 'createI', lambda f: len(f['params']) == 1): one(f, ref_I(v3('p')), [vecd('p', 6)])
    for f in copies(prog, 'rpyRot', lambda f: len(f['params']) == 1): one(f, ref_rpy(v3('a')), [vecd('a', 3)])
    frame_offset(c, prog, one)
    LP = lambda rec, pre: Obj(rec, {'name': Str(('s', mkA('sym', pre + 'name'))), 'mass': sym(pre + 'm'), 'parI': vecd(pre + 'I', 6), 'xyz': vecd(pre + 'c', 3), 'rpy': vecd(pre + 'r', 3), 'Dl': vecd(pre + 'D', 2)})
    for f in copies(prog, 'transformBodyInertial', lambda f: len(f['params']) == 4):
        rec = f['params'][2]['t'].replace('const ', '').replace('&', '').strip()
        R = ref_rpy(v3('a')); Rb = ref_rpy(v3('br')); Rib = mmul(R, Rb)
        I = mmul(Rib, mmul(ref_I(v3('bI')), transp(Rib)))
        cm = madd(colm('d', 3), mmul(R, colm('bc', 3)))
        body(c, f, [vecd('d', 3), vecd('a', 3), LP(rec, 'b')], sym('bm'), cm, I, call, rec, mode)
    for f in copies(prog, 'mergeBodyInertial', lambda f: len(f['params']) == 3):
        rec = f['params'][0]['t'].replace('const ', '').replace('&', '').strip()
        m1, m2 = sym('am'), sym('bm'); inv = mkfn('recip', m1 + m2)
        cm = constM([[(m1 * ent('ac', toP(i)) + m2 * ent('bc', toP(i))) * inv] for i in range(3)])
        def shift(m, nm):
            d = [cm.get(toP(i), ZERO) - ent(nm, toP(i)) for i in range(3)]
            return mscal(m, mmul(ref_hat(lambda i: d[i]), transp(ref_hat(lambda i: d[i]))))
        I = madd(ref_I(v3('aI')), shift(m1, 'ac'), ref_I(v3('bI')), shift(m2, 'bc'))
        body(c, f, [LP(rec, 'a'), LP(rec, 'b')], m1 + m2, cm, I, call, rec, mode)
    c.minimum = 4
    c.finish()

def body(c, f, ins, m, cm, I, call, rec, mode):
    """function writing the inertial properties of a body through its last parameter"""
    c.funcs.add('%s (%s)' % (f['qn'], loc(f)))
    name = '%s [%s]' % (f['qn'], os.path.basename(f['file']))
    def go():
        box = {}
        def out(w):
            r = w.prog.record(rec)
            if r is None: raise Give('record ' + rec)
            box['o'] = w.m.new(w.st, w.m.mkobj(r)); box['w'] = w
            return box['o']
        w, r = call(f, ins + [out])
        o = w.m.rd(w.st, box['o'])
        put(c, name + ' mass', *cmpd(o.get('mass'), m), loc(f), mode)
        put(c, name + ' centre of mass', *cmpd(o.get('xyz'), cm), loc(f), mode)
        put(c, name + ' inertia', *cmpd(o.get('parI'), constM([[x] for x in sixof(I)])), loc(f), mode)
    guardrun(c, name, loc(f), mode, go)

def frame_offset(c, prog, one):
    """members of FrameOffset: rotation, transform and accessors, from translation and ypr"""
    rec = prog.record('thunder_ns::FrameOffset')
    if rec is None: return
    ft = {x['name']: x['t'] for x in rec['fields']}
    def mk():
        d = {}
        for n, t in ft.items():
            if isEig(t) or isSX(t): d[n] = colm('fo:' + n, 3)
            elif isVecT(t): d[n] = vecd('fo:' + n, 3)
        return Obj('thunder_ns::FrameOffset', d)
    y = v3('fo:ypr')
    R = mmul(rot('z', y(0)), mmul(rot('y', y(1)), rot('x', y(2))))
    Tm = constM([[R.get(toP(i), toP(j)) for j in range(3)] + [ent('fo:translation', toP(i))] for i in range(3)] + [[ZERO, ZERO, ZERO, ONE]])
    def m(nm): return prog.byqn.get('thunder_ns::FrameOffset::' + nm, [])
    for nm, e in (('get_rotation', R), ('get_transform', Tm), ('get_ypr', colm('fo:ypr', 3)), ('get_gravity', colm('fo:gravity', 3)), ('get_translation', colm('fo:translation', 3))):
        for f in m(nm):
            if not f['params']: one(f, e, [], this=mk())
    for nm, fld in (('set_translation', 'translation'), ('set_ypr', 'ypr'), ('set_gravity', 'gravity')):
        for f in m(nm):
            if len(f['params']) != 1 or fld not in ft: continue
            name = f['qn']
            def go():
                w = World(prog, n=3, elastic=(0, 1, 1)); t = w.m.new(w.st, mk())
                v = vecd('val', 3) if isVecT(f['params'][0]['t']) else colm('val', 3)
                w.m.call(f, [v], t, w.st); o = w.m.rd(w.st, t)
                put(c, name + ' stores its value', *cmpd(o.get(fld), colm('val', 3)), loc(f), 'any size')
                for x in ft:
                    if x != fld and (isEig(ft[x]) or isVecT(ft[x])):
                        st, why = cmpd(o.get(x), mk().get(x))
                        if st == 'differs': put(c, '%s changes %s' % (name, x), st, why, loc(f), 'any size')
            guardrun(c, name, loc(f), 'any size', go)
