"""C16, C17, C18: the configuration and parameter files, modelled as documents with symbolic values."""
from checks_eff import *
from report import *

P_ = 'thunder_ns::Robot::'
TPL = 'tpl!thunder_robot::'
INERT = ['mass', 'CoM_x', 'CoM_y', 'CoM_z', 'Ixx', 'Ixy', 'Ixz', 'Iyy', 'Iyz', 'Izz']
INREG = ['mass', 'm_CoM_x', 'm_CoM_y', 'm_CoM_z'] + INERT[4:]
RULE_YAML = 'abstract interpretation of the loaders on documents of several shapes whose numbers are symbols; every slot is compared with the entry of the document that names it'

MASKS = [0b000001, 0b110101, 0b011010, 0b100110, 0b001011, 0b111000, 0b010111, 0b101100]
class Shape:
    """one form of configuration file; all numbers in it are symbols"""
    def __init__(self, label, types, Dl=2, elastic=(2, 3, 1), links=None, ejoints=None, flags='all', friction=None, gravity=True, extra=0, on=None, wide=0, tj=None, nosymb=()):
        self.nosymb = set(nosymb)      # families the file has no flags for (par_DYN@i: of link i only)
        self.label = label; self.types = types; self.n = len(types); self.isE = [int(t.endswith('_SEA')) for t in types]; self.nE = sum(self.isE)
        self.Dl = Dl; self.K, self.D, self.Dm = elastic or (0, 0, 0); self.on = bool(elastic) if on is None else on; self.section = elastic is not None
        self.nl = links if links is not None else self.n; self.ne = ejoints if ejoints is not None else self.nE
        self.flags = flags; self.friction = friction; self.gravity = gravity; self.extra = extra; self.wide = wide; self.tj = tj
    def v(self, *p): return sym('cfg:' + '.'.join(str(x) for x in p))
    def fl(self, fam, i):
        """flag of an entry"""
        if self.flags == 'all': return 1
        if isinstance(self.flags, int):          # patterns: every subset of the gravity entries, many of the frame entries
            k = self.flags
            if fam == 'par_gravity': return k >> i & 1
            if fam == 'par_world2L0': return MASKS[k] >> i & 1
            if fam == 'par_Ln2EE': return MASKS[(k + 3) % 8] >> i & 1
            return int(int(hashlib.md5(('%s%s%d' % (fam, i, k)).encode()).hexdigest()[:4], 16) % 2)
        if self.flags == 'mixed': return int(int(hashlib.md5(('%s%s' % (fam, i)).encode()).hexdigest()[:4], 16) % 3 != 0)
        return 0
    def flaglist(self, fam, lo, k):
        """flags as the file lists them (possibly longer than the entries they describe)"""
        if self.flags == 'short': return [toP(1)] * max(0, k - 1)
        return [toP(self.fl(fam, lo + i)) for i in range(k)] + [toP(1)] * self.extra
    def lacks(self, fam, i=None): return self.flags == 'none' or fam in self.nosymb or '%s@%s' % (fam, i) in self.nosymb
    def flag(self, fam, i, k, pos):
        """flag entry i (position pos in a list of k) is expected to have"""
        if self.lacks(fam, i // k if k else 0): return 0
        if self.flags == 'short': return int(pos < k - 1)
        return self.fl(fam, i) if self.flags != 'none' else 0
    def doc(self):
        has = self.flags != 'none'
        def withsymb(d, fam, lo, k):
            if not self.lacks(fam, lo // k if k else 0): d['symb'] = self.flaglist(fam, lo, k)
            return d
        d = {'num_joints': toP(self.n), 'type_joints': [Str(t) for t in (self.types if self.tj is None else self.tj)]}
        if self.Dl is not None: d['Dl_order'] = toP(self.Dl)
        if self.section or self.on: d['ELASTIC_MODEL'] = TRUE if self.on else FALSE
        d['kinematics'] = withsymb({'DH': [self.v('DH', i) for i in range(4 * self.n + self.wide)]}, 'par_DHtable', 0, 4 * self.n)
        if self.gravity: d['gravity'] = withsymb({'value': [self.v('gravity', i) for i in range(3 + self.wide)]}, 'par_gravity', 0, 3)
        d['Base_to_L0'] = withsymb({'tr': [self.v('base.tr', i) for i in range(3 + self.wide)], 'ypr': [self.v('base.ypr', i) for i in range(3 + self.wide)]}, 'par_world2L0', 0, 6)
        d['Ln_to_EE'] = withsymb({'tr': [self.v('ee.tr', i) for i in range(3 + self.wide)], 'ypr': [self.v('ee.ypr', i) for i in range(3 + self.wide)]}, 'par_Ln2EE', 0, 6)
        dyn = {}
        for i in range(self.nl):
            node = {'inertial': withsymb({k: self.v('link', i, k) for k in INERT}, 'par_DYN', 10 * i, 10)}
            node['inertial'].update({k: self.v('link', i, k) for k in INREG[1:4]})
            if self.friction is None or self.friction[i]:
                node['friction'] = withsymb({'Dl': [self.v('link', i, 'Dl', j) for j in range((self.Dl or 0) + self.extra)]}, 'par_Dl', (self.Dl or 0) * i, self.Dl or 0)
            dyn['zambyckdxejfwgvhsn'[i] + 'link'] = node
        d['dynamics'] = dyn
        if self.section:
            ej = {}
            for i in range(self.ne):
                node = {k: [self.v('ej', i, k, j) for j in range(o + self.extra)] for k, o in (('K', self.K), ('D', self.D), ('Dm', self.Dm))}
                node['Mm'] = self.v('ej', i, 'Mm')
                if has:
                    for k, o in (('K', self.K), ('D', self.D), ('Dm', self.Dm)):
                        if not self.lacks('par_' + k, i): node[k + '_symb'] = self.flaglist('par_' + k, o * i, o)
                    if not self.lacks('par_Mm', i): node['Mm_symb'] = toP(self.flag('par_Mm', i, 1, -1))
                ej[('x', 'c', 'j', 'd', 'a', 'g')[i] + 'joint'] = node
            d['elastic'] = {'K_order': toP(self.K), 'D_order': toP(self.D), 'Dm_order': toP(self.Dm), 'joints': ej}
        return d
    def values(self):
        """family -> list of values (None: the file does not say)"""
        n, nE, v = self.n, self.nE, self.v
        r = {'par_DHtable': [v('DH', i) for i in range(4 * n)],
             'par_world2L0': [v('base.tr', i) for i in range(3)] + [v('base.ypr', i) for i in range(3)],
             'par_Ln2EE': [v('ee.tr', i) for i in range(3)] + [v('ee.ypr', i) for i in range(3)],
             'par_gravity': [v('gravity', i) if self.gravity else ZERO for i in range(3)],
             'par_DYN': [v('link', i, k) if i < self.nl else None for i in range(n) for k in INERT]}
        Dl = self.Dl or 0
        r['par_Dl'] = [v('link', i, 'Dl', j) if i < self.nl and (self.friction is None or self.friction[i]) else None for i in range(n) for j in range(Dl)]
        if self.on:
            for k, o in (('K', self.K), ('D', self.D), ('Dm', self.Dm)): r['par_' + k] = [v('ej', i, k, j) if i < self.ne else None for i in range(nE) for j in range(o)]
            r['par_Mm'] = [v('ej', i, 'Mm') if i < self.ne else None for i in range(nE)]
        return r
    def symb(self):
        n, nE, Dl = self.n, self.nE, self.Dl or 0
        r = {'par_DHtable': [self.flag('par_DHtable', i, 4 * n, i) for i in range(4 * n)]}
        for f in ('par_world2L0', 'par_Ln2EE'): r[f] = [self.flag(f, i, 6, i) for i in range(6)]
        r['par_gravity'] = [self.flag('par_gravity', i, 3, i) if self.gravity else 0 for i in range(3)]
        r['par_DYN'] = [self.flag('par_DYN', 10 * i + j, 10, j) if i < self.nl else 0 for i in range(n) for j in range(10)]
        r['par_Dl'] = [self.flag('par_Dl', Dl * i + j, Dl, j) if i < self.nl and (self.friction is None or self.friction[i]) else 0 for i in range(n) for j in range(Dl)]
        if self.on:
            for k, o in (('K', self.K), ('D', self.D), ('Dm', self.Dm)):
                r['par_' + k] = [self.flag('par_' + k, o * i + j, o, j) if i < self.ne else 0 for i in range(nE) for j in range(o)]
            r['par_Mm'] = [self.flag('par_Mm', i, 1, -1) if i < self.ne else 0 for i in range(nE)]
        return r
    def world(self, prog):
        return World(prog, n=self.n, elastic=tuple(self.isE), orders={'K_order': self.K if self.on else 0, 'D_order': self.D if self.on else 0, 'Dl_order': self.Dl or 0, 'Dm_order': self.Dm if self.on else 0})

MANY = Shape('many joints', ['R', 'R_SEA', 'P', 'R', 'R_SEA', 'P_SEA', 'R', 'R', 'R_SEA', 'P', 'R_SEA', 'R'], flags='mixed', elastic=(2, 1, 1), Dl=1)
def shapes():
    E = ['R', 'R_SEA', 'P_SEA']
    return [Shape('elastic, all flags set', E), Shape('elastic, mixed flags', E, flags='mixed'), Shape('elastic, no flags', ['P_SEA', 'R'], flags='none', elastic=(1, 1, 2)),
            Shape('rigid', ['R', 'P'], elastic=None, Dl=1, flags='mixed'), Shape('rigid, no friction order, no gravity', ['P', 'R', 'R'], elastic=None, Dl=None, gravity=False, flags='none'),
            Shape('rigid, no flags', ['R', 'R'], elastic=None, Dl=3, flags='none', friction=[True, False]),
            Shape('elastic section with ELASTIC_MODEL off', ['R', 'R_SEA'], on=False, flags='mixed'),
            Shape('more links and elastic joints than the robot has', ['R_SEA', 'P', 'R_SEA'], links=5, ejoints=4, flags='mixed', elastic=(2, 1, 3)),
            Shape('longer flag and coefficient lists', ['R_SEA', 'R'], elastic=(1, 2, 1), Dl=1, flags='mixed', extra=2),
            Shape('shorter flag lists', ['R', 'P_SEA', 'R_SEA'], elastic=(3, 2, 2), Dl=3, flags='short'),
            Shape('zero orders', ['R_SEA', 'R'], elastic=(0, 0, 0), Dl=0, flags='mixed'),
            Shape('elastic without elastic joints', ['R', 'P'], elastic=(2, 1, 1), flags='mixed'),
            Shape('friction of one link missing', ['R', 'R_SEA'], friction=[False, True], flags='mixed'),
            Shape('three elastic joints', ['R_SEA', 'P_SEA', 'R_SEA'], flags='mixed', elastic=(1, 2, 2)),
            Shape('one joint', ['R_SEA'], flags='mixed', elastic=(3, 1, 2), Dl=3), MANY] + \
           [Shape('flags of pattern %d, orders %d %d %d' % (k, *o), t, flags=k, elastic=o, Dl=k % 4) for k, (t, o) in enumerate(PATTERNS)] + \
           [Shape('no flags for %s' % ', '.join(l), ['R_SEA', 'P', 'P_SEA'], flags=k, elastic=(2, 1, 3), Dl=1, nosymb=l) for k, l in ((7, ('par_gravity', 'par_K')), (5, ('par_Ln2EE', 'par_D')), (6, ('par_world2L0', 'par_Dm')), (3, ('par_DHtable', 'par_Mm')), (2, ('par_DYN@1', 'par_K@1', 'par_Mm@0')), (4, ('par_Dl@0', 'par_D@0', 'par_Dm@1')), (7, ('par_DYN', 'par_Dl')))]
# every order alone, each missing, with few and many joints
PATTERNS = [(['R', 'R_SEA'], (2, 0, 1)), (['P_SEA', 'R', 'R_SEA'], (0, 2, 0)), (['R_SEA'], (0, 0, 3)), (['R', 'P_SEA', 'R', 'R_SEA'], (1, 0, 0)), (['R_SEA', 'P', 'R_SEA'], (2, 2, 0)), (['R_SEA', 'R'], (0, 1, 1)), (['P', 'P_SEA'], (1, 1, 0)), (['P_SEA', 'R_SEA', 'P_SEA', 'R'], (1, 3, 0))]

def runc(w, f, args, this=None, partial=False):
    """call; an exception that leaves it ends the run (w.thrown: its type)"""
    try: return w.m.call(f, args, this, w.st)
    except Give as ex:
        if not partial: raise
        w.m.emit('giveup', {'why': str(ex)}, w.st, {'l': None}); return Top(str(ex))
    except CxxThrow as ex: w.st.dead = True; w.thrown = ex.type; return Top('exception')
def fldv(w, lv, f): return w.m.rd(w.st, LVal(lv.cell, lv.path + (('f', f),)))
def known(l): return [i for i, x in enumerate(l) if x is not None]

def genload(prog, sh, doc=None, conf=True, hooks=None, partial=False):
    """the generator's robot after its constructor and load_conf_par have read the document"""
    w = sh.world(prog)
    for h in ('fn:' + P_ + 'add_function', 'fn:' + P_ + 'obtain_symb_parameters'): w.m.hooks.pop(h, None)
    w.m.hooks.pop('mapcount', None)
    w.m.hooks.update(hooks or {})
    w.m.exc = True; w.m.ydoc = sh.doc() if doc is None else doc; w.m.bounds = True
    ctor = [f for f in prog.byqn.get(P_ + 'Robot', []) if f['params'] and 'string' in f['params'][0]['t']]
    if not ctor: raise Give('no constructor from a file name')
    rec = prog.record('thunder_ns::Robot')
    w.self_ = w.m.new(w.st, w.m.mkobj(rec))
    w.fns = [ctor[0]]; w.ret = None
    runc(w, ctor[0], [Str('F')], w.self_, partial)
    if conf and not w.st.dead:
        f = prog.fn(P_ + 'load_conf_par')
        if f is None: raise Give('load_conf_par not found')
        w.fns.append(f)
        w.ret = runc(w, f, [Str('F')] + ([TRUE] if len(f['params']) > 1 else []), w.self_, partial)
    return w

def tplload(prog, sh, fn='load_conf', doc=None, partial=False, upd=TRUE):
    w = sh.world(prog)
    w.m.exc = True; w.m.ydoc = sh.doc() if doc is None else doc; w.m.bounds = True
    o = mkwrap(w); d0 = o.default
    def default(f):
        if f.endswith('_symb'):
            d = w.dims('par_' + f[:-5]); return Vec(d[0], lambda i: ZERO, 'int') if d else Top('field ' + f)
        return d0(f)
    w.self_ = w.m.new(w.st, Obj('thunder_robot', {}, default))
    l = prog.byqn.get(TPL + fn, [])
    if not l: raise Give(fn + ' not found in the class template')
    f = l[0]; w.fns = [f]
    w.ret = runc(w, f, [Str('F')] + ([upd] if len(f['params']) > 1 else []), w.self_, partial)
    return w

def cmplist(v, exp, what='entry'):
    """value (Vec or column Mat) against a list; None entries are not constrained"""
    v = asM(v) if not isinstance(v, Mat) else v
    if v is None: return 'open', 'value not resolved'
    sz = v.size(); s, why = diffP(sz, toP(len(exp)), VALS)
    if s != 'equal': return s, '%s entries instead of %d' % (show(sz), len(exp))
    worst = ('equal', '')
    for i in known(exp):
        try: x = v.lin(toP(i))
        except Give as ex: worst = ('open', str(ex)); continue
        s, why = diffP(x, toP(exp[i]), VALS)
        if s == 'differs': return s, '%s %d is %s instead of %s' % (what, i, show(x, 2), show(toP(exp[i]), 2))
        if s == 'open': worst = (s, '%s %d: %s' % (what, i, why))
    return worst

def incomplete(w):
    """reasons why the analysis of the run is not complete"""
    return [e for e in w.m.events if e.kind == 'giveup']

def refresh(c, prog, cls):
    """loading standard (regressor) parameters from a file refreshes the regressor (standard) ones exactly when asked to"""
    for sh in (Shape('three joints', ['R', 'R_SEA', 'P'], flags='mixed'), Shape('rigid', ['R', 'P'], flags='none', elastic=None, Dl=0)):
        for fn, src, conv, keys in (('load_conf' if cls else 'load_conf_par', 'par_DYN', to_reg, INERT), ('load_par_REG', 'par_REG', to_dyn, INREG)):
            for upd in (TRUE, FALSE):
                other = 'par_REG' if src == 'par_DYN' else 'par_DYN'; mode = sh.label + ', ' + ('' if upd is TRUE else 'not ') + 'refreshing'
                def go():
                    vals = [sh.v('link', i, k) for i in range(sh.n) for k in keys]
                    if cls:
                        w = tplload(prog, sh, fn, upd=upd); f = w.fns[0]
                        if len(f['params']) < 2: return
                        o = mkwrap(w); before = o.default(other); got = fldv(w, w.self_, other)
                    else:
                        f = prog.fn(P_ + fn)
                        if f is None or len(f['params']) < 2: return
                        w = genload(prog, sh, conf=False); before = fldv(w, w.self_, 'args').get(Str(other))
                        runc(w, f, [Str('F'), upd], w.self_)
                        got = fldv(w, w.self_, 'args').get(Str(other))
                    if w.st.dead: put(c, fn, 'open', 'does not complete', loc(f), mode); return
                    c.funcs.add('%s (%s)' % (f['qn'].replace('tpl!', 'template '), loc(f)))
                    if upd is TRUE: put(c, '%s refreshes %s' % (fn, other), *same10(got, conv_mat(lambda i: listV(vals).get(i), conv, w.n), VALS), loc(f), mode)
                    else: put(c, '%s leaves %s alone' % (fn, other), *cmpd(got, before), loc(f), mode)
                guardrun(c, fn, None, mode, go)

@check('C16')
def c16(pid, prog):
    c = Check(pid, RULE_YAML)
    c.assume = ['the file is a document of one of the analysed shapes (numbers are arbitrary)', 'yaml-cpp, casadi, Eigen and std operations behave as modelled in engine/lib.py', 'real arithmetic']
    for sh in shapes():
        mode = sh.label
        def gen():
            w = genload(prog, sh); f0, f1 = w.fns[0], w.fns[-1]
            for f in w.fns: c.funcs.add('%s (%s)' % (f['qn'], loc(f)))
            wh = loc(f1)
            if w.st.dead:
                excess = sh.nl > sh.n or sh.ne > sh.nE or sh.extra         # such files may be rejected (C18)
                put(c, 'generator reads the file', 'open' if incomplete(w) or excess else 'differs', 'the file is always rejected', loc(f0), mode); return
            put(c, 'generator reads the file', *same(w.ret, ONE, VALS), wh, mode)
            for f, e in (('numJoints', toP(sh.n)), ('numElasticJoints', toP(sh.nE)), ('Dl_order', toP(sh.Dl or 0)), ('K_order', toP(sh.K if sh.on else 0)), ('D_order', toP(sh.D if sh.on else 0)), ('Dm_order', toP(sh.Dm if sh.on else 0)), ('ELASTIC', toP(int(sh.on)))):
                v = fldv(w, w.self_, f)
                put(c, 'generator %s' % f, *same(vP(v) if not isinstance(v, (Top, Undef)) else v, e, VALS), loc(f0), mode)
            put(c, 'generator isElasticJoint', *cmplist(fldv(w, w.self_, 'isElasticJoint'), [toP(x) for x in sh.isE]), loc(f0), mode)
            jt = fldv(w, w.self_, 'jointsType')
            jl = jt.tolist() if isinstance(jt, Vec) else None
            jl = [x.lit() if isinstance(x, Str) else None for x in jl] if jl is not None else None
            put(c, 'generator jointsType', 'open' if jl is None or None in jl else 'equal' if jl == sh.types else 'differs', '%s' % jl, loc(f0), mode)
            args, symb, model = (fldv(w, w.self_, x) for x in ('args', 'symb', 'model'))
            for fam, l in sh.values().items():
                if not l: continue
                put(c, 'generator %s values' % fam, *cmplist(args.get(Str(fam)), l), wh if fam not in ('par_DHtable', 'par_world2L0', 'par_Ln2EE', 'par_gravity') else loc(f0), mode)
                m = model.get(Str(fam))
                if isinstance(m, Mat): put(c, 'generator %s symbol size' % fam, *diffP(m.size(), toP(len(l)), VALS), loc(f0), mode)
            for fam, l in sh.symb().items():
                if not l: continue
                put(c, 'generator %s flags' % fam, *cmplist(symb.get(Str(fam)), [toP(x) for x in l], 'flag'), loc(f0), mode)
            if sh.nl >= sh.n:
                vals = sh.values()['par_DYN']
                put(c, 'generator par_REG', *same10(args.get(Str('par_REG')), conv_mat(lambda i: listV(vals).get(i), to_reg, w.n), VALS), wh, mode)
        guardrun(c, 'generator', None, mode, gen)
        def genreg():
            f = prog.fn(P_ + 'load_par_REG')
            if f is None: raise Give('load_par_REG not found')
            w = genload(prog, sh, conf=False)
            r = runc(w, f, [Str('F')] + ([TRUE] if len(f['params']) > 1 else []), w.self_)
            c.funcs.add('%s (%s)' % (f['qn'], loc(f)))
            l = [sh.v('link', i, k) if i < sh.nl else None for i in range(sh.n) for k in INREG]
            put(c, 'generator load_par_REG', *cmplist(fldv(w, w.self_, 'args').get(Str('par_REG')), l), loc(f), mode)
            Dv = sh.values()['par_Dl']
            if Dv: put(c, 'generator load_par_REG friction', *cmplist(fldv(w, w.self_, 'args').get(Str('par_Dl')), Dv), loc(f), mode)
        guardrun(c, 'generator load_par_REG', None, mode, genreg)
        def tpl():
            w = tplload(prog, sh); f = w.fns[0]; c.funcs.add('%s (%s)' % (f['qn'].replace('tpl!', 'template '), loc(f)))
            symb = sh.symb()
            for fam, l in sh.values().items():
                if not l: continue
                if fam in ('par_DHtable', 'par_world2L0', 'par_Ln2EE', 'par_gravity'):
                    if fam == 'par_gravity' and not sh.gravity: continue
                    l = [x for x, s in zip(l, symb[fam]) if s]
                elif not all(symb[fam]): continue           # partly symbolic dynamic parameters: C11
                put(c, 'class %s values' % fam, *cmplist(fldv(w, w.self_, fam), l), loc(f), mode)
        guardrun(c, 'class', None, mode, tpl)
        def tplreg():
            w = tplload(prog, sh, 'load_par_REG'); f = w.fns[0]; c.funcs.add('%s (%s)' % (f['qn'].replace('tpl!', 'template '), loc(f)))
            l = [sh.v('link', i, k) if i < sh.nl else None for i in range(sh.n) for k in INREG]
            put(c, 'class load_par_REG', *cmplist(fldv(w, w.self_, 'par_REG'), l), loc(f), mode)
        guardrun(c, 'class load_par_REG', None, mode, tplreg)
    c.minimum = 20
    c.finish()

# ---------------- C17: written files read back ----------------
def written(w, ev0, path):
    """document written to `path` (values of leaves as analysed), from the events after ev0; raises Give when it cannot be reconstructed"""
    ev = w.m.events[ev0:]
    opens = [e for e in ev if e.kind == 'open' and e.d['path'] == path and 'ofstream' in e.d['cls']]
    if not opens: raise Give('no file %r is opened for writing' % (path,))
    if len(opens) > 1: raise Give('file opened more than once')
    ob = opens[0].d['obj']
    def strm(v): return isinstance(v, Opq) and v.tag == 'stream' and len(v.args) > 1 and v.args[1] == ob
    body = [e for e in ev if e.kind == 'stream' and isinstance(e.d['lv'], LVal) and strm(w.m.rd(w.st, LVal(e.d['lv'].cell)))]
    vals = [v for e in body for v in e.d['vals']]
    em = [v for v in vals if isinstance(v, Opq) and v.tag == 'yemit']
    if len(em) != 1 or any(not (v is em[0] or isinstance(v, (FnRef, Str))) for v in vals): raise Give('file contents are not one emitter')
    if any(isinstance(v, Str) and (v.lit() is None or v.lit().strip()) for v in vals): raise Give('text besides the document')
    roots = []
    for e in ev:
        if e.kind == 'stream' and isinstance(e.d['lv'], LVal) and e.d['lv'].cell == em[0].args[0]:
            for v in e.d['vals']:
                if isinstance(v, Opq) and v.tag == 'Y': roots.append((v, e))
                elif isinstance(v, Opq) and v.tag == 'comment' or isinstance(v, P) or isinstance(v, FnRef): pass
                else: raise Give('emitter receives %r' % (v,))
    if len(roots) != 1: raise Give('%d documents in the emitter' % len(roots))
    return nodedoc(ev, roots[0][0])
def streampc(a):
    """condition that only says whether a file stream is in good state"""
    return 'truth' in repr(a) and 'stream' in repr(a)
def nodedoc(ev, root, depth=0):
    if root.args[0][0] == 'file' and not root.args[1]: return 'SAME'
    if depth > 12: raise Give('nested document')
    out = {}; scal = None
    for e in ev:
        if e.kind in ('ypush', 'yrebind'):
            ns = [e.d.get('node')] + ([e.d.get('val')] if e.kind == 'yrebind' else [])
            if any(isinstance(x, Opq) and x.tag == 'Y' and x.args[0] in (root.args[0], ('cond',)) for x in ns): raise Give('sequence node')
        if e.kind != 'yset': continue
        n = e.d['node']
        if n.args[0] != root.args[0]: continue
        p = n.args[1]
        if p[:len(root.args[1])] != root.args[1]: continue
        p = p[len(root.args[1]):]
        if any(not streampc(a) for a in e.pc): raise Give('written only under a condition')
        if e.loops: raise Give('written in a loop of unknown length')
        v = e.d['val']
        if isinstance(v, Opq) and v.tag == 'Y': v = nodedoc(ev, v, depth + 1)
        elif isinstance(v, Vec):
            l = v.tolist()
            if l is None: raise Give('list of unknown length')
            v = l
        elif isinstance(v, Mat): raise Give('matrix written to a node')
        if isinstance(v, VIte): raise Give('conditional value')
        if not p: out = v; continue
        d = out
        for x in p[:-1]:
            k = x.lit() if isinstance(x, Str) and x.lit() is not None else x
            d = d.setdefault(k, {})
        k = p[-1]; k = k.lit() if isinstance(k, Str) and k.lit() is not None else k
        if not isinstance(k, (str, Str)): raise Give('key %r' % (k,))
        d[k] = v
    return out

def emptyrobot(prog, sh):
    """the generator's robot after its constructor only (parameters zero)"""
    return genload(prog, sh, conf=False)

@check('C17')
def c17(pid, prog):
    c = Check(pid, 'abstract interpretation: the document a save function writes is reconstructed from its effects and handed to the matching load function, whose effects are compared with the saved values')
    c.assume = ['yaml-cpp, casadi, Eigen and std operations behave as modelled in engine/lib.py', 'a number written to a file reads back as the same number', 'the robot has one of the analysed sizes']
    OUT = Str('OUT')
    Z = Shape('two joints, one elastic', ['R', 'R_SEA'], flags='all', elastic=(2, 1, 3), Dl=2)
    Y = Shape('three joints, two elastic', ['P_SEA', 'R', 'R_SEA'], flags='all', elastic=(1, 2, 1), Dl=1)
    X = Shape('four rigid joints', ['R', 'P', 'R', 'R'], flags='mixed', elastic=None, Dl=3)
    V = Shape('six joints', ['R', 'R_SEA', 'R', 'R', 'P_SEA', 'R'], flags='mixed', elastic=(2, 2, 2), Dl=2, links=5)
    def find(qn, np=None):
        l = [f for f in prog.byqn.get(qn, []) if np is None or len(f['params']) == np]
        if not l: raise Give(qn + ' not found')
        c.funcs.add('%s (%s)' % (l[0]['qn'].replace('tpl!', 'template '), loc(l[0]))); return l[0]
    def save(w, f, args):
        n = len(w.m.events); r = runc(w, f, args, w.self_)
        if w.st.dead: raise Give('never completes')
        return written(w, n, OUT)
    def argv(w, fam): return fldv(w, w.self_, 'args').get(Str(fam))
    def arb(w, fam): return w.argbase(Str(fam))
    def tolist(v):
        v = asM(v); n = v.size().num()
        if not isinstance(n, int): raise Give('size not resolved')
        return [v.lin(toP(i)) for i in range(n)]
    for sh in (Z, Y, X, V, MANY):
        mode = sh.label
        def robot(vals=True):
            """generator robot whose stored values are arbitrary"""
            w = sh.world(prog)
            for h in ('fn:' + P_ + 'add_function', 'fn:' + P_ + 'obtain_symb_parameters', ): w.m.hooks.pop(h, None)
            w.m.exc = True; w.self_ = w.robot; w.m.ydoc = {}
            return w
        def blank():
            w = emptyrobot(prog, Shape(sh.label, sh.types, Dl=sh.Dl, elastic=(sh.K, sh.D, sh.Dm) if sh.section else None, flags=sh.flags)); return w
        def reg():
            sv, ld = find(P_ + 'save_par_REG'), find(P_ + 'load_par_REG')
            w = robot(); exp = tolist(arb(w, 'par_REG')); doc = save(w, sv, [OUT])
            w2 = blank(); w2.m.ydoc = doc
            runc(w2, ld, [Str('F')] + ([TRUE] if len(ld['params']) > 1 else []), w2.self_)
            put(c, 'generator save_par_REG / load_par_REG', *cmplist(argv(w2, 'par_REG'), exp), loc(sv), mode)
        guardrun(c, 'generator save_par_REG / load_par_REG', None, mode, reg)
        def cross():
            """the file the generator saves is also what the generated class loads"""
            sv, ld = find(P_ + 'save_par_REG'), find(TPL + 'load_par_REG')
            w = robot(); exp = tolist(arb(w, 'par_REG')); doc = save(w, sv, [OUT])
            w2 = tplload(prog, sh, 'load_par_REG', doc=doc)
            put(c, 'generator save_par_REG / class load_par_REG', *cmplist(fldv(w2, w2.self_, 'par_REG'), exp), loc(sv), mode)
        guardrun(c, 'generator save_par_REG / class load_par_REG', None, mode, cross)
        fams = ['par_DYN', 'par_REG', 'par_DHtable', 'par_world2L0', 'par_Ln2EE', 'par_gravity'] + (['par_Dl'] if sh.Dl else []) + (['par_K', 'par_D', 'par_Dm', 'par_Mm'] if sh.on else []) + ['q', 'w']
        def named(lst, byname):
            def go():
                sv, ld = find(P_ + 'save_par', 2), find(P_ + 'load_par', 2)
                w = robot(); exp = {f: tolist(arb(w, f)) for f in lst}
                doc = save(w, sv, [OUT, listV([Str(f) for f in lst], 'std::basic_string<char>')])
                w2 = blank(); w2.m.ydoc = doc
                runc(w2, ld, [Str('F'), listV([Str(f) for f in reversed(lst)] if byname else [], 'std::basic_string<char>')], w2.self_)
                for f in lst: put(c, 'save_par / load_par(%s) %s' % ('names' if byname else 'all', f), *cmplist(argv(w2, f), exp[f]), loc(sv), mode)
            guardrun(c, 'save_par / load_par', None, mode, go)
        named(fams, True); named(fams, False); named(fams[1:4], True)
        def conf():
            sv = find(P_ + 'save_conf')
            w = genload(prog, sh); doc = save(w, sv, [OUT])
            put(c, 'save_conf writes the configuration it loaded', 'equal' if doc == 'SAME' else 'open', '', loc(sv), mode)
        guardrun(c, 'save_conf', None, mode, conf)
        def confedit():
            """load_conf on the saved configuration: same document, so the loaders agree with C16"""
        def twrap():
            w = sh.world(prog); w.m.exc = True; w.m.ydoc = {}; w.self_ = w.m.new(w.st, mkwrap(w)); return w
        def treg():
            sv = find(TPL + 'save_par_REG'); w = twrap(); exp = tolist(fldv(w, w.self_, 'par_REG')); ed = tolist(fldv(w, w.self_, 'par_Dl'))
            doc = save(w, sv, [OUT]); w2 = tplload(prog, sh, 'load_par_REG', doc=doc)
            put(c, 'class save_par_REG / load_par_REG', *cmplist(fldv(w2, w2.self_, 'par_REG'), exp), loc(sv), mode)
            ld = find(P_ + 'load_par_REG'); w3 = blank(); w3.m.ydoc = doc
            runc(w3, ld, [Str('F')] + ([TRUE] if len(ld['params']) > 1 else []), w3.self_)
            put(c, 'class save_par_REG / generator load_par_REG', *cmplist(argv(w3, 'par_REG'), exp), loc(sv), mode)
            if ed: put(c, 'class save_par_REG / generator load_par_REG friction', *cmplist(argv(w3, 'par_Dl'), ed), loc(sv), mode)
        guardrun(c, 'class save_par_REG / load_par_REG', None, mode, treg)
        def tdyn():
            sv = find(TPL + 'save_par_DYN'); w = twrap(); exp = tolist(fldv(w, w.self_, 'par_DYN')); ed = tolist(fldv(w, w.self_, 'par_Dl'))
            doc = save(w, sv, [OUT]); w2 = tplload(prog, sh, 'load_conf', doc=doc)
            put(c, 'class save_par_DYN / load_conf', *cmplist(fldv(w2, w2.self_, 'par_DYN'), exp), loc(sv), mode)
            if ed: put(c, 'class save_par_DYN / load_conf friction', *cmplist(fldv(w2, w2.self_, 'par_Dl'), ed), loc(sv), mode)
            ld = find(P_ + 'load_conf_par'); w3 = blank(); w3.m.ydoc = doc
            r = runc(w3, ld, [Str('F')] + ([TRUE] if len(ld['params']) > 1 else []), w3.self_)
            put(c, 'class save_par_DYN / generator load_conf_par', *cmplist(argv(w3, 'par_DYN'), exp), loc(sv), mode)
        guardrun(c, 'class save_par_DYN / load_conf', None, mode, tdyn)
        def tpar():
            """the names the generated class saves under are the ones load_par of the generator looks up"""
            sv, ld = find(TPL + 'save_par'), find(P_ + 'load_par', 2)
            w = twrap(); exp = {f: tolist(fldv(w, w.self_, f)) for f in fams if f.startswith('par_')}
            doc = save(w, sv, [OUT])
            w2 = blank(); w2.m.ydoc = doc
            runc(w2, ld, [Str('F'), listV([Str(f) for f in exp], 'std::basic_string<char>')], w2.self_)
            for f in exp: put(c, 'class save_par / generator load_par %s' % f, *cmplist(argv(w2, f), exp[f]), loc(sv), mode)
        guardrun(c, 'class save_par / generator load_par', None, mode, tpar)
        def tparsz():
            """the same after a configuration with symbolic entries has given the vectors sizes of their own"""
            sv = find(TPL + 'save_par'); w = twrap(); exp = {}
            for k, f in enumerate(f for f in fams if f.startswith('par_')):
                n = tolist(fldv(w, w.self_, f)); n = len(n) - 1 - k % 3 if len(n) > 3 else len(n) - k % 2
                n = max(n, 0); exp[f] = [sym('stored:%s.%d' % (f, i)) for i in range(n)]
                w.m.wr(w.st, LVal(w.self_.cell, (('f', f),)), Mat(toP(n), ONE, (lambda l: lambda r, c: listV(l).get(r))(exp[f]), 'eig'))
            doc = save(w, sv, [OUT])
            for f in exp:
                if f in doc: put(c, 'class save_par of a partly symbolic %s' % f, *cmplist(listV(doc[f]) if isinstance(doc[f], list) else doc[f], exp[f]), loc(sv), mode)
        guardrun(c, 'class save_par', None, mode, tparsz)
        def gy():
            f = find('thunder_ns::genInertial_files')
            w = sh.world(prog); w.m.exc = True; w.m.ydoc = sh.doc(); w.self_ = None
            n = len(w.m.events)
            nl = min(sh.nl, sh.n)
            runc(w, f, [Str('N'), toP(nl), Str('F'), Str('DYN'), Str('REG')], None)
            if w.st.dead: raise Give('never completes')
            dd, dr = written(w, n, Str('DYN')), written(w, n, Str('REG'))
            vals = sh.values(); l = [x for x in vals['par_DYN'] if x is not None]
            cut = Shape(sh.label, sh.types[:nl], Dl=sh.Dl, elastic=None)
            w2 = tplload(prog, cut, 'load_conf', doc=dd)
            put(c, 'genInertial_files DYN file / class load_conf', *cmplist(fldv(w2, w2.self_, 'par_DYN'), l), loc(f), mode)
            w3 = tplload(prog, cut, 'load_par_REG', doc=dr)
            put(c, 'genInertial_files REG file / class load_par_REG', *same10(fldv(w3, w3.self_, 'par_REG'), conv_mat(lambda i: listV(l).get(i), to_reg, toP(nl)), VALS), loc(f), mode)
            if sh.Dl: put(c, 'genInertial_files DYN file friction', *cmplist(fldv(w2, w2.self_, 'par_Dl'), [x for x in vals['par_Dl'] if x is not None]), loc(f), mode)
        guardrun(c, 'genInertial_files', None, mode, gy)
    c.minimum = 15
    c.finish()

# ---------------- C15: conversions made while writing files ----------------
def c15_yaml(c, prog):
    """every file writer that converts standard to regressor parameters uses the parallel-axis map"""
    for f in prog.byqn.get('thunder_ns::genInertial_files', []):
        for sh in (Shape('two links', ['R', 'R_SEA']), Shape('four links', ['R', 'P', 'R', 'R'], flags='mixed', elastic=None, Dl=1)):
            def go():
                w = sh.world(prog); w.m.exc = True; w.m.ydoc = sh.doc()
                runc(w, f, [Str('N'), toP(sh.n), Str('F'), Str('DYN'), Str('REG')], None)
                c.funcs.add('%s (%s)' % (f['qn'], loc(f)))
                for path, keys, conv, nm in (('DYN', INERT, list, 'standard'), ('REG', INREG, to_reg, 'regressor')):
                    d = written(w, 0, Str(path)); d = d.get('dynamics', d)
                    links = list(d.values())
                    if any(not isinstance(x, dict) for x in links): raise Give('links not resolved')
                    put(c, 'genInertial_files writes every link (%s)' % nm, 'equal' if len(links) == sh.n else 'differs', '%d links' % len(links), loc(f), sh.label)
                    for i, x in enumerate(links[:sh.n]):
                        x = x.get('inertial', x)
                        exp = conv([sh.v('link', i, k) for k in INERT]); worst = ('equal', '')
                        for k, e in zip(keys, exp):
                            if k not in x: worst = ('differs', 'no entry %s' % k); break
                            st, why = diffP(recipnorm(vP(x[k])), recipnorm(e), VALS)
                            if st != 'equal': worst = (st, '%s: %s' % (k, why))
                            if st == 'differs': break
                        put(c, 'genInertial_files %s parameters' % nm, *worst, loc(f), '%s, link %d' % (sh.label, i))
            guardrun(c, 'genInertial_files', loc(f), sh.label, go)
    for f in prog.byqn.get('main', []):
        if 'genYAML' not in f['file']: continue
        def go():
            c.funcs.add('%s (%s)' % (f['file'], loc(f)))
            w = World(prog, n=9); w.m.exc = True
            F = {'mass': None, 'xyz': 3, 'parI': 6, 'rpy': 3}
            w.m.ydoc = {chr(97 + (i * 7) % 26) + 'link': {'mass': sym('in:%d.mass' % i), 'inertia': {k: sym('in:%d.%s' % (i, k)) for k in ('xx', 'xy', 'xz', 'yy', 'yz', 'zz')},
                                                           'origin': {'xyz': Str('0 0 0'), 'rpy': Str('0 0 0')}} for i in range(9)}
            cnt = [0]; src = {}; seen = []
            def per(m, g, args, this, st):
                lv = args[1] if isinstance(args[1], LVal) else m.lv(args[1], st)
                i = cnt[0]; cnt[0] += 1
                for k, l in F.items():
                    v = sym('per:%d.%s' % (i, k)) if l is None else listV([sym('per:%d.%s.%d' % (i, k, j)) for j in range(l)], 'double')
                    m.wr(st, LVal(lv.cell, lv.path + (('f', k),)), v)
                m.wr(st, LVal(lv.cell, lv.path + (('f', 'name'),)), Str('l%d' % i))
                return Top('void')
            def fill(m, g, args, this, st):
                vals = [m.rd(st, x) if isinstance(x, LVal) else m.ev(x, st) if isinstance(x, dict) else x for x in args]
                seen.append((cnt[0], vals)); return Top('void')
            for q in ('perturbateLinkProp', 'thunder_ns::perturbateLinkProp'): w.m.hooks['fn:' + q] = per
            for q in ('fillInertialYaml', 'thunder_ns::fillInertialYaml'): w.m.hooks['fn:' + q] = fill
            for q in ('transformBodyInertial', 'mergeBodyInertial'): w.m.hooks['fn:thunder_ns::' + q] = lambda *a: Top('void')
            runc(w, f, [], None)
            regs = [(k, v) for k, v in seen if k]
            if not regs: raise Give('no perturbed links are written')
            done = 0
            for k, v in regs:
                nl = vP(v[0]).num(); ls = v[2]
                if not isinstance(nl, int): raise Give('number of links not resolved')
                base = done; done = k
                if k - base != nl: raise Give('%d links perturbed, %d written' % (k - base, nl))
                for i in range(nl):
                    o = ls.get(toP(i)); p = lambda x: sym('per:%d.%s' % (base + i, x))
                    exp = to_reg([p('mass')] + [p('xyz.%d' % j) for j in range(3)] + [p('parI.%d' % j) for j in range(6)])
                    got = [o.get('mass')] + [o.get('xyz').get(toP(j)) for j in range(3)] + [o.get('parI').get(toP(j)) for j in range(6)]
                    worst = ('equal', '')
                    for kk, g, e in zip(INREG, got, exp):
                        st, why = diffP(g, e, VALS) if isinstance(g, P) else ('open', repr(g))
                        if st != 'equal': worst = (st, '%s: %s' % (kk, why))
                        if st == 'differs': break
                    put(c, 'genYAML regressor parameters', *worst, loc(f), 'link %d' % i)
                if k >= 2 * nl: break
        guardrun(c, 'genYAML', loc(f), '', go)

# ---------------- C18 ----------------
def oob(c, w, nm, mode, f):
    """obligations: every indexed access of the run stays inside the object it accesses"""
    worst = {}
    for e in w.m.events:
        if e.kind in ('rangewrite', 'rangeread'):
            # library range operations: [at, at+n) of a container; nothing is touched when n is 0
            k = ('bw' if e.kind == 'rangewrite' else 'br', e.loc); at, n_ = e.d['at'], e.d['n']
            idx = [(at, at + n_, e.d['size'])] if isinstance(at, P) and isinstance(n_, P) else [(None, None, None)]
        elif e.kind not in ('bw', 'br') or e.d['kind'] == 'sx': continue      # casadi rejects positions outside a matrix
        else: k = (e.kind, e.loc); idx = e.d['idx']
        st = 'equal'; why = ''
        for lo, hi, sz in idx:
            l, h, s = (x.num() if isinstance(x, P) else None for x in (lo, hi, sz))
            if l is None or h is None or s is None:
                if st == 'equal': st, why = 'open', 'position or size not resolved'
            elif h > l and (l < 0 or h > s):
                st, why = ('open' if e.pc else 'differs'), '%s position %d of %d entries' % ('writes' if k[0] == 'bw' else 'reads', h - 1 if h > s else l, s)
        old = worst.get(k)
        if old is None or (old[0] != 'differs' and st != 'equal'): worst[k] = (st, why)
    n = {'bw': 0, 'br': 0}
    for (kd, l), (st, why) in sorted(worst.items(), key=repr):
        n[kd] += 1
        put(c, '%s %s' % (nm, 'write' if kd == 'bw' else 'read'), st, why, l if isinstance(l, str) else '%s:%s' % l if isinstance(l, tuple) and len(l) == 2 else loc(f) if f else None, '%s, %s' % (mode, l))
    return n

@check('C18')
def c18(pid, prog):
    c = Check(pid, 'abstract interpretation of the loaders on documents of several shapes, lists and maps longer or shorter than the robot included; every indexed access is compared with the size of what it accesses')
    c.assume = ['the file is a document of one of the analysed shapes (numbers are arbitrary)', 'a casadi matrix rejects positions outside it by an exception', 'coefficient lists are at least as long as the order they belong to']
    more = [Shape('far more links, elastic joints and longer lists', ['R_SEA', 'P_SEA'], links=8, ejoints=6, elastic=(3, 2, 1), Dl=2, flags='mixed', extra=12),
            Shape('longer frames, gravity and DH table', ['R', 'R_SEA'], wide=2, flags='all'),
            Shape('longer flag lists, no elastic joint', ['R', 'P'], elastic=(1, 1, 1), ejoints=3, links=6, flags='all', extra=7),
            Shape('one joint, many links', ['R'], elastic=None, Dl=3, links=7, flags='mixed', extra=31),
            Shape('fewer links and elastic joints than the robot has', ['R_SEA', 'R', 'P_SEA', 'R_SEA'], links=2, ejoints=1, flags='mixed'),
            Shape('shorter flag lists everywhere', ['P_SEA', 'R'], flags='short', elastic=(1, 1, 1), Dl=1)]
    for sh in shapes() + more:
        mode = sh.label
        def gen():
            w = genload(prog, sh, partial=True); f = w.fns[-1]
            for g in w.fns: c.funcs.add('%s (%s)' % (g['qn'], loc(g)))
            oob(c, w, 'generator', mode, f)
        guardrun(c, 'generator', None, mode, gen)
        def genreg():
            f = prog.fn(P_ + 'load_par_REG')
            if f is None: raise Give('load_par_REG not found')
            w = genload(prog, sh, conf=False, partial=True)
            w.m.events.clear()
            runc(w, f, [Str('F')] + ([TRUE] if len(f['params']) > 1 else []), w.self_, True)
            c.funcs.add('%s (%s)' % (f['qn'], loc(f))); oob(c, w, 'load_par_REG', mode, f)
        guardrun(c, 'load_par_REG', None, mode, genreg)
        for fn in ('load_conf', 'load_par_REG'):
            def tpl():
                w = tplload(prog, sh, fn, partial=True); f = w.fns[0]
                c.funcs.add('%s (%s)' % (f['qn'].replace('tpl!', 'template '), loc(f))); oob(c, w, 'class ' + fn, mode, f)
            guardrun(c, 'class ' + fn, None, mode, tpl)
        def gy():
            for f in prog.byqn.get('thunder_ns::genInertial_files', []):
                w = sh.world(prog); w.m.exc = True; w.m.ydoc = sh.doc(); w.m.bounds = True
                runc(w, f, [Str('N'), toP(sh.n), Str('F'), Str('DYN'), Str('REG')], None, True)
                c.funcs.add('%s (%s)' % (f['qn'], loc(f))); oob(c, w, 'genInertial_files', mode, f)
        guardrun(c, 'genInertial_files', None, mode, gy)
        def lp():
            """parameter file whose lists are longer or shorter than the parameter vectors"""
            fs = [f for f in prog.byqn.get(P_ + 'load_par', []) if len(f['params']) == 2]
            if not fs: raise Give('load_par not found')
            f = fs[0]; c.funcs.add('%s (%s)' % (f['qn'], loc(f)))
            for d in (3, -1):
                w = genload(prog, sh, conf=False, partial=True); w.m.events.clear()
                w.m.ydoc = {k: [sh.v('lp', k, i) for i in range(max(0, len(l) + d))] for k, l in sh.values().items()}
                runc(w, f, [Str('F'), listV([], 'std::basic_string<char>')], w.self_, True)
                oob(c, w, 'load_par', '%s, lists %s' % (mode, 'longer' if d > 0 else 'shorter'), f)
        guardrun(c, 'load_par', None, mode, lp)
    # joint type list of the wrong length
    for n, tj in ((2, ['R']), (2, ['R', 'P', 'R']), (3, ['R_SEA', 'P']), (1, ['R', 'R_SEA']), (4, []), (1, ['R'] * 6)):
        mode = '%d joint types for %d joints' % (len(tj), n)
        def go():
            sh = Shape(mode, ['R'] * n, tj=tj, elastic=(2, 1, 1), ejoints=1)
            w = genload(prog, sh, conf=False, partial=True); f = w.fns[0]
            gv = incomplete(w)
            put(c, 'joint types of the wrong number are rejected', 'equal' if w.st.dead else 'open' if gv else 'differs', 'the file is accepted', loc(f), mode)
            oob(c, w, 'generator', mode, f)
        guardrun(c, 'joint types', None, mode, go)
    c.minimum = 20
    c.finish()
