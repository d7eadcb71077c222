"""C19, C20, C21, C24: the generator, run from its command line to the files it leaves."""
import posixpath, shutil, tempfile, os, re, json
from checks_sel import *
from vfs import *
import front

TPLDIR = '/usr/local/share/thunder_dynamics/thunder_robot_template/'
def srcfiles():
    d = front.SRC + '/thunder_robot_template/'; out = {}
    for f in sorted(os.listdir(d)):
        if os.path.isfile(d + f): out[norm(TPLDIR + f)] = open(d + f).read()
    return out

def table(sh):
    """functions registered by the robot under analysis: name, rows, columns, inputs, description"""
    n, e = sh.n, sh.nE
    t = [('M', n, n, ['q', 'par_DHtable', 'par_world2L0', 'par_DYN'], 'Mass matrix'), ('C', n, n, ['q', 'dq', 'par_DHtable', 'par_DYN'], 'Coriolis matrix'), ('C_std', n, 2 * n + 1, ['dq', 'q', 'par_DYN'], 'std'),
         ('T_0_1', 4, 4, ['q', 'par_DHtable', 'par_world2L0'], 'frame 1'), ('T_0_10', 4, 4, ['par_world2L0', 'q', 'par_DHtable', 'par_Ln2EE'], 'frame 10'), ('G', n, 1, ['q', 'par_DYN', 'par_gravity', 'par_DHtable'], 'gravity'),
         ('dM', n, 10 * n, ['q', 'dq', 'dqr', 'ddqr', 'par_DHtable'], 'regressor'), ('r1', 1, 1, ['w'], 'one input'), ('none', 3, 2, [], 'no inputs'), ('fr', n, 1, ['dq', 'par_Dl'], 'friction'),
         ('d4', n, 1, ['q', 'dq', 'ddq', 'd3q', 'd4q'], 'many')]
    if sh.on and e: t += [('k', e, 1, ['q', 'x', 'par_K'], 'elastic'), ('kk', e, n, ['x', 'dx', 'ddx', 'ddxr', 'par_D', 'par_Dm', 'par_Mm'], 'elastic more')]
    if n >= 8:
        for i in range(1, n + 1): t += [('J_%d' % i, 6, n, ['q', 'par_DHtable', 'par_world2L0'], 'Jacobian of frame %d' % i), ('J_cm_%d' % i, 6, n, ['q', 'par_DYN', 'par_DHtable'], 'Jacobian of link %d' % i), ('T_%d' % i, 4, 4, ['q', 'par_DHtable'], 'relative %d' % i), ('T_0_a%d' % i, 4, 4, ['q', 'par_DHtable'], 'absolute %d' % i), ('K%d' % i, n, n, ['par_K'], 'stiffness %d' % i)]
        t += [('all', 2, 2, ['q', 'dq', 'ddq', 'd3q', 'd4q', 'dqr', 'ddqr', 'x', 'dx', 'ddx', 'ddxr', 'w', 'par_DHtable', 'par_world2L0', 'par_Ln2EE', 'par_gravity', 'par_DYN', 'par_Dl', 'par_K', 'par_D', 'par_Dm', 'par_Mm'], 'every input')]
    if not sh.gravity: t = [(a, b, c, [x for x in d if x != 'par_gravity'], f) for a, b, c, d, f in t]
    fams = famvals(sh)
    return [(a, b, c, [x for x in d if not x.startswith('par_') or (x in fams and (sh.symb().get(x) is not None))], f) for a, b, c, d, f in t]

class Gen:
    def __init__(self, prog, sh, name='arm', python=False, copy=False, casadi=False, opt=None, conf=None, cwd='/work/space', fault=None, files=None, nofns=False):
        self.sh = sh; self.prog = prog
        w = self.w = rawworld(prog, sh); m = w.m; m.__class__ = GenM
        self.conf = conf or 'robots/%s.yaml' % name; self.name = opt or name; self.cwd = cwd
        cli = {'config_file': self.conf}
        if python: cli['--python'] = True
        if copy: cli['--copy'] = True
        if casadi: cli['--casadifunc'] = True
        if opt: cli['--name'] = opt
        m.setup(files={**srcfiles(), **(files or {})}, cli=cli, cwd=cwd, fault=fault)
        self.table = [] if nofns else table(sh); self.built = None
        for n in STEPS: m.hooks['fn:thunder_ns::compute_' + n] = self.step
        self.steps = []
        self.out = norm(posixpath.join(cwd, self.name + '_generatedFiles'))
    def step(self, m, f, args, this, st):
        lv = args[0] if isinstance(args[0], LVal) else m.lv(args[0], st)
        self.steps.append(f['qn'])
        if f['qn'].endswith('compute_dynamics'):
            add = self.prog.byqn.get(P_ + 'add_function', [])
            if not add: raise Give('add_function not found')
            for nm, r, c, l, d in self.table:
                m.call(add[0], [Str(nm), Mat(toP(r), toP(c), lambda i, j, nm=nm: toP(mkA('ent', 'expr' + nm, i, j)), 'sx'), listV([Str(x) for x in l], 'std::basic_string<char>'), Str(d)] + ([TRUE] if len(add[0]['params']) > 4 else []), lv, st)
        self.built = lv
        return ONE
    def main(self):
        f = self.prog.fn('main', 'thunder_main.cpp')
        if f is None: raise Give('main of thunder not found')
        self.f = f; self.w.thrown = None
        # objects with static storage are initialised before main
        self.w.m.frame = Frame({}, None, f)
        for g in sorted((g for g in self.prog.globals.values() if g['file'] == f['file']), key=lambda g: g['l']): self.w.m.glob({'qn': g['qn']}, self.w.st)
        self.ret = runc(self.w, f, [toP(3), Opq('ext', 'argv')])
        return self
    def text(self, p): return self.w.m.text(p)
    def result(self):
        """'ok', 'fail' or None; leaving by an exception is a failure"""
        if self.w.thrown: return 'fail'
        n = self.ret.num() if isinstance(self.ret, P) else None
        return None if n is None else 'ok' if n == 1 else 'fail' if n == 0 else None

# ---------------- the generated class ----------------
def stub_header(name, table, k):
    """declarations of the functions casadi generates (names, work sizes); two sets of sizes so that a size
    taken from another function, or the wrong one of the two, is too small in one of them"""
    out = ['#pragma once', '#ifndef casadi_real', '#define casadi_real double', '#endif', '#ifndef casadi_int', '#define casadi_int long long int', '#endif']
    for i, (f, args) in enumerate(table):
        iw, w = (10 + 3 * i, 500 + 7 * i) if k == 0 else (900 - 3 * i, 100 - i)
        out.append('extern "C" int %s(const casadi_real** arg, casadi_real** res, casadi_int* iw, casadi_real* w, int mem);' % f)
        for s, t in (('checkout', 'int'), ('alloc_mem', 'int'), ('n_in', 'casadi_int'), ('n_out', 'casadi_int')): out.append('extern "C" %s %s_%s(void);' % (t, f, s))
        out.append('extern "C" void %s_release(int mem);\nextern "C" int %s_init_mem(int mem);\nextern "C" void %s_free_mem(int mem);\nextern "C" void %s_incref(void);\nextern "C" void %s_decref(void);' % ((f,) * 5))
        out.append('extern "C" int %s_work(casadi_int *a, casadi_int* r, casadi_int *i, casadi_int *w);' % f)
        out.append('#define %s_SZ_ARG %d\n#define %s_SZ_RES 1\n#define %s_SZ_IW %d\n#define %s_SZ_W %d' % (f, max(len(args), 1), f, f, iw, f, w))
    return '\n'.join(out) + '\n', {f: (10 + 3 * i, 500 + 7 * i) if k == 0 else (900 - 3 * i, 100 - i) for i, (f, a) in enumerate(table)}

def arraysize(t):
    m = re.match(r'^(.*?)\s*\[(\d*)\]$', strip(t)); return (m.group(1), int(m.group(2) or 0)) if m else None

class ClsM(GenM):
    """evaluates methods of the generated class; pointers are the storage they point to"""
    def where(self, e, st):
        while e['k'] == 'Cast': e = e['e']
        if e['k'] == 'Null' or (e['k'] == 'Int' and int(e['v']) == 0): return None
        t = strip(e.get('t', ''))
        if e['k'] in ('Ref', 'Member') and (arraysize(t) or isVecT(t) or isEig(t)): 
            lv = self.lv(e, st); return Opq('ptr', lv.cell, lv.path)
        if e['k'] == 'MCall' and e.get('name') == 'data' or e['k'] == 'MCall' and e.get('name') == 'begin':
            lv = self.objlv(e, st); return Opq('ptr', lv.cell, lv.path)
        if e['k'] == 'Un' and e['op'] == '&':
            lv = self.lv(e['e'], st)
            if lv.path and lv.path[-1][0] in ('x', 'l'):
                i = lv.path[-1][1]; i = i[1] if isinstance(i, tuple) else i
                if isinstance(i, P) and i.num() == 0: return Opq('ptr', lv.cell, lv.path[:-1])
                raise Give('pointer into an array')
            return Opq('ptr', lv.cell, lv.path)
        v = self.ev(e, st)
        if isinstance(v, P) and v.num() == 0: return None
        return v
    def e_InitList(self, e, st):
        a = arraysize(e.get('t', ''))
        if a and a[0].endswith('*') or (isVecT(e.get('t', '')) and '*' in e.get('t', '')): return listV([self.where(x, st) for x in e['items']], a[0] if a else None)
        return super().e_InitList(e, st)
    def decl(self, v, st):
        a = arraysize(v['t'])
        if strip(v['t']).endswith('*') and v.get('init') is not None:
            i = v['init']
            while i['k'] == 'Cast': i = i['e']
            w = self.where(v['init'], st); self.frame.env[v['id']] = self.new(st, w if w is not None else ZERO)
        elif a and v.get('init') is None and not a[0].endswith('*'): self.frame.env[v['id']] = self.new(st, Vec(a[1], lambda k: Top('not written'), a[0]))
        else: super().decl(v, st)
        self.decls.append((v, self.frame.env[v['id']]))
    def ucall(self, e, args, this, st):
        if e.get('name') in self.stubs:
            ptrs = []
            for x in args[:4]:
                y = x
                while y['k'] == 'Cast': y = y['e']
                v = self.where(x, st)
                if isinstance(v, Opq) and v.tag == 'ptr' and len(ptrs) < 2:      # array of pointers
                    z = self.rd(st, LVal(v.args[0], v.args[1])); v = z if isinstance(z, Vec) else z
                ptrs.append(v)
            c = {'fn': e['name'], 'in': ptrs[0].tolist() if isinstance(ptrs[0], Vec) else [] if ptrs[0] is None else None, 'out': ptrs[1].tolist() if isinstance(ptrs[1], Vec) else None, 'iw': ptrs[2], 'w': ptrs[3], 'l': e.get('l')}
            # sizes at the time of the call
            def size(p):
                if not (isinstance(p, Opq) and p.tag == 'ptr'): return None
                v = self.rd(st, LVal(p.args[0], p.args[1])); n = v.size.num() if isinstance(v, Vec) else v.size().num() if isinstance(v, Mat) else None
                return int(n) if n is not None else None
            c['szs'] = [size(p) for p in (c['out'] or [])] + [None]; c['sziw'] = size(c['iw']); c['szw'] = size(c['w'])
            self.calls_.append(c)
            for p in c['out'] or []:
                if isinstance(p, Opq) and p.tag == 'ptr':
                    lv = LVal(p.args[0], p.args[1]); v = self.rd(st, lv); f = e['name']
                    if isinstance(v, Vec): self.wr(st, lv, Vec(v.size, lambda k, f=f: toP(mkA('ent', 'out:' + f, k)), v.et))
                    elif isinstance(v, Mat):
                        R = v.rows; self.wr(st, lv, Mat(v.rows, v.cols, lambda r, cc, f=f, R=R: toP(mkA('ent', 'out:' + f, cc * R + r)), v.kind))
            return ZERO
        return super().ucall(e, args, this, st)
    def mapof(self, t, vals):
        m = re.search(r'Eigen::Matrix<double, (-?\d+), (-?\d+)(?:, (\d+))?', t)
        if not m: return Top('Map of ' + t)
        R, C, O = int(m.group(1)), int(m.group(2)), int(m.group(3) or 0)
        n = [v for v in vals[1:] if isinstance(v, P)]
        if R < 0 and C < 0 and len(n) >= 2: R, C = n[0].num(), n[1].num()
        elif R < 0 and len(n) == 1: R = n[0].num()
        elif C < 0 and len(n) == 1: C = n[0].num()
        p = vals[0]
        if not (isinstance(p, Opq) and p.tag == 'ptr') or R is None or C is None or R < 0 or C < 0: return Top('Map')
        v = self.rd(self.cst, LVal(p.args[0], p.args[1]))
        if not isinstance(v, Vec): return Top('Map of a matrix')
        return Mat(R, C, (lambda r, c: self.P(v.get(r * C + c))) if O & 1 else (lambda r, c: self.P(v.get(c * R + r))), 'eig')
    def e_Construct(self, e, st):
        t = strip(e.get('t', '')); cls = e['cls']
        if cls.startswith('Eigen::Map') and not e.get('copy'):
            real = [a for a in e['args'] if not a.get('defarg')]; self.cst = st
            return self.mapof(t, [self.where(real[0], st)] + [self.ev(a, st) for a in real[1:]])
        if cls.startswith('Eigen::Matrix') and len(e['args']) == 1 and strip(e['args'][0].get('t', '')).endswith('*'):
            self.cst = st; return self.mapof(t, [self.where(e['args'][0], st)])
        return super().e_Construct(e, st)
    def m_vec(self, nm, e, st):
        if nm == 'data': return self.where(e, st)
        return super().m_vec(nm, e, st)

class Cls:
    """the generated class: parsed, with declarations standing for the functions casadi generates"""
    def __init__(self, g, k=0):
        self.g = g; n = g.name; self.err = None; m = g.w.m
        h, cpp = g.text(g.out + '/thunder_%s.h' % n), g.text(g.out + '/thunder_%s.cpp' % n)
        if h is None or cpp is None: raise Give('text of the generated class not resolved')
        self.h, self.cpp = h, cpp
        # functions in the generated library, and what each evaluates
        gen = m.files.get(g.out + '/%s_gen.cpp' % n) or []
        self.funs = []          # (C name, model function, inputs)
        reg = m.rd(g.w.st, LVal(g.built.cell, g.built.path + (('f', 'casadi_fun'),)))
        self.reg = {k2: reg.get(Str(k2)) for k2 in (m.mapkeys(reg) or [])} if isinstance(reg, MapV) else {}
        lst = [x for c in gen if isinstance(c, tuple) and c[0] == 'casadi code' for x in c[1]]
        self.libnames = []
        for x in lst:
            if not (isinstance(x, Opq) and x.tag == 'cfun'): raise Give('function given to the code generator not resolved')
            nm = lit(m.cfuns[x.args[0]][0])
            if nm is None: raise Give('name of a generated function not resolved')
            ins = m.cfuns[x.args[0]][1]; self.libnames.append(nm)
            self.funs.append((nm, ins.tolist() if isinstance(ins, Vec) else []))
        self.dir = tempfile.mkdtemp(prefix='genclass')
        try:
            open(self.dir + '/thunder_%s.h' % n, 'w').write(h); open(self.dir + '/thunder_%s.cpp' % n, 'w').write(cpp)
            s, self.sizes = stub_header(n, self.funs, k)
            open(self.dir + '/%s_gen.h' % n, 'w').write(s)
            self.prog = front.Program(us={'gen': (self.dir + '/thunder_%s.cpp' % n, ['-I', self.dir, '-I', front.VERIF + '/frontend/stubs'])}, pre=self.dir)
            if self.prog.errors: self.err = list(self.prog.errors.values())[0].replace(self.dir + '/', '')
        finally: shutil.rmtree(self.dir, ignore_errors=True)
        self.cls = 'thunder_' + n
        self.rec = self.prog.records.get(self.cls)
    def machine(self):
        m = ClsM(self.prog, {}); m.setup(); m.decls = []; m.calls_ = []; m.stubs = {f for f, a in self.funs}
        m.exc = True
        return m
    def run(self, f):
        m = self.machine(); st = State()
        d = {}
        for fl in self.rec['fields']:
            if isEig(fl['t']): d[fl['name']] = Mat(3, 1, lambda r, c, nm=fl['name']: toP(mkA('ent', 'fld:' + nm, r, c)), 'eig')
            else: d[fl['name']] = Top('field ' + fl['name'])
        try: base = m.mkobj(self.rec)
        except Give: base = None
        if base is not None:
            for k2, v in dict(base.fields).items():
                if isinstance(d.get(k2), Top) and not isinstance(v, Undef): d[k2] = v
        this = m.new(st, Obj(self.cls, d)); self.thiscell = this.cell
        r = m.call(f, [], this, st)
        return m, st, r

ROBOTS = [('arm', dict(), 0), ('R3', dict(), 1), ('my_robot_v2', dict(python=True), 0), ('robot', dict(), 1), ('snake', dict(python=True), 0)]
def gshapes():
    s = {x.label: x for x in shapes()}
    return [Shape('elastic', ['R', 'P', 'R_SEA'], flags='mixed', elastic=(2, 3, 1)), Shape('rigid', ['R', 'P', 'R', 'P'], elastic=None, Dl=1, flags='mixed'),
            Shape('all elastic', ['R_SEA', 'P_SEA'], elastic=(3, 1, 2), Dl=3), Shape('one joint', ['R'], elastic=None, Dl=2),
            Shape('many joints', ['R', 'P', 'R_SEA', 'R', 'R_SEA', 'P', 'R', 'R', 'P_SEA', 'R', 'R', 'R_SEA'], flags='mixed', elastic=(4, 2, 3), Dl=2)]

def gname(g): return '%s robot %s' % (g.sh.label, g.name)
_gens = {}
def gens(prog):
    k = id(prog)
    if k not in _gens:
        out = []
        for (n, kw, v), sh in zip(ROBOTS, gshapes()):
            try: out.append((Gen(prog, sh, n, **kw).main(), v))
            except Give as ex: out.append((str(ex), v))
        _gens[k] = out
    return _gens[k]

@check('C19')
def c19(pid, prog):
    c = Check(pid, 'the generator is evaluated from its command line to the text of the class (constant propagation over strings and files); that text is parsed and every getter interpreted')
    c.assume = ['casadi generates, for each function given to the code generator, a C function of its name writing the dense result column by column, and macros of its work sizes', 'std strings, streams and file system behave as modelled in engine/vfs.py', 'robot and function names do not contain pieces of the placeholders']
    for g, k in gens(prog):
        if isinstance(g, str): put(c, 'generation', 'open', g, None, ''); continue
        mode = gname(g); ch = prog.fn('thunder_ns::change_to_robot') or g.f; L = loc(ch)
        c.funcs |= {'%s (%s:%s)' % (q, f, l) for f, q, l in g.w.m.fns}
        def go():
            if g.result() != 'ok': put(c, 'generation completes', 'differs' if g.result() == 'fail' else 'open', 'ends with %s %s' % (g.ret, g.w.thrown or ''), loc(g.f), mode); return
            put(c, 'generation completes', 'equal', '', loc(g.f), mode)
            cl = Cls(g, k)
            if cl.err: put(c, 'generated class compiles', 'differs', cl.err[-700:], L, mode); return
            put(c, 'generated class compiles', 'equal', '', L, mode)
            if cl.rec is None: put(c, 'class name', 'differs', 'no class %s' % cl.cls, L, mode); return
            put(c, 'class name', 'equal', '', L, mode)
            # same members as the template, renamed
            t = prog.records.get('thunder_robot')
            tr = [r for r in (prog.units.get('template') or {'records': []})['records'] if r['qn'] == 'thunder_robot']
            t = tr[0] if tr else t
            if t:
                ren = lambda s: s.replace('robot', g.name)
                want = sorted(ren(x['name']) for x in t['methods'] if not x['dtor'] and not (x['ctor'])); have = sorted(x['name'] for x in cl.rec['methods'] if not x['dtor'] and not x['ctor'])
                lost = [x for x in want if x not in have]
                put(c, 'members of the template', 'differs' if lost else 'equal', 'missing: %s' % lost, L, mode)
            # constants
            W = g.w; rb = g.built
            def own(fn):
                f = prog.fn(P_ + fn)
                if f is None: raise Give(fn + ' not found')
                return W.m.call(f, [], rb, W.st)
            m = cl.machine(); base = m.mkobj(cl.rec)
            const = [('n_joints', 'get_numJoints'), ('numElasticJoints', 'get_numElasticJoints'), ('ELASTIC', 'get_ELASTIC'), ('K_order', 'get_K_order'), ('D_order', 'get_D_order'), ('Dl_order', 'get_Dl_order'), ('Dm_order', 'get_Dm_order')]
            asI = lambda v: iv(v) if isinstance(v, C) else v
            for a, b in const:
                def one():
                    v = asI(base.get(a)) if a in base.fields else None
                    w = asI(own(b))
                    st = 'open' if not isinstance(w, P) or w.num() is None else 'differs' if not isinstance(v, P) or v.num() is None or v.num() != w.num() else 'equal'
                    if v is None or isinstance(v, Undef): st = 'open' if a not in base.fields else st
                    put(c, 'constant ' + a, st, '%s instead of %s' % (v, w), L, mode)
                guardrun(c, 'constant ' + a, L, mode, one)
            def elj():
                v = base.get('isElasticJoint') if 'isElasticJoint' in base.fields else None; w = own('get_isElasticJoint')
                x = [asI(y).num() for y in v.tolist()] if isinstance(v, Vec) and v.tolist() is not None else None; y = [asI(z).num() for z in w.tolist()] if isinstance(w, Vec) and w.tolist() is not None else None
                put(c, 'constant isElasticJoint', 'open' if y is None or None in y or v is None else 'differs' if x != y else 'equal', '%s instead of %s' % (x, y), L, mode)
            guardrun(c, 'constant isElasticJoint', L, mode, elj)
            for fl in cl.rec['fields']:
                if fl['name'] == g.name + 'Name' or fl['name'] == 'robotName':
                    v = base.get(fl['name']); put(c, 'constant name', 'open' if lit(v) is None else 'equal' if lit(v) == g.name else 'differs', '%r' % (v,), L, mode)
            # functions of the library: each registered one, once, under <robot>_<name>_fun
            fm = {}
            for nm, fo in cl.reg.items():
                if isinstance(fo, Opq) and fo.tag == 'cfun': fm[nm] = lit(W.m.cfuns[fo.args[0]][0])
            gl = prog.fn(P_ + 'generate_library') or g.f
            for nm, r, cc, args, d in g.table:
                put(c, 'function of the library', 'open' if nm not in fm else 'equal' if cl.libnames.count(fm[nm]) == 1 else 'differs', '%s: %s occurs %d times' % (nm, fm.get(nm), cl.libnames.count(fm.get(nm))), loc(gl), '%s %s' % (mode, nm))
            # getters
            for nm, r, cc, args, d in g.table:
                md = '%s %s' % (mode, nm)
                ms = [x for x in cl.rec['methods'] if x['name'] == 'get_' + nm]
                fs = cl.prog.byqn.get('%s::get_%s' % (cl.cls, nm), [])
                if len(ms) != 1 or ms[0]['acc'] != 0: put(c, 'getter is declared', 'differs', '%d declarations' % len(ms), L, md); continue
                put(c, 'getter is declared', 'equal', '', L, md)
                if len(fs) != 1: put(c, 'getter is defined', 'differs', '%d definitions' % len(fs), L, md); continue
                put(c, 'getter is defined', 'equal', '', L, md)
                def one():
                    c.funcs.add('generated %s (%s)' % (fs[0]['qn'], loc(fs[0])))
                    m, st, ret = cl.run(fs[0])
                    cs = m.calls_
                    if not cs: put(c, 'getter calls its function', 'differs' if not isinstance(ret, Top) else 'open', 'no function of the library is called', L, md); return
                    if len(cs) > 1: put(c, 'getter calls its function', 'open', '%d calls' % len(cs), L, md); return
                    k1 = cs[0]
                    put(c, 'getter calls its function', 'equal' if k1['fn'] == fm.get(nm) else 'differs' if nm in fm else 'open', 'calls %s' % k1['fn'], L, md)
                    ins = k1['in']
                    if ins is None: put(c, 'inputs passed', 'open', 'not resolved', L, md)
                    else:
                        names = []
                        for p in ins:
                            ok = isinstance(p, Opq) and p.tag == 'ptr' and p.args[0] == cl.thiscell and len(p.args[1]) == 1
                            names.append(p.args[1][0][1] if ok else repr(p))
                        put(c, 'inputs passed', 'equal' if names == args else 'differs', '%s instead of %s' % (names, args), L, md)
                    need = cl.sizes.get(k1['fn'])
                    if need:
                        for what, have, n in (('integer work array', k1['sziw'], need[0]), ('work array', k1['szw'], need[1])):
                            put(c, what, 'open' if have is None else 'equal' if have >= n else 'differs', '%s entries, %s_SZ_%s are needed' % (have, k1['fn'], 'IW' if 'integer' in what else 'W'), L, md)
                    if k1['out'] is not None and (not k1['out'] or k1['out'][0] is None):
                        put(c, 'output buffer', 'differs', 'no place for the result is passed', L, md); return
                    put(c, 'output buffer', 'open' if k1['szs'][0] is None else 'equal' if k1['szs'][0] >= r * cc else 'differs', '%s entries for %dx%d' % (k1['szs'][0], r, cc), L, md)
                    exp = Mat(r, cc, lambda i, j: toP(mkA('ent', 'out:' + k1['fn'], j * r + i)), 'eig')
                    put(c, 'result', *cmpd(ret, exp), L, md)
                    for v, lv in m.decls:
                        if v.get('static') and not v.get('tls') and not v.get('const'): put(c, 'buffers', 'differs', '%s is shared by all threads' % v['name'], L, md, 'C19:shared ' + v['name'])
                guardrun(c, 'getter', L, md, one)
        guardrun(c, 'generation', L, mode, go)
    c.minimum = 1
    c.finish()

# ---------------- Python bindings (C20) ----------------
def strval(e):
    while e and e['k'] in ('Cast', 'Construct', 'Temp') and e.get('k') != 'Str':
        if e['k'] == 'Construct':
            if len([a for a in e['args'] if not a.get('defarg')]) != 1: return None
            e = e['args'][0]
        else: e = e['e']
    return e['v'] if e and e['k'] == 'Str' else None
def cval(e):
    """constant an expression stands for, as something comparable"""
    while e['k'] in ('Cast',) or (e['k'] == 'Construct' and len(e['args']) == 1): e = e['e'] if e['k'] == 'Cast' else e['args'][0]
    if e['k'] == 'Bool': return ('n', float(bool(e['v'])))
    if e['k'] in ('Int', 'Float', 'Real'): return ('n', float(e['v']))
    if e['k'] == 'Un' and e['op'] == '-':
        v = cval(e['e']); return ('n', -v[1]) if v and v[0] == 'n' else None
    if e['k'] == 'Str': return ('s', e['v'])
    return None
def bound(a, cls):
    """members of the class an argument of def names: directly, through a cast or inside a lambda"""
    out = []; lam = False
    for n in walk_(a):
        if n.get('k') == 'Lambda': lam = True
        if n.get('k') == 'Ref' and n.get('cls') == cls and 'Method' in (n.get('dk') or ''): out.append(n)
        elif n.get('k') == 'MCall' and n.get('cls') == cls: out.append(n)
    return out, lam
def bindings(prog):
    """[(entry name or None, node, class bound)] of all def calls in the generated sources"""
    out = []
    for fs in prog.byqn.values():
        for f in fs:
            for n in walk_([f.get('body')] + [i for i in f.get('inits') or []]):
                if n.get('k') == 'MCall' and n.get('name') in ('def', 'def_static', 'def_property_readonly', 'def_property') and (n.get('cls') or '').startswith('pybind11::class_'):
                    out.append((f, n))
    return out

PYROBOTS = [('arm', 0), ('my_robot_v2', 1), ('robot', 2), ('R3', 3), ('snake', 4)]
@check('C20')
def c20(pid, prog):
    c = Check(pid, 'the generator is evaluated with --python to the text of the module; the entries of the type-checked module are compared with the members of the class')
    c.assume = ['pybind11 registers each def under the name given', 'std strings, streams and file system behave as modelled in engine/vfs.py']
    for (name, i), k in zip(PYROBOTS, range(9)):
        sh = gshapes()[i]; mode = '%s robot %s' % (sh.label, name); L = loc(prog.fn('thunder_ns::add_bindings_template') or prog.fn('thunder_ns::change_to_robot'))
        def go():
            g = Gen(prog, sh, name, python=True).main()
            c.funcs.update('%s (%s:%s)' % (q, f, l) for f, q, l in g.w.m.fns)
            if g.result() != 'ok': put(c, 'generation completes', 'differs' if g.result() == 'fail' else 'open', 'ends with %s %s' % (g.ret, g.w.thrown or ''), loc(g.f), mode); return
            cl = Cls(g, k % 2)
            if cl.err: put(c, 'module compiles', 'differs', cl.err[-700:], L, mode); return
            put(c, 'module compiles', 'equal', '', L, mode)
            if cl.rec is None: put(c, 'module', 'open', 'class not found', L, mode); return
            inits = [q for q in cl.prog.byqn if q.startswith('pybind11_init_')]
            if not inits: put(c, 'module', 'differs', 'the generated source defines no module', L, mode); return
            put(c, 'module', 'equal' if len(inits) == 1 else 'differs', '%s' % inits, L, mode)
            # the class registered
            reg = [n for fs in cl.prog.byqn.values() for f in fs for n in walk_(f.get('body')) if n.get('k') == 'Construct' and (n.get('cls') or '').startswith('pybind11::class_') and len(n['args']) >= 2]
            names = [(strip(n['t'])[len('pybind11::class_<'):].split('>')[0].split(',')[0].strip(), strval(n['args'][1])) for n in reg]
            put(c, 'class of the module', 'equal' if names == [(cl.cls, cl.cls)] else 'open' if any(b is None for a, b in names) else 'differs', '%s' % names, L, mode)
            meth = {}
            for x in cl.rec['methods']:
                if not x['ctor'] and not x['dtor']: meth.setdefault(x['name'], []).append(x)
            ctor = False; seen = {}
            for f, n in bindings(cl.prog):
                a = n['args']
                if a and 'pybind11::init_' in strip(a[0].get('t', '')): ctor = True; continue
                nm = strval(a[0]) if a else None
                if nm is None: put(c, 'entry', 'open', 'name not resolved', L, mode); continue
                if nm.startswith('__'): continue
                md = '%s %s' % (mode, nm); where = L
                b, lam = bound(a[1], cl.cls)
                tg = sorted({x.get('name') for x in b})
                seen[nm] = seen.get(nm, 0) + 1
                if len(tg) != 1: put(c, 'entry binds the member of its name', 'open' if not lam and not tg or len(tg) > 1 or lam else 'differs', 'binds %s' % tg, where, md); continue
                put(c, 'entry binds the member of its name', 'equal' if tg[0] == nm else 'differs', 'binds %s::%s' % (cl.cls, tg[0]), where, md)
                if tg[0] != nm: continue
                decl = [x for x in meth.get(nm, []) if len(meth[nm]) == 1 or x['sig'] == b[0].get('sig')]
                if len(decl) != 1 or lam: put(c, 'arguments of an entry', 'open' if lam else 'equal', '', where, md); continue
                ps = decl[0]['params']
                pas = []; odd = False
                for x in a[2:]:
                    t = strip(x.get('t', ''))
                    if t == 'pybind11::arg': pas.append((next((strval(y['args'][0]) for y in walk_(x) if y.get('k') == 'Construct' and y.get('cls') == 'pybind11::arg' and y['args'] and strval(y['args'][0])), None), None))
                    elif t == 'pybind11::arg_v':
                        o = next((y for y in walk_(x) if y.get('k') == 'OpCall' and y.get('op') == '='), None)
                        if o is None: odd = True; continue
                        pas.append((next((strval(y['args'][0]) for y in walk_(o['args'][0]) if y.get('k') == 'Construct' and y.get('cls') == 'pybind11::arg' and y['args'] and strval(y['args'][0])), None), o['args'][1]))
                if odd: put(c, 'arguments of an entry', 'open', 'form of a default', where, md); continue
                # pybind11 refuses to import a module whose entry names another number of arguments
                put(c, 'number of arguments', 'equal' if not pas or len(pas) == len(ps) else 'differs', '%d named, the method has %d' % (len(pas), len(ps)), where, md)
                for j, p in enumerate(ps):
                    pn = p['name'].rstrip('_'); have = pas[j] if j < len(pas) else None; md2 = '%s argument %d' % (md, j)
                    d = p.get('init')
                    if have is None:
                        put(c, 'default of an argument', 'differs' if d is not None else 'equal', 'the C++ default is not given', where, md2); continue
                    others = [q['name'].rstrip('_') for q in ps if q is not p]
                    put(c, 'name of an argument', 'differs' if have[0] in others and have[0] != pn else 'equal', '%s instead of %s' % (have[0], pn), where, md2)
                    if d is None or have[1] is None: put(c, 'default of an argument', 'equal' if d is None and have[1] is None else 'differs', 'only %s has a default' % ('C++' if have[1] is None else 'Python'), where, md2); continue
                    u, v = cval(d), cval(have[1])
                    put(c, 'default of an argument', 'open' if u is None or v is None else 'equal' if u == v else 'differs', 'Python %s, C++ %s' % (v, u), where, md2)
            put(c, 'constructor', 'equal' if ctor else 'differs', 'no constructor is bound', L, mode)
            for nm, ds in sorted(meth.items()):
                if not re.match(r'(set|get|load|save|resize)(_|[A-Z])', nm): continue
                pub = [x for x in ds if x['acc'] == 0]
                if not pub: continue
                k2 = seen.get(nm, 0)
                put(c, 'member is bound', 'equal' if k2 == 1 or 1 <= k2 <= len(pub) else 'differs', '%s::%s has %d entries' % (cl.cls, nm, k2), L, '%s %s' % (mode, nm))
            for nm, r, cc, args, d in g.table:
                k2 = seen.get('get_' + nm, 0)
                put(c, 'generated function is bound', 'equal' if k2 == 1 else 'differs', 'get_%s has %d entries' % (nm, k2), loc(prog.fn('thunder_ns::change_to_robot')), '%s %s' % (mode, nm))
            # the module built is the one defined, from the files generated
            U = loc(prog.fn('thunder_ns::update_cmake') or g.f)
            cm = g.text(g.out + '/CMakeLists.txt')
            if cm is None: put(c, 'build description of the module', 'differs' if g.out + '/CMakeLists.txt' not in g.w.m.files else 'open', 'no CMakeLists.txt beside the class', U, mode); return
            txt = re.sub(r'#.*', '', cm); var = {}
            for a, b in re.findall(r'\bset\s*\(\s*(\w+)\s+([^)]*)\)', txt): var[a] = b
            pj = re.search(r'\bproject\s*\(\s*([^\s)]+)', txt)
            if pj: var['PROJECT_NAME'] = pj.group(1)
            for _ in range(4): txt = re.sub(r'\$\{(\w+)\}', lambda x: var.get(x.group(1), x.group(0)), txt)
            mo = re.search(r'\bpybind11_add_module\s*\(([^)]*)\)', txt)
            if not mo or '${' in mo.group(1): put(c, 'build description of the module', 'open', 'no module described', U, mode); return
            w = [x for x in mo.group(1).split() if x not in ('MODULE', 'SHARED', 'NO_EXTRAS', 'THIN_LTO', 'EXCLUDE_FROM_ALL')]
            put(c, 'module built is the one defined', 'equal' if ['pybind11_init_' + w[0]] == inits else 'differs', '%s is built, %s is defined' % (w[0], inits), U, mode)
            miss = [x for x in w[1:] if norm(posixpath.join(g.out, x)) not in g.w.m.files]
            need = ['thunder_%s.cpp' % g.name, '%s_gen.cpp' % g.name]; lost = [x for x in need if x not in [posixpath.basename(y) for y in w[1:]]]
            put(c, 'sources of the module', 'differs' if miss or lost else 'equal', 'not generated: %s, not built: %s' % (miss, lost), U, mode)
        guardrun(c, 'module', L, mode, go)
    c.minimum = 1
    c.finish()

# ---------------- files of a run (C21) ----------------
def docof(g, p):
    """the document written to the file p by the run g"""
    w = g.w
    raws = [e.d['path'] for e in w.m.events if e.kind == 'open' and lit(e.d['path']) is not None and norm(posixpath.join(g.cwd, lit(e.d['path']))) == p and 'ofstream' in e.d['cls']]
    if not raws: raise Give('not written by a stream')
    return written(w, 0, raws[-1])
def same_doc(a, b, path=''):
    """status of the comparison of two documents"""
    if isinstance(a, dict) and isinstance(b, dict):
        ka, kb = set(map(str, a)), set(map(str, b))
        if ka != kb: return 'differs', '%s: %s' % (path or 'document', sorted(ka ^ kb)[:6])
        worst = ('equal', '')
        bb = {str(k): v for k, v in b.items()}
        for k, v in a.items():
            r = same_doc(v, bb[str(k)], path + '/' + str(k))
            if r[0] == 'differs': return r
            if r[0] == 'open': worst = r
        return worst
    if isinstance(a, list) and isinstance(b, list):
        if len(a) != len(b): return 'differs', '%s: %d entries instead of %d' % (path, len(a), len(b))
        worst = ('equal', '')
        for i, (x, y) in enumerate(zip(a, b)):
            r = same_doc(x, y, '%s/%d' % (path, i))
            if r[0] == 'differs': return r
            if r[0] == 'open': worst = r
        return worst
    if isinstance(a, P) and isinstance(b, P):
        r = diffP(a, b, VALS); return (r[0], '%s: %s' % (path, r[1])) if r[0] != 'equal' else ('equal', '')
    if isinstance(a, Str) and isinstance(b, Str) and lit(a) is not None and lit(b) is not None: return ('equal', '') if lit(a) == lit(b) else ('differs', '%s: %s, %s' % (path, a, b))
    if repr(a) == repr(b): return 'equal', ''
    if type(a) != type(b) and isinstance(a, (dict, list)) != isinstance(b, (dict, list)): return 'differs', '%s: another structure' % path
    return 'open', '%s: %r, %r' % (path, a, b)
def frame(t):
    """lines of a template that neither carry its name nor a placeholder"""
    return [l.strip() for l in t.split('\n') if l.strip() and not re.search(r'robot|/\*#|#\*/|/\*OPT', l, re.I)]
def inorder(lines, text):
    have = [l.strip() for l in text.split('\n')]; i = 0
    for l in lines:
        try: i = have.index(l, i) + 1
        except ValueError: return l
    return None

VARIANTS = [dict(conf='arm.yaml'), dict(conf='robots/arm/arm.yaml', copy=True), dict(conf='../a.b/arm7.yaml', python=True, copy=True, cwd='/ws/thunder/src/thunder/build'),
            dict(conf='lamy.yaml', copy=True, python=True), dict(conf='a.yaml', casadi=True, copy=True, cwd='/x/src/thunder/build'), dict(conf='/abs/x.yaml', opt='other', copy=True), dict(conf='robots/x/arm.yml', opt=None),
            dict(conf='cfg', opt='k9', python=True), dict(conf='./d/yaml.yaml', copy=True), dict(conf='./robot_b.yaml', copy=True, stale=True, python=True, casadi=True), dict(conf='my_robot.yaml', copy=True, cwd='/build'), dict(conf='R3/R3.yaml', copy=True, stale=True, cwd='/w/build/builder'),
            dict(conf='thunder.yaml', opt='thunder', python=True, copy=True), dict(conf='ayamlb.yaml', copy=True), dict(conf='robots/build/build.yaml', copy=True), dict(conf='robots/v.1/ur5.v2.yaml', copy=True)]
DEV = '/home/thunder_dev/thunder_dynamics'
def outputs(out, n, python=False):
    l = {'%s_gen.h' % n: 'library', '%s_gen.cpp' % n: 'library', 'thunder_%s.h' % n: 'class', 'thunder_%s.cpp' % n: 'class', '%s_conf.yaml' % n: 'parameters', '%s_par_REG.yaml' % n: 'parameters'}
    if python: l['CMakeLists.txt'] = 'build description'
    return {norm(posixpath.join(out, k)): v for k, v in l.items()}
def copies(out, n, pre):
    m = {}
    for proj in ('thunder_robot', 'thunder_robot_chrono'):
        d = norm('%s/src/%s' % (pre, proj))
        for f, s in (('%s_gen.h' % n, 'library'), ('thunder_%s.h' % n, 'library'), ('%s_gen.cpp' % n, 'src'), ('thunder_%s.cpp' % n, 'src'), ('%s_conf.yaml' % n, 'robots'), ('%s_par_REG.yaml' % n, 'robots')):
            m['%s/%s/%s' % (d, s, f)] = norm(posixpath.join(out, f))
    return m

@check('C21')
def c21(pid, prog):
    c = Check(pid, 'constant propagation from the command line to the files: which exist, where, with which contents')
    c.assume = ['std strings, streams, paths and file system, the command line parser and the code generator of casadi behave as modelled in engine/vfs.py', 'a working directory called build is that of src/thunder of the repository']
    shs = gshapes(); tpl = srcfiles()
    tp = {posixpath.basename(p): t for p, t in tpl.items()}
    for i, v in enumerate(VARIANTS):
        v = dict(v); stale = v.pop('stale', False); conf = v['conf']; N = v.get('opt') or posixpath.splitext(posixpath.basename(conf))[0]
        cwd = v.get('cwd', '/work/space'); sh = shs[i % 5]
        mode = '%s%s in %s%s' % (' '.join(k for k in ('python', 'copy', 'casadi') if v.get(k)) + ' ', conf, cwd, ' named ' + v['opt'] if v.get('opt') else '') + (' again' if stale else '')
        L = loc(prog.fn('main', 'thunder_main.cpp') or {'file': None, 'l': None})
        def go():
            out = norm(posixpath.join(cwd, N + '_generatedFiles'))
            pre = norm(cwd + '/../../..') if posixpath.basename(cwd) == 'build' else DEV
            cp = copies(out, N, pre)
            old = {}
            if stale: old = {p: 'left by an earlier run\n' for p in list(outputs(out, N, v.get('python'))) + list(cp)}
            g = Gen(prog, sh, N, **v, files=old).main(); m = g.w.m
            c.funcs.update('%s (%s:%s)' % (q, f, l) for f, q, l in m.fns)
            if g.result() != 'ok': put(c, 'run completes', 'differs' if g.result() == 'fail' else 'open', 'ends with %s %s' % (g.ret, g.w.thrown or ''), L, mode); return
            put(c, 'run completes', 'equal', '', L, mode)
            # the configuration and the name
            rn = fldv(g.w, g.built, 'robotName') if g.built else None
            put(c, 'robot name', 'open' if lit(rn) is None else 'equal' if lit(rn) == N else 'differs', '%r instead of %r' % (rn, N), L, mode)
            put(c, 'configuration read', 'equal' if norm(posixpath.join(cwd, conf)) in m.used else 'differs', 'reads %s' % m.used[:3], L, mode)
            exp = outputs(out, N, v.get('python'))
            for p, kind in sorted(exp.items()):
                put(c, 'file is written', 'equal' if p in m.files and m.files[p] != 'left by an earlier run\n' else 'differs', '%s: %s' % (kind, 'missing' if p not in m.files else 'not replaced'), L, '%s: %s' % (mode, p))
            put(c, 'templates stay as they are', 'equal' if all(m.files.get(p) == t for p, t in tpl.items()) else 'differs', 'changed: %s' % [p for p, t in tpl.items() if m.files.get(p) != t], L, mode)
            allowed = set(exp) | set(tpl) | (set(cp) if v.get('copy') else set())
            extra = [p for p in m.files if p not in allowed and not p.startswith(out + '/')]
            put(c, 'nothing else is written', 'differs' if extra else 'equal', '%s' % extra[:5], L, mode)
            if not v.get('python'): put(c, 'nothing else is written', 'differs' if norm(out + '/CMakeLists.txt') in m.files else 'equal', 'CMakeLists.txt without --python', L, mode + ' build description')
            # contents
            reg = m.rd(g.w.st, LVal(g.built.cell, g.built.path + (('f', 'casadi_fun'),)))
            nreg = len(m.mapkeys(reg)) if isinstance(reg, MapV) and m.mapkeys(reg) is not None else None
            for s, t in (('.h', 'casadi header'), ('.cpp', 'casadi code')):
                x = m.files.get('%s/%s_gen%s' % (out, N, s))
                x = x[0] if isinstance(x, list) and len(x) == 1 else None
                put(c, 'library holds the functions', 'differs' if not (isinstance(x, tuple) and x[0] == t) else 'open' if nreg is None else 'equal' if len(x[1]) == nreg else 'differs', '%s instead of %s functions' % (len(x[1]) if isinstance(x, tuple) else x, nreg), L, mode + ' ' + s)
            for s in ('.h', '.cpp'):
                x = g.text('%s/thunder_%s%s' % (out, N, s)); t = tp.get('thunder_robot' + s)
                if x is None or t is None: put(c, 'class comes from its template', 'open', 'text not resolved', L, mode + ' ' + s); continue
                l = inorder(frame(t), x); left = re.findall(r'.*\bthunder_robot\b.*', x) if N != 'robot' else []
                put(c, 'class comes from its template', 'equal' if l is None else 'differs', 'line of the template not found: %s' % l, L, mode + ' ' + s)
                put(c, 'class is renamed', 'differs' if left or 'thunder_' + N not in x else 'equal', 'still has %s' % left[:2], L, mode + ' ' + s)
            if v.get('python'):
                x = g.text(out + '/CMakeLists.txt')
                if x is not None:
                    l = inorder(frame(tp.get('CMakeLists.txt', '')), x); left = re.findall(r'.*\bthunder_robot\b.*', x) if N != 'robot' else []
                    put(c, 'build description comes from its template', 'equal' if l is None and not left else 'differs', 'line %s, still has %s' % (l, left[:2]), L, mode)
            for f, fn in (('_conf.yaml', 'save_conf'), ('_par_REG.yaml', 'save_par_REG')):
                def doc():
                    a = docof(g, '%s/%s%s' % (out, N, f))
                    sv = prog.fn(P_ + fn)
                    if sv is None: raise Give(fn + ' not found')
                    n = len(m.events); m.faultf = None
                    m.call(sv, [Str('/reference' + f)], g.built, g.w.st)
                    b = written(g.w, n, Str('/reference' + f))
                    del m.files['/reference' + f]
                    put(c, 'parameters file', *same_doc(a, b), L, mode + ' ' + f)
                guardrun(c, 'parameters file', L, mode + ' ' + f, doc)
            if v.get('copy'):
                for d, s in sorted(cp.items()):
                    x, y = m.files.get(d), m.files.get(s)
                    put(c, 'file is copied', 'differs' if x is None else 'equal' if x == y and x is not None and x != 'left by an earlier run\n' else 'differs', 'missing' if x is None else 'not the contents of %s' % s, L, '%s: %s' % (mode, d))
            if v.get('casadi'):
                l = [p for p in m.files if p.endswith('.casadi') and p.startswith(out + '/')]
                fs = sorted(repr(m.files[p][0][1]) for p in l if isinstance(m.files[p], list) and m.files[p] and isinstance(m.files[p][0], tuple))
                want = sorted(repr(reg.get(Str(k))) for k in m.mapkeys(reg)) if nreg is not None else None
                put(c, 'functions are saved', 'open' if want is None else 'equal' if fs == want else 'differs', '%d of %d functions' % (len(fs), nreg or 0), loc(prog.fn(P_ + 'generate_library')), mode)
        guardrun(c, 'files', L, mode, go)
    c.minimum = 1
    c.finish()

# ---------------- failures are reported (C24) ----------------
class Faults:
    """lets the k-th operation that can fail do so; counts them"""
    KINDS = ('read', 'create', 'write', 'copy', 'mkdir', 'codegen', 'directory')
    def __init__(self, k=None, exc=None): self.k = k; self.n = 0; self.hit = None; self.exc = exc; self.points = []
    def at(self, kind, what, where=None):
        i = self.n; self.n += 1; self.points.append((kind, what))
        if i == self.k: self.hit = (kind, what); return True
        return False
    def vfs(self, kind, path, m): return kind in self.KINDS and self.at(kind, path)
    def yaml(self, kind, e, st):
        if self.at(kind, 'line %s' % e.get('l')): return self.exc or True
        return False

def verdict(w, ret):
    if w.thrown: return 'fail'
    n = ret.num() if isinstance(ret, P) else iv(ret).num() if isinstance(ret, C) else None
    return None if n is None else 'ok' if n != 0 else 'fail'

def sweep(c, name, run, where, mode, limit=400, lost=None):
    """run(faults) -> (result, produced); result of a run one operation of which failed is not success,
    unless what it produced is what the run without failures produces"""
    def first():
        F = Faults(); r, out = run(F)
        put(c, name + ': succeeds', 'equal' if r == 'ok' else 'open' if r is None else 'differs', 'reports failure although nothing failed', where, mode)
        if r != 'ok': return None
        return F.points, out
    x = []
    guardrun(c, name + ': succeeds', where, mode, lambda: x.append(first()))
    if not x or x[0] is None: return
    pts, out0 = x[0]
    for k, (kind, what) in list(enumerate(pts))[:limit]:
        for exc in ((None, 'YAML::ParserException') if kind == 'loadfile' else (None, 'YAML::InvalidNode') if kind == 'yas' else (None,)):
            md = '%s: %s %s fails%s' % (mode, kind, ' to '.join(posixpath.basename(y) or y for y in what) if isinstance(what, tuple) else what, ' (%s)' % exc if exc else '')
            def one():
                F = Faults(k, exc); r, out = run(F)
                if F.hit is None: put(c, name, 'open', 'the operation is not reached again', where, md); return
                if r == 'fail': put(c, name, 'equal', '', where, md); return
                if r is None: put(c, name, 'open', 'result not resolved', where, md); return
                put(c, name, 'equal' if out is not None and kind in ('directory', 'read', 'mkdir') and out == out0 else 'differs', 'reports success', where, md, 'C24:%s %s' % (name, kind))
            guardrun(c, name, where, md, one)

@check('C24')
def c24(pid, prog):
    c = Check(pid, 'every operation that can fail during a run is made to fail in turn, in the abstract interpretation of the operation; the value it returns, or the exception that leaves it, is its report')
    c.assume = ['one operation fails at a time', 'a stream that cannot be opened or written is in failed state from then on; buffered text is written when the stream is flushed or closed', 'std, yaml-cpp and casadi operations fail as modelled in engine/vfs.py and engine/lib.py', 'the exit status 1 of thunder means success, as in its main']
    sh = Shape('two joints, one elastic', ['R', 'R_SEA'], flags='mixed', elastic=(2, 1, 2), Dl=2)
    rigid = Shape('rigid', ['R', 'P'], flags='mixed', elastic=None, Dl=0)
    def L(qn): 
        f = prog.fn(qn); return loc(f) if f else None
    mainf = prog.fn('main', 'thunder_main.cpp')
    # --- the program ---
    def whole(sh, kw, vfs, yaml):
        def run(F):
            g = Gen(prog, sh, 'arm', nofns=True, fault=F.vfs if vfs else None, **kw)
            if yaml: g.w.m.hooks['fault'] = F.yaml
            g.main(); c.funcs.update('%s (%s:%s)' % (q, f, l) for f, q, l in g.w.m.fns)
            tail(g.w, 'thunder gen', loc(mainf) if mainf else None)
            return g.result(), {p: repr(v) if not isinstance(v, str) else v for p, v in g.w.m.files.items() if p in outputs(g.out, 'arm', True)}
        return run
    seen = set()
    def tail(w, name, where):
        """text still in a buffer when a successful operation ends: its writing is checked by nobody"""
        for s in w.m.streams.values():
            if s['kind'] == 'out' and s['open'] and s.get('dirty') and (name, s['path']) not in seen:
                seen.add((name, s['path'])); put(c, name + ': files are closed before success is reported', 'differs', '%s is written after the result is decided' % s['path'], where, '', 'C24:%s unflushed' % name)
    W = loc(mainf) if mainf else None
    for kw, s in ((dict(python=True, copy=True, casadi=True), sh), (dict(), rigid), (dict(copy=True, cwd='/w/src/thunder/build'), rigid), (dict(python=True, copy=True, cwd='/w', files=dict(list({p: 'of an earlier run' for p in outputs('/w/arm_generatedFiles', 'arm', True)}.items()) + [(p, 'of an earlier run') for p in copies('/w/arm_generatedFiles', 'arm', DEV)])), rigid)):
        sweep(c, 'thunder gen', whole(s, kw, True, False), W, (' '.join(k for k in kw if kw[k] is True) or 'no option') + (' again' if 'files' in kw else ''))
    sweep(c, 'thunder gen', whole(sh, {}, False, True), W, 'configuration')
    # templates that are not there
    for miss in ('thunder_robot.h', 'thunder_robot.cpp', 'CMakeLists.txt'):
        def one():
            g = Gen(prog, rigid, 'arm', nofns=True, python=True); g.w.m.files.pop(norm(TPLDIR + miss), None); g.main()
            r = g.result(); put(c, 'thunder gen', 'open' if r is None else 'equal' if r == 'fail' else 'differs', 'reports success', W, 'template %s missing' % miss)
        guardrun(c, 'thunder gen', W, 'template %s missing' % miss, one)
    # --- operations of the library on files ---
    def robot():
        g = Gen(prog, sh, 'arm', nofns=True).main()
        if g.result() != 'ok' or g.built is None: raise Give('no robot to work on')
        return g
    def op(qn, args, files, np=None, yaml=False, on=True):
        def run(F):
            g = robot(); l = [f for f in prog.byqn.get(qn, []) if np is None or len(f['params']) == np]
            if not l: raise Give(qn + ' not found')
            f = l[0]; w = g.w; w.thrown = None; w.st.dead = False
            w.m.setup(files=dict(files(g)), cwd='/work', fault=F.vfs)
            w.m.hooks.pop('fault', None)
            if yaml: w.m.hooks['fault'] = F.yaml
            c.funcs.add('%s (%s)' % (qn, loc(f)))
            a = args(g)
            try: r = runc(w, f, a, g.built if on else None)
            finally: w.m.hooks.pop('fault', None)
            v = verdict(w, r); w.st.dead = False
            if v == 'ok': tail(w, qn.split('::')[-1], loc(f))
            return v, {p: repr(x) for p, x in w.m.files.items()}
        return run
    T = srcfiles()
    tf = lambda g: {'/o/t.h': T[norm(TPLDIR + 'thunder_robot.h')], '/o/t.cpp': T[norm(TPLDIR + 'thunder_robot.cpp')], '/o/CMakeLists.txt': T[norm(TPLDIR + 'CMakeLists.txt')]}
    rb = lambda g: g.w.m.rd(g.w.st, g.built)
    for py in (TRUE, FALSE):
        sweep(c, 'change_to_robot', op('thunder_ns::change_to_robot', lambda g: [Str('robot'), Str('arm'), g.built, Str('/o/t.h'), Str('/o/t.cpp'), py], tf, on=False), L('thunder_ns::change_to_robot'), 'python' if py is TRUE else 'plain')
    sweep(c, 'update_cmake', op('thunder_ns::update_cmake', lambda g: [Str('robot'), Str('arm'), Str('/o/CMakeLists.txt')], tf, on=False), L('thunder_ns::update_cmake'), '')
    sweep(c, 'add_bindings_template', op('thunder_ns::add_bindings_template', lambda g: [Str('/o/t.cpp')], tf, on=False), L('thunder_ns::add_bindings_template'), '')
    sweep(c, 'copy_to', op('copy_to', lambda g: [Str('arm'), Str('/o/'), Str('/d/c/'), Str('/d/p/'), Str('/d/h/'), Str('/d/s/')], lambda g: {'/o/' + posixpath.basename(p): 'x' for p in outputs('/o', 'arm')}, on=False), L('copy_to'), '')
    for fn in ('save_conf', 'save_par_REG'):
        sweep(c, fn, op(P_ + fn, lambda g: [Str('/o/f.yaml')], lambda g: {}), L(P_ + fn), '')
    fams = lambda *l: listV([Str(x) for x in l], 'std::basic_string<char>')
    sweep(c, 'save_par', op(P_ + 'save_par', lambda g: [Str('/o/f.yaml'), fams('par_DYN', 'par_K')], lambda g: {}, 2), L(P_ + 'save_par'), '')
    # --- loading ---
    def load(qn, args, doc=None, np=None, conf=False):
        def run(F):
            l = [f for f in prog.byqn.get(qn, []) if np is None or len(f['params']) == np]
            if not l: raise Give(qn + ' not found')
            c.funcs.add('%s (%s)' % (qn, loc(l[0])))
            w = genload(prog, sh, conf=False)
            if w.st.dead: raise Give('robot not created')
            if doc is not None: w.m.ydoc = doc
            w.thrown = None; w.m.hooks['fault'] = F.yaml
            r = runc(w, l[0], args + ([TRUE] if len(l[0]['params']) > len(args) else []), w.self_)
            return verdict(w, r), None
        return run
    sweep(c, 'load_conf_par', load(P_ + 'load_conf_par', [Str('F')]), L(P_ + 'load_conf_par'), '')
    vals = {k: v for k, v in famvals(sh).items() if k in ('par_DYN', 'par_K', 'par_gravity')}
    for byname in (True, False):
        sweep(c, 'load_par', load(P_ + 'load_par', [Str('F'), fams(*(vals if byname else []))], doc={k: list(v) for k, v in vals.items()}, np=2), L(P_ + 'load_par'), 'names' if byname else 'all')
    def missing():
        w = genload(prog, sh, conf=False); w.m.ydoc = {k: list(v) for k, v in vals.items()}; w.thrown = None
        f = [f for f in prog.byqn.get(P_ + 'load_par', []) if len(f['params']) == 2][0]
        r = verdict(w, runc(w, f, [Str('F'), fams('par_DYN', 'par_Dm')], w.self_))
        put(c, 'load_par', 'open' if r is None else 'equal' if r == 'fail' else 'differs', 'reports success', loc(f), 'a parameter is not in the file')
    guardrun(c, 'load_par', None, 'a parameter is not in the file', missing)
    def fromfile(sh, step):
        def run(F):
            w = rawworld(prog, sh)
            for n in STEPS: w.m.hooks['fn:thunder_ns::compute_' + n] = lambda m, f, a, t, st: ONE
            w.m.hooks['fault'] = F.yaml; w.thrown = None
            if step == 'robot_from_file':
                f = prog.fn('thunder_ns::robot_from_file'); a = [Str('N'), Str('F')] + ([TRUE] if len(f['params']) > 2 else [])
                runc(w, f, a)
            else:
                ct = [f for f in prog.byqn.get(P_ + 'Robot', []) if f['params'] and ('string' if step == 'Robot(file)' else 'Node') in f['params'][0]['t']]
                if not ct: raise Give('no such constructor')
                o = w.m.new(w.st, w.m.mkobj(prog.record('thunder_ns::Robot')))
                runc(w, ct[0], [Str('F') if step == 'Robot(file)' else Opq('Y', ('file',), ())], o)
            return ('fail' if w.thrown else 'ok'), None
        return run
    for s in ('robot_from_file', 'Robot(file)', 'Robot(node)'):
        for x in (sh, rigid): sweep(c, s, fromfile(x, s), L('thunder_ns::robot_from_file') if s == 'robot_from_file' else L(P_ + 'load_config'), x.label)
    # --- configurations that are not usable ---
    def bad(name, edit):
        def one():
            for step in ('robot_from_file', 'Robot(file)'):
                w = rawworld(prog, sh)
                for n in STEPS: w.m.hooks['fn:thunder_ns::compute_' + n] = lambda m, f, a, t, st: ONE
                d = w.m.ydoc; edit(d); w.thrown = None
                if step == 'robot_from_file':
                    f = prog.fn('thunder_ns::robot_from_file'); runc(w, f, [Str('N'), Str('F')] + ([TRUE] if len(f['params']) > 2 else []))
                else:
                    f = [f for f in prog.byqn.get(P_ + 'Robot', []) if f['params'] and 'string' in f['params'][0]['t']][0]
                    runc(w, f, [Str('F')], w.m.new(w.st, w.m.mkobj(prog.record('thunder_ns::Robot'))))
                put(c, step, 'equal' if w.thrown else 'differs', 'succeeds', loc(f), name)
        guardrun(c, 'unusable configuration', None, name, one)
    def drop(*path):
        def e(d):
            for k in path[:-1]: d = d[k]
            del d[path[-1]]
        return e
    for path in (('num_joints',), ('type_joints',), ('kinematics',), ('kinematics', 'DH')): bad('without ' + '/'.join(path), drop(*path))
    def put_(k, v):
        def e(d): d[k] = v
        return e
    bad('fewer joint types than joints', put_('type_joints', [Str('R')])); bad('more joint types than joints', put_('type_joints', [Str('R')] * 3))
    # --- inertial files ---
    def gi(F):
        f = prog.fn('thunder_ns::genInertial_files')
        if f is None: raise Give('genInertial_files not found')
        c.funcs.add('genInertial_files (%s)' % loc(f))
        w = rawworld(prog, sh); w.m.__class__ = GenM; w.m.setup(files={}, cwd='/work', fault=F.vfs); w.m.hooks['fault'] = F.yaml; w.thrown = None
        r = runc(w, f, [Str('N'), toP(2), Str('F'), Str('/o/DYN.yaml'), Str('/o/REG.yaml')], None)
        v = verdict(w, r)
        if v == 'ok': tail(w, 'genInertial_files', loc(f))
        return v, None
    sweep(c, 'genInertial_files', gi, L('thunder_ns::genInertial_files'), '')
    # --- generated class ---
    def ts(F):
        l = prog.byqn.get(TPL + 'save_par', [])
        if not l: raise Give('save_par not found')
        w = sh.world(prog); w.m.exc = True; w.m.ydoc = {}; w.m.__class__ = GenM; w.m.setup(files={}, cwd='/work', fault=F.vfs); w.thrown = None
        o = w.m.new(w.st, mkwrap(w)); r = runc(w, l[0], [Str('/o/f.yaml')], o)
        v = verdict(w, r)
        if v == 'ok': tail(w, 'save_par of the class', loc(l[0]))
        return v, None
    l = prog.byqn.get(TPL + 'save_par', [])
    sweep(c, 'save_par of the class', ts, loc(l[0]) if l else None, '')
    c.minimum = 1
    c.finish()
