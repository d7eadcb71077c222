"""C10, C11, C12: declared inputs, symbolic selectivity and evaluation by name."""
from checks import check
from report import Check, Ob
from eff import *
from compare import mkinst, PATTERNS, symbflags
from par import fork_map
import os, traceback

R_ = 'thunder_ns::Robot::'
PARS = ['par_DHtable', 'par_world2L0', 'par_Ln2EE', 'par_gravity', 'par_DYN', 'par_REG', 'par_Dl', 'par_K', 'par_D', 'par_Dm', 'par_Mm']
BASES = ['q', 'dq', 'ddq', 'd3q', 'd4q', 'dqr', 'ddqr', 'x', 'dx', 'ddx', 'ddxr', 'w'] + PARS
def loc(f): return '%s:%d' % (f['file'], f['l'])

class Pipe:
    """analysis of robot_from_file: construction, loading, computation of every function, compaction"""
    def __init__(self, prog, pat, compute=True):
        self.steps = []
        w = self.w = mkinst(prog, pat)
        h = w.m.hooks
        def ctor(m, f, args, this, st):
            a = [m.ev(x, st) if isinstance(x, dict) else x for x in args]
            if not f['params'] or len(a) != 1: return NotImplemented
            if not isinstance(a[0], (Str, Opq)): return NotImplemented
            m.wr(st, this, w.mkrobot()); self.step('construct', f, st, a); return UNDEF
        def st_(name):
            def g(m, f, args, this, st):
                a = [m.ev(x, st) if isinstance(x, dict) else x for x in args]
                self.step(name, f, st, a); return ONE
            return g
        h['fn:' + R_ + 'Robot'] = ctor
        for s in ('load_conf_par', 'init_symb_parameters', 'update_symb_parameters', 'subs_symb_par', 'load_par', 'load_par_REG'): h['fn:' + R_ + s] = st_(s)
        f = prog.fn('thunder_ns::robot_from_file')
        if f is None: raise Give('robot_from_file not found')
        self.f = f
        a = [Str('N'), Str(('s', mkA('sym', 'FILE')))] + ([TRUE if compute else FALSE] if len(f['params']) > 2 else [])
        self.ret = w.m.call(f, a, None, w.st)
        self.fns = w.m.fns
    def step(self, name, f, st, a):
        self.steps.append((self.w.m.emit('step', {'name': name, 'args': a}, st, None), name))

def arglist(ev):
    """(names declared unconditionally, names declared when symbolic) of a registration"""
    a = ev.d['args']
    if isinstance(a, Opq) and a.tag == 'arglist':
        if a.args[0] is None or a.args[1] is None: return None
        s, p = a.args
    elif isinstance(a, Vec):
        l = a.tolist()
        if l is None: return None
        s, p = l, []
    else: return None
    s = [x.lit() if isinstance(x, Str) else None for x in s]; p = [x.lit() if isinstance(x, Str) else None for x in p]
    if None in s or None in p: return None
    return s, p

_ad = {}
def atomdeps(p):
    """entries a value mentions: {(family, index)} ; None when it mentions something unknown"""
    out = set()
    for a in subatoms(p, lambda a: a.kind in ('ent', 'let', 'top', '$', 'rec')):
        if a.kind == 'ent':
            fam = a.args[0]
            if not isinstance(fam, str): return None
            if fam.startswith('model:'):
                f = fam[6:]
                if f.endswith('#'):
                    i = toP(a.args[1]).num()
                    if i is None: return None
                    out.add((f, i))
                else: out.add((f, None))
        elif a.kind == 'let':
            r = _ad.get(a.args[0])
            if r is None:
                r = _ad[a.args[0]] = atomdeps(LETDEF[a.args[0]][0])
            if r is None: return None
            out |= r
        else: return None
    return out

class Deps:
    """dependency closure over the functions registered in one analysis"""
    def __init__(self, w):
        self.w = w; self.direct = {}; self.evs = []; self.memo = {}
        for ev in w.m.events:
            if ev.kind != 'addfn': continue
            for key, val, loops in unroll(w, ev):
                self.evs.append((ev, key, val))
                f, i = self.keyof(key)
                if f is None: continue
                self.direct.setdefault((f, i), []).append(val)
    def keyof(self, k):
        if not isinstance(k, Str): return None, None
        f, idx = self.w.keyfam(k)
        if f is None: return None, None
        i = idx[0].num() if idx else None
        return f, (i if f.endswith('#') else None)
    def val(self, v):
        """entries mentioned by a registered value"""
        if not isinstance(v, Mat): return None
        r, c = v.rows.num(), v.cols.num()
        if r is None or c is None: return None
        out = set()
        for i in range(r):
            for j in range(c):
                try: d = atomdeps(v.get(toP(i), toP(j)))
                except Give: return None
                if d is None: return None
                out |= d
        return out
    def base(self, k, stack=()):
        """base quantities a published entry depends on, with one chain for each: {name: chain}"""
        f, i = k
        if f in BASES: return {f: ()}
        if k in self.memo: return self.memo[k]
        if k in stack: return None
        vs = self.direct.get(k)
        if not vs: return None
        out = {}
        for v in vs:
            d = self.val(v)
            if d is None: return None
            for x in sorted(d, key=str):
                b = self.base(x, stack + (k,))
                if b is None: return None
                for nm, ch in b.items(): out.setdefault(nm, ((x,) + ch) if x[0] not in BASES else ())
        self.memo[k] = out
        return out
    def entry(self, a):
        """registered value of the entry atom a"""
        fam = a.args[0][6:]; ix = list(a.args[1:]); i = None
        if fam.endswith('#'): i = toP(ix.pop(0)).num()
        vs = self.direct.get((fam, i))
        if not vs or len(vs) != 1: raise Give('value of %s' % fam)
        return vs[0].get(toP(ix[0]), toP(ix[1]) if len(ix) > 1 else ZERO)
    def refined(self, v):
        """the value with derivatives of published entries carried out"""
        memo = {}
        def f(a, args):
            if a not in memo:
                chain = []; b = a
                while b.kind == 'D': chain.append(b.args[1:]); b = b.args[0]
                if b.kind != 'ent': raise Give('derivative')
                x = self.entry(b)
                for fam, k in reversed(chain): x = deriv(x, fam, k)
                memo[a] = x
            return memo[a]
        return Mat(v.rows, v.cols, lambda r, c: simp(mapatoms(v.get(r, c), lambda a: a.kind == 'D', f), GLOBAL), v.kind)
    def of(self, v):
        d = self.val(v)
        if d is None: return None
        out = {}
        for x in sorted(d, key=str):
            b = self.base(x)
            if b is None: return None
            for nm, ch in b.items(): out.setdefault(nm, ((x,) + ch) if x[0] not in BASES else ())
        return out

def unroll(w, ev):
    """instances of a registration inside loops (concrete sizes): (key, value, env)"""
    if not ev.loops:
        yield ev.d['key'], ev.d['val'], {}
        return
    def go(ls, env):
        if not ls:
            yield substval(ev.d['key'], env), substval(ev.d['val'], env) if isinstance(ev.d['val'], Mat) else ev.d['val'], env
            return
        v, lo, hi = ls[0]
        a, b = subst(lo, env).num(), subst(hi, env).num()
        if a is None or b is None: return
        for k in range(a, b): yield from go(ls[1:], dict(env, **{v: toP(k)}))
    yield from go(list(ev.loops), {})

def chain_text(w, ch): return ' via ' + ' > '.join(f.replace('#', '') + ('' if i is None else str(i)) for f, i in ch) if ch else ''

C10_PATS = [(2, (0, 1), {'K_order': 2, 'D_order': 2, 'Dl_order': 2, 'Dm_order': 1}, 'all'), (3, (1, 0, 1), {'K_order': 1, 'D_order': 2, 'Dl_order': 2, 'Dm_order': 2}, 'alt'),
            (1, (0,), {'K_order': 1, 'D_order': 1, 'Dl_order': 1, 'Dm_order': 1}, 'all'), (1, (1,), {'K_order': 2, 'D_order': 1, 'Dl_order': 2, 'Dm_order': 1}, 'alt2'),
            (4, (0, 0, 1, 1), {'K_order': 2, 'D_order': 3, 'Dl_order': 1, 'Dm_order': 3}, 'alt2')]
def declared_inputs(prog):
    """quantities some registered function may declare as an input"""
    out = set()
    try:
        p = Pipe(prog, C10_PATS[0])
        for ev in p.w.m.events:
            if ev.kind == 'addfn':
                a = arglist(ev)
                if a: out |= set(a[0]) | set(a[1])
    except Give: pass
    return sorted(out)

def numdepends(w, val, fam):
    """two valuations of the robot's variables that differ in one quantity only and give an entry different values"""
    from spec import Spec, DefVal, NoVal, Undefined
    class Shift(DefVal):
        def base(self, a, env):
            v = super().base(a, env)
            return v + 0.37 if str(a.args[0]) == 'model:' + fam else v
    if not isinstance(val, Mat) or val.rows.num() is None or val.cols.num() is None: return False
    sp = Spec(w)
    for s in (0, 1):
        v0, v1 = DefVal(w, sp, s), Shift(w, sp, s)
        for r in range(val.rows.num()):
            for c in range(val.cols.num()):
                try:
                    e = val.get(toP(r), toP(c)); x, y = v0.e(e), v1.e(e)
                except Undefined: continue
                except (NoVal, Give, KeyError, TypeError, ValueError, StopIteration, OverflowError, ZeroDivisionError): return False
                if abs(x - y) > 1e-6 * (1 + abs(x) + abs(y)): return True
    return False

RULE10 = ('dependency closure over registered expressions. robot_from_file is analysed; for every registration the set of quantities its expression '
          'mentions, closed over the published quantities it is built from, must be inside the list of declared inputs of that registration')
def c10robot(c, prog, pat, stored, seen):
    try: p = Pipe(prog, pat)
    except Give as ex: c.add(Ob('registrations', 'open', str(ex))); return
    w = p.w
    for x in p.fns: c.funcs.add('%s (%s:%s)' % (x[1], x[0], x[2]))
    D = Deps(w)
    for ev, key, val in D.evs:
        nm = key.lit() if isinstance(key, Str) else None
        where = '%s:%s' % ev.loc if ev.loc else None
        name = 'inputs of %s' % (nm or key)
        mode = w.label
        al = arglist(ev)
        if al is None: c.add(Ob(name, 'open', 'argument list is %r' % (ev.d['args'],), where, mode)); continue
        decl = set(al[0]) | set(al[1])
        empty = isinstance(val, Mat) and (val.rows.iszero() or val.cols.iszero())
        for x in sorted(decl):
            if x in stored and x in BASES: continue
            c.add(Ob('%s: %s is stored by the generated class' % (name, x), 'violation' if stored else 'open', 'the generated class has no quantity %s' % x, where, mode, key='C10:stored:%s' % x))
        for x in al[0]:
            if x.startswith('par_'): c.add(Ob('%s: %s is declared only when symbolic' % (name, x), 'violation', 'declared whether or not it has a symbolic entry', where, mode, key='C10:unconditional:%s:%s' % (nm, x)))
        d = D.of(val)
        if d is None:
            c.add(Ob(name, 'open', 'dependencies unknown', where, mode)); continue
        miss = sorted(set(d) - decl)
        if miss:
            # derivatives may have removed the dependence: carry them out
            try: d2 = D.of(D.refined(val))
            except (Give, KeyError, TypeError, RecursionError): d2 = None
            if d2 is None:
                sure = [x for x in miss if numdepends(w, val, x)]
                if not sure: c.add(Ob(name, 'open', 'dependence on %s not decided' % ', '.join(miss), where, mode)); continue
                miss = sure
            else: miss = sorted(set(miss) & set(d2)); d = d2 if miss else d
        if miss:
            for x in miss:
                c.add(Ob(name, 'violation', 'depends on %s%s, declared inputs are %s' % (x, chain_text(w, d[x]), ', '.join(al[0] + al[1])), where, mode, key='C10:%s:%s' % (nm, x)))
        else: c.add(Ob(name, 'bounded', 'depends on %s' % ', '.join(sorted(d)), where, mode))
        seen.setdefault(nm, True)

@check('C10')
def c10(pid, prog):
    c = Check(pid, RULE10)
    c.assume = ['Eigen, casadi and std operations behave as modelled in engine/lib.py']
    import checks_eff
    stored = checks_eff.template_fields(prog)
    pats = C10_PATS if c.tier != 'thorough' else C10_PATS + [(4, (0, 1, 1, 0), {'K_order': 3, 'D_order': 3, 'Dl_order': 3, 'Dm_order': 3}, 'alt2')]
    seen = {}
    # each robot by itself
    def one(pat):
        k = Check(pid, RULE10); Check.current = c; sn = {}
        try: c10robot(k, prog, pat, stored, sn)
        except Exception as ex: k.add(Ob('registrations', 'open', 'analysis gave up: %s: %s' % (type(ex).__name__, ex), None, 'n=%d' % pat[0]))
        return k.obs, k.funcs, sn
    for pat, r in zip(pats, fork_map(one, pats)):
        if r is None: c.add(Ob('registrations', 'open', 'the analysis ended without a result', None, 'n=%d' % pat[0])); continue
        for o in r[0]: c.add(o)
        c.funcs |= r[1]; seen.update(r[2])
    symbrule(c, prog)
    c.extra['published_functions'] = sorted(x for x in seen if x)
    c.minimum = 5
    c.finish()

def symbrule(c, prog):
    """obtain_symb_parameters: the sure inputs, then the possible ones having a symbolic entry, in order"""
    f = prog.fn(R_ + 'obtain_symb_parameters')
    if f is None: return
    c.funcs.add('%s (%s)' % (f['qn'], loc(f)))
    vecs = {'none': lambda k: [0] * k, 'first': lambda k: [1] + [0] * (k - 1), 'last': lambda k: [0] * (k - 1) + [1], 'all': lambda k: [1] * k, 'two': lambda k: [0] + [1] * (k - 1)}
    combos = [('none', 'none', 'none'), ('first', 'none', 'last'), ('none', 'last', 'none'), ('all', 'two', 'all'), ('last', 'none', 'two'), ('two', 'first', 'none')]
    for cmb in combos:
        name = 'declared when symbolic (%s)' % ', '.join(cmb)
        try:
            w = mkinst(prog, (2, (0, 1), {'K_order': 2, 'D_order': 2, 'Dl_order': 2, 'Dm_order': 1}, 'all'))
            w.m.hooks.pop('fn:' + R_ + 'obtain_symb_parameters')
            names = ['par_DHtable', 'par_world2L0', 'par_DYN']
            for nm, v in zip(names, cmb): w.symb[nm] = vecs[v](len(w.symb[nm]))
            exp = ['q', 'dq'] + [nm for nm, v in zip(names, cmb) if v != 'none']
            r = w.m.call(f, [listV([Str('q'), Str('dq')], 'std::basic_string<char>'), listV([Str(x) for x in names], 'std::basic_string<char>')], w.robot, w.st)
            l = r.tolist() if isinstance(r, Vec) and not r.filt else None
            got = [x.lit() if isinstance(x, Str) else None for x in l] if l is not None else None
            if got is None or None in got: c.add(Ob(name, 'open', 'value is %r' % (r,), loc(f)))
            else: c.add(Ob(name, 'bounded' if got == exp else 'violation', '%s, expected %s' % (got, exp), loc(f), 'flags ' + ','.join(cmb), key='C10:symbrule'))
        except (Give, AttributeError, KeyError, TypeError, IndexError) as ex:
            if os.environ.get('VERIF_DEBUG'): traceback.print_exc()
            c.add(Ob(name, 'open', '%s: %s' % (type(ex).__name__, ex), loc(f)))
