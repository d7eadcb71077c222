"""C11, C12: symbolic selectivity, registration and evaluation of functions."""
from checks_yaml import *

CFG = ['par_DHtable', 'par_world2L0', 'par_Ln2EE', 'par_gravity', 'par_DYN', 'par_Dl', 'par_K', 'par_D', 'par_Dm', 'par_Mm']
def rawworld(prog, sh):
    w = sh.world(prog)
    for h in ('fn:' + P_ + 'add_function', 'fn:' + P_ + 'obtain_symb_parameters'): w.m.hooks.pop(h, None)
    w.m.hooks.pop('mapcount', None)
    w.m.exc = True; w.m.ydoc = sh.doc()
    return w
STEPS = ('kinematics', 'dynamics', 'regressors', 'userDefined')

class Build:
    """robot_from_file with the real loading, substitution and compaction; the computations are observation points"""
    def __init__(self, prog, sh, at=None):
        w = self.w = rawworld(prog, sh); self.snaps = []; self.ctor = None; self.at = at
        def snap(name):
            def h(m, f, args, this, st):
                lv = args[0] if isinstance(args[0], LVal) else m.lv(args[0], st)
                self.snaps.append((name, m.rd(st, lv)))
                if at and name == 'kinematics': at(w, lv, st)
                return ONE
            return h
        for n in STEPS: w.m.hooks['fn:thunder_ns::compute_' + n] = snap(n)
        def loaded(m, f, args, this, st):
            if self.ctor is None: self.ctor = m.rd(st, this)
            return NotImplemented
        w.m.hooks['fn:' + P_ + 'load_conf_par'] = loaded
        f = prog.fn('thunder_ns::robot_from_file')
        if f is None: raise Give('robot_from_file not found')
        self.f = f
        self.ret = runc(w, f, [Str('N'), Str('F')] + ([TRUE] if len(f['params']) > 2 else []))
        self.fns = w.m.fns

def famvals(sh):
    """expected values of every configured family that has entries"""
    return {k: v for k, v in sh.values().items() if v and None not in v}

def entry(m, i):
    try: return asM(m).lin(toP(i))
    except Give: return None

@check('C11')
def c11(pid, prog):
    c = Check(pid, 'abstract interpretation of loading, substitution, registration and compaction from the configuration document on; symbols and numbers are told apart entry by entry')
    c.assume = ['the file is a document of one of the analysed shapes (numbers are arbitrary)', 'yaml-cpp, casadi, Eigen and std operations behave as modelled in engine/lib.py', 'user-defined functions follow the same interface']
    for sh in shapes():
        mode = sh.label
        symb = sh.symb(); vals = famvals(sh)
        state = ['q', 'dq', 'ddq', 'd3q', 'd4q', 'dqr', 'ddqr', 'w'] + (['x', 'dx', 'ddx', 'ddxr'] if sh.on and sh.nE else [])
        fams = [f for f in CFG if f in vals and symb.get(f)]
        box = {}
        def probe(w, lv, st):
            """registers functions on the robot the computations see and records what their inputs are"""
            adds = [f for f in prog.byqn.get(P_ + 'add_function', [])]
            if not adds: raise Give('add_function not found')
            f = adds[0]; got = []
            def cons(m, e, st2, v):
                if (e.get('cls') or '').startswith('casadi::Function'):
                    got.append(v); return Opq('fun', len(got))
                return NotImplemented
            w.m.hooks['construct'] = cons
            lists = [fams, list(reversed(fams)), ['q', 'par_DHtable', 'dq'] + fams[-1:], state] + [[x] for x in fams]
            for k, l in enumerate(lists):
                l = [x for x in l if x == 'q' or x in state or x in fams]
                del got[:]
                try:
                    w.m.call(f, [Str('probe%d' % k), scalM(sym('probe:%d' % k)), listV([Str(x) for x in l], 'std::basic_string<char>'), Str('d')] + ([TRUE] if len(f['params']) > 4 else []), lv, st)
                    box.setdefault('probes', []).append((l, list(got)))
                except Give as ex: box.setdefault('perr', []).append(str(ex))
            w.m.hooks.pop('construct', None)
        def go():
            b = Build(prog, sh, probe); w = b.w; f = b.f
            for x in ('robot_from_file', 'init_symb_parameters', 'subs_symb_par', 'update_symb_parameters', 'add_function', 'load_conf_par'):
                for q in ('thunder_ns::' + x, P_ + x):
                    for g in prog.byqn.get(q, []): c.funcs.add('%s (%s)' % (g['qn'], loc(g)))
            if w.st.dead or not isinstance(b.ret, Obj): put(c, 'robot is built', 'open', 'never completes', loc(f), mode); return
            names = [n for n, o in b.snaps]
            put(c, 'functions are computed', 'equal' if set(STEPS) <= set(names) else 'open', 'computed: %s' % names, loc(f), mode)
            if b.ctor is None: put(c, 'parameters are loaded', 'differs' if not incomplete(w) else 'open', 'load_conf_par is never called', loc(f), mode); return
            sub = prog.fn(P_ + 'subs_symb_par') or f; upd = prog.fn(P_ + 'update_symb_parameters') or f
            sym0 = lambda fam: b.ctor.get('model').get(Str(fam))
            for name, o in b.snaps:
                for fam in fams:
                    fl = symb[fam]; n = len(fl)
                    m = o.get('model').get(Str(fam)); a = o.get('args').get(Str(fam))
                    exp = [entry(sym0(fam), i) if fl[i] else toP(vals[fam][i]) for i in range(n)]
                    if any(x is None for x in exp): put(c, '%s symbols' % fam, 'open', 'symbols not resolved', loc(sub), mode); continue
                    if any(isinstance(y, P) and y == toP(v) for y, v, s in zip(exp, vals[fam], fl) if s): put(c, '%s symbols' % fam, 'differs', 'a symbolic entry is a number', loc(sub), mode)
                    put(c, '%s in compute_%s' % (fam, name), *cmplist(m, exp), loc(sub), mode)
                    put(c, '%s stored before compaction' % fam, *cmplist(a, vals[fam]), loc(f), mode)
            for fam in fams:
                fl = symb[fam]; n = len(fl)
                m = b.ret.get('model').get(Str(fam)); a = b.ret.get('args').get(Str(fam))
                put(c, '%s symbols after compaction' % fam, *cmplist(m, [entry(sym0(fam), i) for i in range(n) if fl[i]]), loc(upd), mode)
                put(c, '%s stored after compaction' % fam, *cmplist(a, [vals[fam][i] for i in range(n) if fl[i]]), loc(upd), mode)
            for fam in state:
                k = 6 if fam == 'w' else sh.nE if fam in ('x', 'dx', 'ddx', 'ddxr') else sh.n
                m = b.ret.get('model').get(Str(fam))
                put(c, '%s keeps every entry' % fam, *cmplist(m, [entry(sym0(fam), i) for i in range(k)]), loc(upd), mode)
                a = b.ret.get('args').get(Str(fam)); a0 = b.ctor.get('args').get(Str(fam))
                put(c, '%s stored' % fam, *cmplist(a, [entry(a0, i) for i in range(k)]), loc(upd), mode)
            for e in box.get('perr', []): put(c, 'inputs of a function', 'open', e, loc(f), mode)
            ad = prog.fn(P_ + 'add_function') or f
            for l, got in box.get('probes', []):
                nm = 'inputs of a function of %s' % ', '.join(l)
                if len(got) != 1 or len(got[0]) < 2: put(c, nm, 'open', '%d functions built' % len(got), loc(ad), mode); continue
                ins = got[0][1]; il = ins.tolist() if isinstance(ins, Vec) else None
                if il is None: put(c, nm, 'open', 'inputs not resolved', loc(ad), mode); continue
                if len(il) != len(l): put(c, nm, 'differs', '%d inputs' % len(il), loc(ad), mode); continue
                for x, v in zip(l, il):
                    k = {'w': 6}.get(x, sh.nE if x in ('x', 'dx', 'ddx', 'ddxr') else sh.n)
                    fl = symb.get(x) or [1] * k
                    put(c, 'input %s of a function' % x, *cmplist(v, [entry(sym0(x), i) for i in range(len(fl)) if fl[i]]), loc(ad), mode)
        guardrun(c, 'robot_from_file', None, mode, go)
        def tpl():
            w = tplload(prog, sh); f = w.fns[0]; c.funcs.add('%s (%s)' % (f['qn'].replace('tpl!', 'template '), loc(f)))
            for fam, l in vals.items():
                fl = symb.get(fam)
                if not fl or not any(fl) or (fam == 'par_gravity' and not sh.gravity): continue        # no entry is an input
                got = fldv(w, w.self_, fam)
                st, why = cmplist(got, [x for x, s in zip(l, fl) if s])
                key = None
                if st == 'differs' and cmplist(got, l)[0] == 'equal': key = 'C11:class-keeps-all-of-' + fam
                put(c, 'class %s values' % fam, st, why, loc(f), mode, key)
        guardrun(c, 'class', None, mode, tpl)
    import checks_api
    checks_api.symbrule(c, prog)
    c.minimum = 20
    c.finish()

# ---------------- C12 ----------------
class SMat(Mat):
    """matrix whose structural zeros are not stored"""
    pass
def sparse(rows, cols, fn): 
    m = SMat(rows, cols, fn, 'sx'); return m

@check('C12')
def c12(pid, prog):
    c = Check(pid, 'abstract interpretation of add_function, get and get_functions: which function object is called with which stored values, and which entry of the result ends where')
    c.assume = ['casadi::Function::call evaluates the function at the values it is given, in the order of its inputs', 'casadi, Eigen and std operations behave as modelled in engine/lib.py']
    SH = Shape('', ['R', 'R_SEA', 'P'], flags='mixed')
    gets = [f for f in prog.byqn.get(P_ + 'get', []) if len(f['params']) == 1]
    adds = prog.byqn.get(P_ + 'add_function', []); lists = prog.byqn.get(P_ + 'get_functions', [])
    dense = [None]
    # registration
    def registration(names_first):
        w = rawworld(prog, SH); st = w.st; w.self_ = w.robot
        fl = lambda lv, x: fldv(w, lv, x)
        got = []
        def cons(m, e, st2, v):
            if (e.get('cls') or '').startswith('casadi::Function'):
                o = Opq('fun', len(got)); got.append(v); return o
            return NotImplemented
        w.m.hooks['construct'] = cons
        for x in ('fun_args', 'fun_descr', 'casadi_fun'): w.m.wr(st, LVal(w.self_.cell, (('f', x),)), MapV(lambda k: Top('not registered'), (), None))
        w.m.hooks['mapcount'] = lambda m, mv, k, lv, st2, e: ONE if isinstance(mv, MapV) and mv.name == 'model' and k.lit() in ('q', 'dq') else NotImplemented
        return w, got
    def S(l): return listV([Str(x) for x in l], 'std::basic_string<char>')
    for f in adds[:1]:
        c.funcs.add('%s (%s)' % (f['qn'], loc(f)))
        def args(nm, ex, l, d, ow=None): return [Str(nm), ex, S(l), Str(d)] + ([ow] if ow is not None else [TRUE] if len(f['params']) > 4 else [])
        def chk(w, got, nm, ex, l, d, k, tag):
            mode = tag
            E = lambda x: fldv(w, w.self_, x).get(Str(nm))
            put(c, 'registered expression', *cmpd(E('model'), ex), loc(f), mode)
            a = E('fun_args'); al = a.tolist() if isinstance(a, Vec) else None
            al = [x.lit() if isinstance(x, Str) else None for x in al] if al is not None else None
            put(c, 'registered inputs', 'open' if al is None or None in al else 'equal' if al == l else 'differs', '%s' % al, loc(f), mode)
            dd = E('fun_descr'); put(c, 'registered description', 'open' if not isinstance(dd, Str) or dd.lit() is None else 'equal' if dd.lit() == d else 'differs', '%r' % (dd,), loc(f), mode)
            fo = E('casadi_fun')
            put(c, 'registered function', 'open' if not isinstance(fo, Opq) or fo.tag != 'fun' else 'equal' if fo.args[0] == k else 'differs', '%r' % (fo,), loc(f), mode)
            if isinstance(fo, Opq) and fo.tag == 'fun' and fo.args[0] < len(got):
                v = got[fo.args[0]]
                if len(v) > 2 and isinstance(v[2], Vec) and v[2].tolist() is not None:
                    outs = v[2].tolist()
                    if len(outs) != 1: put(c, 'outputs of the function', 'differs', '%d outputs' % len(outs), loc(f), mode)
                    else:
                        put(c, 'output of the function', *cmpd(outs[0], ex), loc(f), mode)
                        dense[0] = not isinstance(outs[0], SMat)
                nmv = v[0] if v else None
                if isinstance(nmv, Str) and nmv.lit() is None and len(nmv.parts if hasattr(nmv, 'parts') else []) == 0: pass
        def mk(tag, R=3, C=2): return sparse(toP(R), toP(C), lambda r, cc: toP(mkA('ent', 'expr' + tag, r, cc)))
        def one():
            w, got = registration(None); w.m.hooks['densify'] = lambda m: Mat(m.rows, m.cols, m.fn, m.kind)
            ex = mk('A'); r = w.m.call(f, args('A', ex, ['q', 'dq', 'w'], 'first'), w.self_, w.st)
            put(c, 'add_function reports success', *same(r, ONE, VALS), loc(f), 'new name')
            chk(w, got, 'A', ex, ['q', 'dq', 'w'], 'first', 0, 'new name')
            ey = mk('B', 1, 6); w.m.call(f, args('B', ey, ['ddq'], 'second'), w.self_, w.st)
            chk(w, got, 'B', ey, ['ddq'], 'second', 1, 'second name'); chk(w, got, 'A', ex, ['q', 'dq', 'w'], 'first', 0, 'first name after the second')
            ez = mk('C', 2, 2); r = w.m.call(f, args('A', ez, ['w', 'q'], 'third', TRUE if len(f['params']) > 4 else None), w.self_, w.st)
            put(c, 'add_function reports success', *same(r, ONE, VALS), loc(f), 'overwriting')
            chk(w, got, 'A', ez, ['w', 'q'], 'third', len(got) - 1, 'overwritten name'); chk(w, got, 'B', ey, ['ddq'], 'second', 1, 'other name after overwriting')
            if len(f['params']) > 4:
                n0 = len(got); w.m.hooks['mapcount'] = lambda m, mv, k, lv, st2, e: NotImplemented
                r = w.m.call(f, args('A', mk('D'), ['q'], 'fourth', FALSE), w.self_, w.st)
                put(c, 'add_function refuses an existing name', *same(r, ZERO, VALS), loc(f), 'not overwriting')
                chk(w, got, 'A', ez, ['w', 'q'], 'third', n0 - 1, 'name that exists')
        guardrun(c, 'add_function', loc(f), '', one)
        def ins():
            """the inputs of the function object are the symbolic entries of the named quantities, in the order of the names"""
            for l in ([], ['dq'], ['q', 'dq', 'w'], ['q', 'dq', 'dqr', 'ddqr', 'par_DHtable'], ['par_gravity', 'par_DYN', 'par_Ln2EE', 'par_world2L0', 'par_DHtable', 'q'],
                      ['q', 'dq', 'dqr', 'ddqr', 'par_DHtable', 'par_world2L0', 'par_Ln2EE', 'par_gravity', 'par_DYN'], ['x', 'dx', 'q', 'dq', 'par_K', 'par_D', 'par_Dm', 'par_Mm']):
                w, got = registration(None); w.m.hooks['densify'] = lambda m: Mat(m.rows, m.cols, m.fn, m.kind); w.symb = {}
                for x in l: w.symb[x] = [1 if not x.startswith('par_') or (i * 7 + len(x)) % 3 else 0 for i in range(w.dims(x)[0].num())]
                mo = {x: fldv(w, w.self_, 'model').get(Str(x)) for x in l}; mode = 'function of %s' % (', '.join(l) or 'nothing')
                w.m.call(f, args('I', mk('I'), l, 'd'), w.self_, w.st)
                a = fldv(w, w.self_, 'fun_args').get(Str('I')); al = a.tolist() if isinstance(a, Vec) else None
                al = [x.lit() if isinstance(x, Str) else None for x in al] if al is not None else None
                put(c, 'registered inputs', 'open' if al is None or None in al else 'equal' if al == l else 'differs', '%s' % al, loc(f), mode)
                v = got[-1][1] if got and len(got[-1]) > 1 else None; il = v.tolist() if isinstance(v, Vec) and not v.filt else None
                if il is None: put(c, 'inputs of the function object', 'open', 'not resolved', loc(f), mode); continue
                if len(il) != len(l): put(c, 'inputs of the function object', 'differs', '%d inputs' % len(il), loc(f), mode); continue
                for i, (x, y) in enumerate(zip(l, il)):
                    put(c, 'inputs of the function object', *cmplist(y, [mo[x].get(toP(k), ZERO) for k, s in enumerate(w.symb[x]) if s]), loc(f), '%s, input %d' % (mode, i))
        guardrun(c, 'inputs of the function object', loc(f), '', ins)
    # evaluation
    for f in gets[:1]:
        c.funcs.add('%s (%s)' % (f['qn'], loc(f)))
        for R, C, l in ((3, 2, ['q', 'dq', 'par_DHtable']), (1, 1, ['q']), (4, 4, ['par_world2L0', 'q']), (6, 1, ['ddq', 'dq', 'q', 'w', 'par_DYN']), (1, 5, []), (3, 7, ['par_K', 'x', 'q']),
                        (3, 30, ['q', 'dq', 'dqr', 'ddqr', 'par_DHtable', 'par_world2L0', 'par_gravity']), (6, 12, ['par_DYN', 'par_gravity', 'par_Ln2EE', 'par_world2L0', 'par_DHtable', 'ddqr', 'dqr', 'dq', 'q']),
                        (20, 2, ['x', 'dx', 'ddxr', 'q', 'dq', 'dqr', 'ddqr', 'par_K', 'par_D', 'par_Dm', 'par_Mm', 'par_DYN', 'par_REG', 'par_Dl', 'w'])):
            mode = '%dx%d of %s' % (R, C, ', '.join(l) or 'nothing')
            def go():
                w = rawworld(prog, SH); st = w.st; w.self_ = w.robot
                base = lambda other: MapV(lambda k: Top('other entry'), (), None)
                def field(x, v): w.m.wr(st, LVal(w.self_.cell, (('f', x),)), v)
                res = (Mat if dense[0] is not False else sparse)(*((toP(R), toP(C), lambda r, cc: toP(mkA('ent', 'result', r, cc))) + (('sx',) if dense[0] is not False else ())))
                field('fun_args', base(0).set(Str('other'), S(['dqr'])).set(Str('F'), S(l)))
                field('fun_descr', base(0).set(Str('F'), Str('d')))
                field('casadi_fun', base(0).set(Str('other'), Opq('fun', 'other')).set(Str('F'), Opq('fun', 'F')))
                mv = fldv(w, w.self_, 'model'); field('model', mv.set(Str('F'), mk('M', R, C)).set(Str('other'), mk('O', 9, 9)))
                calls = []
                def call(m, e, st2):
                    fo = m.rd(st2, m.lv(e['obj'], st2)); a = e['args']
                    if len(a) < 2: return NotImplemented
                    calls.append((fo, m.ev(a[0], st2))); m.wr(st2, m.lv(a[1], st2), listV([res], 'casadi::Matrix<casadi::SXElem>')); return UNDEF
                w.m.hooks['method:casadi::Function::call'] = call
                spoiled = []
                def elements(m, v):
                    if isinstance(v, SMat): spoiled.append(1)
                    return NotImplemented
                w.m.hooks['elements'] = elements
                a0 = {x: fldv(w, w.self_, 'args').get(Str(x)) for x in l}
                r = w.m.call(f, [Str('F')], w.self_, w.st)
                if len(calls) != 1: put(c, 'get calls one function', 'open', '%d calls' % len(calls), loc(f), mode); return
                fo, ins = calls[0]
                put(c, 'get calls the function of that name', 'open' if not isinstance(fo, Opq) or fo.tag != 'fun' else 'equal' if fo.args[0] == 'F' else 'differs', '%r' % (fo,), loc(f), mode)
                il = ins.tolist() if isinstance(ins, Vec) else None
                if il is None: put(c, 'get passes the declared inputs', 'open', 'inputs not resolved', loc(f), mode)
                elif len(il) != len(l): put(c, 'get passes the declared inputs', 'differs', '%d values for %d inputs' % (len(il), len(l)), loc(f), mode)
                else:
                    for i, (x, v) in enumerate(zip(l, il)): put(c, 'get passes the stored value of each input', *cmpd(v, a0[x]), loc(f), '%s, input %d' % (mode, i))
                put(c, 'get returns every entry in its place', *cmpd(r, Mat(toP(R), toP(C), lambda rr, cc: toP(mkA('ent', 'result', rr, cc)), 'eig')), loc(f), mode)
                put(c, 'get returns structural zeros too', 'differs' if spoiled else 'equal', 'only the stored elements of a sparse result are copied', loc(f), mode)
            guardrun(c, 'get', loc(f), mode, go)
        def unknown():
            w = rawworld(prog, SH); w.self_ = w.robot
            for x in ('fun_args', 'fun_descr', 'casadi_fun'): w.m.wr(w.st, LVal(w.self_.cell, (('f', x),)), MapV(lambda k: Top('not registered'), (), None))
            r = w.m.call(f, [Str('nosuch')], w.self_, w.st); m = asM(r)
            if m is None: put(c, 'unknown name', 'open', '%r' % (r,), loc(f), 'unknown name'); return
            put(c, 'unknown name yields zero', *cmpd(m, zerosM(m.rows, m.cols)), loc(f), 'unknown name')
        guardrun(c, 'get of an unknown name', loc(f), '', unknown)
    # listing
    for f in lists[:1]:
        c.funcs.add('%s (%s)' % (f['qn'], loc(f)))
        D = {'zeta': (['q', 'dq'], 'the z', 3, 1), 'alpha': (['par_DYN'], 'an a', 2, 5), 'mid': ([], '', 6, 6)}
        for only in ((FALSE, TRUE) if f['params'] else (None,)):
            mode = 'names only' if only is TRUE else 'all'
            def go():
                w = rawworld(prog, SH); st = w.st; w.self_ = w.robot
                fa, fd, cf, mo = (MapV(lambda k: Top('not registered'), (), None) for _ in range(4)); mo = fldv(w, w.self_, 'model')
                for k, (l, d, R, C) in D.items():
                    fa = fa.set(Str(k), S(l)); fd = fd.set(Str(k), Str(d)); cf = cf.set(Str(k), Opq('fun', k)); mo = mo.set(Str(k), Mat(toP(R), toP(C), (lambda k: lambda r, cc: toP(mkA('ent', 'mod' + k, r, cc)))(k), 'sx'))
                for x, v in (('fun_args', fa), ('fun_descr', fd), ('casadi_fun', cf), ('model', mo)): w.m.wr(st, LVal(w.self_.cell, (('f', x),)), v)
                def fsize(k):
                    def h(m, e, st2):
                        fo = m.rd(st2, m.lv(e['obj'], st2))
                        if not isinstance(fo, Opq) or fo.tag != 'fun' or fo.args[0] not in D: return NotImplemented
                        if len([x for x in e['args'] if not x.get('defarg')]) > 1: return NotImplemented
                        return {'n_out': ONE, 'n_in': toP(len(D[fo.args[0]][0])), 'size1_out': toP(D[fo.args[0]][2]), 'size2_out': toP(D[fo.args[0]][3])}[k]
                    return h
                for k in ('n_out', 'n_in', 'size1_out', 'size2_out'): w.m.hooks['method:casadi::Function::' + k] = fsize(k)
                r = w.m.call(f, [only] if only is not None else [], w.self_, w.st)
                l = r.tolist() if isinstance(r, Vec) and not r.filt else None
                if l is None: raise Give('list not resolved: %r' % (r,))
                put(c, 'get_functions lists every function', 'equal' if len(l) == len(D) else 'differs', '%d entries' % len(l), loc(f), mode)
                seen = []
                for o in l:
                    nm = o.get('name') if isinstance(o, Obj) else None; nm = nm.lit() if isinstance(nm, Str) else None
                    if nm is None: put(c, 'get_functions name', 'open', '%r' % (o,), loc(f), mode); continue
                    if nm not in D: put(c, 'get_functions name', 'differs', nm, loc(f), mode); continue
                    seen.append(nm); al, d, R, C = D[nm]
                    a = o.get('args'); a = a.tolist() if isinstance(a, Vec) else None; a = [x.lit() for x in a] if a is not None else None
                    put(c, 'get_functions inputs', 'open' if a is None else 'equal' if a == al else 'differs', '%s: %s' % (nm, a), loc(f), '%s %s' % (mode, nm))
                    dd = o.get('description'); put(c, 'get_functions description', 'open' if not isinstance(dd, Str) else 'equal' if dd.lit() == d else 'differs', '%s: %r' % (nm, dd), loc(f), '%s %s' % (mode, nm))
                    put(c, 'get_functions output size', *cmplist(o.get('out_size'), [toP(R), toP(C)]), loc(f), '%s %s' % (mode, nm))
                    if only is not TRUE:
                        fo = o.get('fun'); put(c, 'get_functions function', 'open' if not isinstance(fo, Opq) or fo.tag != 'fun' else 'equal' if fo.args[0] == nm else 'differs', '%s: %r' % (nm, fo), loc(f), '%s %s' % (mode, nm))
                        put(c, 'get_functions expression', *cmpd(o.get('expr'), mo.get(Str(nm))), loc(f), '%s %s' % (mode, nm))
                put(c, 'get_functions lists each function once', 'equal' if sorted(seen) == sorted(D) else 'differs', '%s' % seen, loc(f), mode)
            guardrun(c, 'get_functions', loc(f), mode, go)
    c.minimum = 10
    c.finish()
