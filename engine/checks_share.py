import re
"""C23: nothing that can change is shared between robots or threads."""
from checks_gen import *

SYNC = ('std::mutex', 'std::recursive_mutex', 'std::shared_mutex', 'std::once_flag', 'std::timed_mutex', 'std::condition_variable')
PASS = ('data', 'begin', 'end', 'rbegin', 'rend', 'at', 'front', 'back', 'find', 'size', 'rows', 'cols', 'row', 'col', 'block', 'segment', 'head', 'tail', 'size1', 'size2', 'get', 'transpose', 'topRows', 'middleCols', 'diagonal', 'array', 'matrix', 'c_str', 'str', 'second', 'count', 'empty')
WHOLE = ('setZero', 'setConstant', 'setIdentity', 'setOnes', 'clear', 'assign', 'fill', 'reset')
PROC = {'std::srand': 'the seed of rand', 'srand': 'the seed of rand', 'std::rand': 'the state of rand', 'rand': 'the state of rand', 'setlocale': 'the locale', 'std::setlocale': 'the locale', 'setenv': 'the environment', 'putenv': 'the environment', 'unsetenv': 'the environment', 'chdir': 'the working directory',
        'strtok': 'the state of strtok', 'std::strtok': 'the state of strtok', 'std::locale::global': 'the locale', 'drand48': 'the state of drand48', 'srand48': 'the state of drand48', 'random': 'the state of random', 'srandom': 'the state of random'}

class Uses:
    """uses of variables with static storage in a function, in order: ('r' read, 'w' changed, 'W' overwritten as a whole)"""
    def __init__(self, f, want): self.f = f; self.want = want; self.out = []; self.run()
    def run(self):
        for i in self.f.get('inits') or []: self.st(i, 'r')
        self.st(self.f.get('body'), 'r')
    def hit(self, n, ctx): self.out.append((n, ctx))
    def pt(self, e, args):
        ps = e.get('pt') or []
        for i, a in enumerate(args):
            t = ps[i] if i < len(ps) else ''
            ref = t.rstrip().endswith('&') and not t.rstrip().endswith('&&') and not strip_const(t)
            self.st(a, 'w' if ref else 'e' if outptr(t) else 'r')
    def st(self, e, ctx):
        if e is None: return
        if isinstance(e, list):
            for x in e: self.st(x, ctx)
            return
        if not isinstance(e, dict): return
        k = e.get('k')
        if k in ('Ref', 'Member') and self.want(e): self.hit(e, 'r' if ctx == 'e' and not e.get('t', '').rstrip().endswith(']') else ctx)
        if k == 'Ref': return
        if k == 'Member': self.st(e.get('base'), ctx); return
        if k == 'Cast' or k == 'StdInit': self.st(e.get('e'), ctx); return
        if k == 'Cond': self.st(e['c'], 'r'); self.st(e['a'], ctx); self.st(e['b'], ctx); return
        if k == 'Bin':
            op = e['op']
            if op.endswith('=') and op not in ('==', '!=', '<=', '>='): self.st(e['b'], 'r'); self.st(e['a'], 'W' if op == '=' and e['a'].get('k') in ('Ref', 'Member') else 'w'); return
            if op == '[]': self.st(e['a'], ctx); self.st(e['b'], 'r'); return
            self.st(e['a'], 'r'); self.st(e['b'], ctx if op == ',' else 'r'); return
        if k == 'CAssign': self.st(e['b'], 'r'); self.st(e['a'], 'w'); return
        if k in ('Index', 'Subscript', 'ArrSub'):
            for n, v in e.items(): self.st(v, ctx if n in ('a', 'base', 'e') else 'r')
            return
        if k == 'Un':
            self.st(e['e'], 'w' if e['op'] in ('++', '--', '&') else ctx); return
        if k == 'OpCall':
            op = e['op']; a = e['args']
            if op == '=': self.st(a[1:], 'r'); self.st(a[0], 'W' if a[0].get('k') in ('Ref', 'Member') else 'w'); return
            if op.endswith('=') and op not in ('==', '!=', '<=', '>='): self.st(a[1:], 'r'); self.st(a[0], 'w'); return
            if op in ('[]', '()', '->', '*') and len(a) >= 1:
                m = strip(a[0].get('t', '')).startswith(('std::map', 'std::unordered_map')) and op == '[]'
                self.st(a[1:], 'r'); self.st(a[0], 'w' if m else ctx); return
            if op in ('++', '--'): self.st(a, 'w'); return
            if op == '<<' and a: self.st(a[1:], 'r'); self.st(a[0], 'r' if isStream(a[0].get('t', '')) else 'w'); return
            if op == '>>' and len(a) == 2: self.st(a[0], 'r'); self.st(a[1], 'w'); return
            if e.get('mconst') is False and e.get('cls') and len(a) >= 1: self.st(a[0], 'w'); self.pt(e, a[1:]); return
            self.pt(e, a); return
        if k == 'MCall':
            o = e.get('obj'); nm = e.get('name') or ''
            self.st(o, 'r' if e.get('mconst') or e.get('mstatic') else ctx if nm in PASS else 'W' if nm in WHOLE and (o or {}).get('k') in ('Ref', 'Member') else 'w')
            self.pt(e, e['args']); return
        if k in ('Call', 'Construct'): self.pt(e, e['args']); return
        if k == 'Decl':
            for v in e['vars']: self.var(v)
            return
        if k == 'InitList' and outptr(e.get('t', '')): self.st(e.get('items'), 'e'); return
        if k == 'RFor':
            v = e['var']; t = v['t']
            self.st(e['range'], 'w' if t.rstrip().endswith('&') and not strip_const(t) else 'r'); self.st(e['body'], 'r'); return
        if k == 'Return':
            t = self.f.get('ret') or ''
            self.st(e.get('e'), 'w' if t.rstrip().endswith('&') and not strip_const(t) else 'r'); return
        for n, v in e.items():
            if n not in ('k', 'l', 't') and isinstance(v, (dict, list)): self.st(v, 'r')
    def var(self, v):
        i = v.get('init')
        if i is None: return
        t = v['t'].rstrip()
        self.st(i, 'w' if t.endswith('&') and not t.endswith('&&') and not strip_const(t) else 'e' if outptr(t) and i.get('k') != 'InitList' else 'r')
def outptr(t):
    """a pointer (or an array of pointers) through which the pointee can be written"""
    t = re.sub(r'\[\d*\]', '', t).strip()
    t = t[:-5].strip() if t.endswith('*const') else t
    return t.endswith('*') and not t.startswith('const ')
def strip_const(t):
    """the referred type is const"""
    t = t.strip(); t = t[:-1].strip() if t.endswith('&') else t
    return t.startswith('const ') and not t.endswith('*') or t.endswith('const')
def constvar(v):
    t = v['t'].strip()
    return (v.get('const') or t.startswith('const ') and not t.endswith(('*', '&'))) and not t.endswith('&') or t.endswith('const')

def inlib(f): return f['file'].startswith(('src/thunder/src/', 'src/thunder/library/', 'src/thunder/thunder_robot_template/')) or f['file'] == 'gen'

@check('C23')
def c23(pid, prog):
    c = Check(pid, 'effects on storage that outlives or is shared by objects: every variable of static or thread storage, every field that is a handle to shared data, in every function of the library, the class template and generated classes')
    c.assume = ['functions of casadi, Eigen, yaml-cpp and std on distinct objects do not interfere, except for the handles of yaml-cpp nodes', 'the programs thunder and genYAML work on one robot; the rule is for the functions they call']
    def scan(prog, label, fl, gl):
        """fl: functions, gl: global variables"""
        owner = {}
        for f in fl:
            for n in walk_(f.get('body')):
                if n.get('k') == 'Decl':
                    for v in n['vars']:
                        if v.get('static') or v.get('tls'): owner[v['id']] = (v, f)
        byq = {g['qn']: g for g in gl}
        def want(e): return e.get('id') in owner or (e.get('qn') in byq and (e.get('k') == 'Ref' or e.get('dk') == 'Var'))
        uses = {}
        for f in fl:
            for n, ctx in Uses(f, want).out:
                key = n['id'] if n.get('id') in owner else n['qn']
                uses.setdefault(key, []).append((f, n, ctx))
        for f in fl: c.funcs.add('%s (%s)' % (f['qn'].replace('tpl!', 'template '), loc(f)))
        for key, (v, f) in list(owner.items()) + [(g['qn'], (g, None)) for g in byq.values()]:
            if strip(v['t']).startswith(SYNC): continue
            at = '%s:%s' % ((f or v).get('file'), v['l']); what = v['name'] + (' in ' + f['qn'].replace('tpl!', '') if f else '')
            us = uses.get(key, []); nm = 'variable shared by %s' % ('all calls on a thread' if v.get('tls') else 'all objects and threads')
            # initialised from the first call
            if f is not None and v.get('init') is not None:
                dep = [n for n in walk_(v['init']) if n.get('k') == 'This' or n.get('k') == 'Ref' and n.get('dk') in ('ParmVar', 'Var') and not n.get('glob') and n.get('id') not in owner and not inlambda(n, v['init'])]
                if dep:
                    put(c, nm, 'differs', '%s keeps the value of the first call (it is initialised from %s)' % (what, dep[0].get('name') or 'the object'), at, label, 'C23:%s' % what); continue
            if constvar(v): put(c, nm, 'equal', '', at, '%s %s: constant' % (label, what)); continue
            if v.get('tls'):
                first = us[0][2].replace('e', 'r') if us else 'W'
                arr = arraysize(v['t'])
                if not any(x in 'wW' for _, _, x in us) and not arr: put(c, nm, 'equal', '', at, '%s %s: never changed' % (label, what)); continue
                if first == 'W' and not branch(us[0][0], us[0][1]): put(c, nm, 'equal', '', at, '%s %s: overwritten before it is read' % (label, what)); continue
                if arr and f is not None and f['file'] == 'gen': continue          # decided by the interpretation of the getter
                put(c, nm, 'differs' if first == 'r' else 'open', '%s is read before this call has written it' % what, at, label, 'C23:%s' % what); continue
            wr = [(g, n) for g, n, x in us if x in 'wWe']
            if wr: put(c, nm, 'differs', '%s is changed in %s (%s:%s)' % (what, wr[0][0]['qn'].replace('tpl!', ''), wr[0][0]['file'], wr[0][1].get('l')), at, label, 'C23:%s' % what)
            else: put(c, nm, 'equal', '', at, '%s %s: never changed by the library' % (label, what))
        # state of the process
        for f in fl:
            for n in walk_(f.get('body')):
                if n.get('k') in ('Call', 'MCall'):
                    q = n.get('fn') or ''
                    w = PROC.get(q)
                    if q == 'std::filesystem::current_path' and n['args'] and not n['args'][0].get('defarg') and 'error_code' not in n['args'][0].get('t', ''): w = 'the working directory'
                    if q.startswith('casadi::GlobalOptions::set'): w = 'the options of casadi'
                    if w: put(c, 'state of the process', 'differs', '%s changes or depends on %s' % (f['qn'], w), '%s:%s' % (f['file'], n.get('l')), label, 'C23:%s %s' % (f['qn'], q))
        put(c, 'state of the process', 'equal', '', None, '%s: %d functions' % (label, len(fl)))
    lib = [f for fs in prog.byqn.values() for f in fs if inlib(f)]
    scan(prog, 'library', lib, [g for g in prog.globals.values() if not g['file'].endswith('thunder_main.cpp') and not g['file'].startswith('src/genYAML')])
    # fields
    for q, r in sorted(prog.records.items()):
        if not (r.get('file') or '').startswith('src/thunder/') and 'Robot' not in q and not q.startswith('thunder_'): continue
        for fl in r.get('fields', []):
            t = strip(fl['t']); t2 = fl['t'].strip()
            if t2.endswith(('*', '&')) or t.startswith(('std::shared_ptr', 'std::weak_ptr', 'Eigen::Map', 'Eigen::Ref', 'std::reference_wrapper')):
                const = 'const' in t2.split('<')[0] or '<const ' in t2
                wr = None
                for f in lib:
                    for n in walk_(f.get('body')):
                        if n.get('k') == 'Bin' and n['op'].endswith('=') and n['op'] not in ('==', '!=', '<=', '>=') or n.get('k') == 'OpCall' and n['op'].endswith('=') and n['op'] not in ('==', '!=', '<=', '>='):
                            l = n['a'] if n['k'] == 'Bin' else n['args'][0]
                            if l.get('k') not in ('Member',) and any(x.get('k') == 'Member' and x.get('name') == fl['name'] for x in walk_(l)): wr = wr or (f, n)
                        if n.get('k') == 'MCall' and n.get('mconst') is False and any(x.get('k') == 'Member' and x.get('name') == fl['name'] for x in walk_(n.get('obj'))) and n.get('name') not in ('reset', 'get'): wr = wr or (f, n)
                put(c, 'field refers to data outside the object', 'equal' if const else 'differs' if wr else 'open', '%s::%s is a handle copied with the object%s' % (q, fl['name'], ', written through in %s:%s' % (wr[0]['file'], wr[1].get('l')) if wr else ''), '%s:%s' % (r.get('file'), fl.get('l')), '', 'C23:%s::%s' % (q, fl['name']))
            else: put(c, 'field is part of the object', 'equal', '', None, '%s::%s' % (q, fl['name']))
    # nodes of the configuration: copies of a robot refer to the same ones
    sh = Shape('three joints, one elastic', ['R', 'R_SEA', 'P'], flags='mixed', elastic=(2, 1, 2), Dl=2)
    yf = [(q, fl['name']) for q, r in prog.records.items() for fl in r.get('fields', []) if strip(fl['t']) == 'YAML::Node' and q == 'thunder_ns::Robot']
    names = {n for q, n in yf}
    for f in sorted(lib, key=lambda f: (f['file'], f['l'])):
        if f['qn'].startswith('tpl!') or not any(n.get('k') == 'Member' and n.get('name') in names and n.get('qn', '').startswith('thunder_ns::Robot') for n in walk_(f.get('body'))): continue
        if f['qn'].endswith('::Robot'): continue
        def one():
            w = genload(prog, sh)
            if w.st.dead: raise Give('robot not created')
            for n in names: w.m.wr(w.st, LVal(w.self_.cell, w.self_.path + (('f', n),)), Opq('Y', ('file', 'own'), ()))
            w.m.hooks.update({'fn:' + P_ + 'add_function': lambda m, g, a, t, st: ONE})
            a = []
            for p in f['params']:
                t = strip(p['t'])
                a.append(Str('F') if isStrT(t) else Opq('Y', ('file', 'arg'), ()) if t == 'YAML::Node' else TRUE if t == 'bool' else w.self_ if 'thunder_ns::Robot' in t else listV([], 'std::basic_string<char>') if isVecT(t) else ONE)
            n = len(w.m.events); w.thrown = None
            runc(w, f, a, w.self_ if f.get('cls') == 'thunder_ns::Robot' else None)
            bad = None
            for e in w.m.events[n:]:
                if e.kind not in ('yset', 'ypush', 'yrebind'): continue
                x = e.d.get('node')
                if isinstance(x, Opq) and x.tag == 'Y' and x.args[0] in (('file', 'own'), ('file', 'arg')): bad = bad or e
            put(c, 'configuration shared with copies is not changed', 'equal' if bad is None else 'differs', 'a node is %s at %s:%s' % ('rebound' if bad and bad.kind == 'yrebind' else 'changed', *(bad.loc if bad and bad.loc else ('?', '?'))), loc(f), f['qn'], 'C23:%s yaml' % f['qn'])
        guardrun(c, 'configuration shared with copies is not changed', loc(f), f['qn'], one)
    # generated class
    for g, k in gens(prog):
        if isinstance(g, str): put(c, 'generated class', 'open', g, None, ''); continue
        mode = gname(g); ch = prog.fn('thunder_ns::change_to_robot') or g.f; L = loc(ch)
        def gen():
            cl = Cls(g, k)
            if cl.err or cl.rec is None: put(c, 'generated class', 'open', 'does not compile', L, mode); return
            fl = [dict(f, file='gen') for fs in cl.prog.byqn.values() for f in fs if not f['qn'].startswith('pybind11')]
            scan(cl.prog, 'generated class of ' + mode, fl, [dict(x, file='gen') for x in cl.prog.globals.values() if not (x.get('file') or '').startswith('/usr')])
            for nm, r, cc, args, d in g.table:
                fs = cl.prog.byqn.get('%s::get_%s' % (cl.cls, nm), [])
                if len(fs) != 1: continue
                t = fs[0].get('ret') or ''
                alias = t.rstrip().endswith(('&', '*')) or 'Map<' in t or 'Ref<' in t or 'span<' in t
                if alias: put(c, 'result is the caller\'s own', 'differs', 'returns %s, which refers to the buffer of the thread' % t, L, '%s get_%s' % (mode, nm), 'C23:alias'); continue
                def one():
                    m, st, ret = cl.run(fs[0])
                    cs = m.calls_
                    if len(cs) != 1: put(c, 'result is the caller\'s own', 'open', '%d calls' % len(cs), L, '%s get_%s' % (mode, nm)); return
                    exp = Mat(r, cc, lambda i, j: toP(mkA('ent', 'out:' + cs[0]['fn'], j * r + i)), 'eig')
                    put(c, 'result is the caller\'s own', *cmpd(ret, exp), L, '%s get_%s' % (mode, nm))
                guardrun(c, 'result is the caller\'s own', L, '%s get_%s' % (mode, nm), one)
        guardrun(c, 'generated class', L, mode, gen)
    c.minimum = 1
    c.finish()

def inlambda(n, root):
    """n names a parameter of a lambda inside root"""
    ids = {p['id'] for l in walk_(root) if l.get('k') == 'Lambda' for p in l.get('params', [])}
    ids |= {v['id'] for l in walk_(root) if l.get('k') == 'Lambda' for d in walk_(l.get('body')) if d.get('k') == 'Decl' for v in d['vars']}
    return n.get('id') in ids
def branch(f, n):
    """n is evaluated under a condition of f"""
    def go(x, c):
        if x is n: return c
        if isinstance(x, list):
            for y in x:
                r = go(y, c)
                if r is not None: return r
            return None
        if not isinstance(x, dict): return None
        k = x.get('k')
        for key, v in x.items():
            if isinstance(v, (dict, list)):
                r = go(v, c or (k in ('If', 'Cond', 'While', 'For', 'RFor', 'Try', 'Lambda', 'Switch') and key not in ('c', 'init', 'range')))
                if r is not None: return r
        return None
    r = go(f.get('body'), False)
    return bool(r)
