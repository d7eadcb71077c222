"""Machine for the generator side: strings, streams, files, paths and the command line are
evaluated as constants.  Every file operation can be made to fail (m.fault)."""
import posixpath
from model import *

def isStream(t): 
    t = strip(t)
    return t.startswith('std::basic_') and any(x in t for x in ('stream', 'ios<', 'filebuf', 'streambuf'))
def isPath(t): t = strip(t); return t.startswith('std::filesystem::') and t.endswith('path')
def isEc(t): return strip(t) in ('std::error_code', 'std::error_condition')
def lit(v): return v.lit() if isinstance(v, Str) else None
def norm(p):
    p = posixpath.normpath(p)
    return p[1:] if p.startswith('//') else p

class Usage(Exception): pass

class GenM(RMachine):
    """files: path -> list of contents; log: what happened to which file, in order"""
    def setup(self, files=None, cli=None, dirs=None, cwd='/work', fault=None):
        self.files = dict(files or {}); self.files0 = dict(self.files); self.cli = cli; self.dirs = dirs or (lambda p: True); self.cwd = cwd; self.faultf = fault
        self.streams = {}; self.log = []; self.cliargs = []; self.faults = []; self.itercap = 60000; self.codegens = {}; self.cfuns = {}
        self.used = []
        return self
    def fault(self, kind, path, e=None):
        self.log.append((kind, path))
        if self.faultf and self.faultf(kind, path, self):
            self.faults.append((kind, path, (self.curfile(), e.get('l') if e else None))); return True
        return False
    def pure(self, st, what):
        if st.pc: raise Give('%s under an undecided condition %r' % (what, st.pc))
    # ---- values ----
    def default(self, t):
        if isPath(t): return Str()
        if isEc(t): return toP(0)
        return super().default(t)
    def conv(self, v, t):
        if isinstance(v, Str) and isPath(t): return v
        return super().conv(v, t)
    def binop(self, op, a, b, e, st):
        if isinstance(a, Str) and isinstance(b, Str):
            if op == '/':
                x, y = lit(a), lit(b)
                if x is None or y is None: return Str(('top', 'path'))
                return Str(posixpath.join(x, y))
            if op in ('<', '>', '<=', '>=') and lit(a) is not None and lit(b) is not None:
                x, y = lit(a), lit(b); return TRUE if {'<': x < y, '>': x > y, '<=': x <= y, '>=': x >= y}[op] else FALSE
        if op in ('<', '>', '<=', '>=') and isinstance(a, P) and isinstance(b, P) and any(strip((e.get(s) or {}).get('t', '')).startswith(('unsigned', 'size_t')) for s in ('a', 'b')):
            x, y = a.num(), b.num()
            if x is not None and y is not None:
                x = x + 2 ** 64 if x < 0 else x; y = y + 2 ** 64 if y < 0 else y
                return TRUE if {'<': x < y, '>': x > y, '<=': x <= y, '>=': x >= y}[op] else FALSE
        if isinstance(b, P) and isinstance(a, Str) and op in ('==', '!=') and lit(a) is not None and len(lit(a)) == 1 and b.num() is not None:
            eq = ord(lit(a)) == b.num(); return TRUE if eq == (op == '==') else FALSE
        if op == '+' and isinstance(a, Str) and isinstance(b, P) and b.num() is not None and e and strip((e.get('b') or {}).get('t', '')) == 'char': return a + Str(chr(int(b.num())))
        return super().binop(op, a, b, e, st)
    # ---- loops run iteration by iteration while their condition is decided ----
    def decided(self, c, st):
        if c is None: return True
        v = self.simpc(self.Cn(self.ev(c, st)), st)
        return True if v.kind == 'T' else False if v.kind == 'F' else None
    def concrete(self, s, st, first, inc=None):
        n = 0; out = {}; go = first
        while True:
            if go is None: raise Give('undecided loop condition')
            if not go: out['next'] = st; return out
            n += 1
            if n > self.itercap: raise Give('loop does not end within %d iterations' % self.itercap)
            o = self.ex(s['body'], st)
            if o.get('break') is not None:
                if o.get('next') or o.get('continue') or o.get('return'): raise Give('loop left under an undecided condition')
                out['next'] = o['break']; return out
            if o.get('return') is not None: 
                out['return'] = merge(out.get('return'), o['return'])
            st = merge(o.get('next'), o.get('continue'))
            if st is None: return out
            if inc is not None: self.ev(inc, st)
            go = self.decided(s.get('c'), st)
    def s_While(self, s, st):
        if s.get('var'): self.decl(s['var'], st)
        g = self.decided(s['c'], st)
        if g is None: return super().s_While(s, st)
        return self.concrete(s, st, g)
    def s_Do(self, s, st): return self.concrete(s, st, True)
    def s_For(self, s, st):
        if s.get('init'):
            o = self.ex(s['init'], st); st = o['next']
        try: g = self.decided(s.get('c'), st) if s.get('c') or s.get('inc') is None else None
        except Give: g = None
        if g is None or self.loops: return super().s_For(dict(s, init=None), st)
        return self.concrete(s, st, g, s.get('inc'))
    def s_RFor(self, s, st):
        r = s['range']
        if r is not None and isStrT(r.get('t', '')):
            v = lit(self.ev(r, st))
            if v is None: raise Give('characters of an unknown string')
            out = {}
            for ch in v:
                self.frame.env[s['var']['id']] = self.new(st, Str(ch))
                o = self.ex(s['body'], st)
                if o.get('break') is not None: out['next'] = o['break']; return out
                if o.get('return') is not None: out['return'] = o['return']
                st = merge(o.get('next'), o.get('continue'))
                if st is None: return out
            out['next'] = st; return out
        return super().s_RFor(s, st)
    # ---- strings ----
    def m_str(self, nm, e, st):
        if nm in ('find', 'rfind', 'find_first_of', 'find_last_of', 'find_first_not_of', 'find_last_not_of'):
            v = lit(self.ev(e['obj'], st)); a = self.args(e, st)
            x = lit(a[0]); 
            if x is None and isinstance(a[0], P) and a[0].num() is not None: x = chr(int(a[0].num()))
            p = a[1].num() if len(a) > 1 and isinstance(a[1], P) else None
            if v is None or x is None or (len(a) > 1 and p is None) or len(a) > 2: return Top('position in a string')
            fwd = nm in ('find', 'find_first_of', 'find_first_not_of')
            if p is not None: p = int(p); p = len(v) if p < 0 or p > len(v) else p
            if fwd:
                p = p or 0
                if nm == 'find': r = v.find(x, p)
                else: r = next((i for i in range(p, len(v)) if (v[i] in x) == (nm == 'find_first_of')), -1)
            else:
                p = len(v) if p is None else p
                if nm == 'rfind': r = v.rfind(x, 0, p + len(x))
                else: r = next((i for i in range(min(p, len(v) - 1), -1, -1) if (v[i] in x) == (nm == 'find_last_of')), -1)
            return toP(r)
        if nm in ('substr', 'compare', 'starts_with', 'ends_with', 'contains', 'back', 'front', 'at', 'operator[]'):
            v = lit(self.ev(e['obj'], st)); a = self.args(e, st)
            ints = [int(x.num()) if isinstance(x, P) and x.num() is not None else None for x in a]
            if v is None: return Str(('top', nm)) if nm == 'substr' else Top(nm)
            if nm == 'substr':
                if None in ints: return Str(('top', nm))
                p = ints[0] if ints else 0; n = ints[1] if len(ints) > 1 else -1
                if p < 0 or p > len(v): self.cxxthrow(st, 'std::out_of_range', e); return UNDEF
                return Str(v[p:] if n < 0 else v[p:p + n])
            if nm in ('back', 'front'): return Str(v[-1:] if nm == 'back' else v[:1]) if v else Top(nm)
            if nm in ('at', 'operator[]'):
                if ints[0] is None: return Top(nm)
                return Str(v[ints[0]]) if 0 <= ints[0] < len(v) else Top('position outside a string')
            x = [lit(y) for y in a]
            if nm == 'starts_with' and x[0] is not None: return TRUE if v.startswith(x[0]) else FALSE
            if nm == 'ends_with' and x[0] is not None: return TRUE if v.endswith(x[0]) else FALSE
            if nm == 'contains' and x[0] is not None: return TRUE if x[0] in v else FALSE
            if nm == 'compare':
                if len(a) == 1 and x[0] is not None: return toP((v > x[0]) - (v < x[0]))
                if len(a) == 3 and None not in ints[:2] and x[2] is not None: w = v[ints[0]:ints[0] + ints[1]] if ints[1] >= 0 else v[ints[0]:]; return toP((w > x[2]) - (w < x[2]))
            return Top(nm)
        if nm in ('replace', 'insert', 'erase', 'assign', 'swap', 'resize') or (nm in ('append', 'push_back') and len([x for x in e['args'] if not x.get('defarg')]) > 1):
            lv = self.objlv(e, st); cur = self.rd(st, lv); v = lit(cur)
            if nm == 'swap':
                o = self.lv(e['args'][0], st); y = self.rd(st, o); self.wr(st, o, cur); self.wr(st, lv, y); return UNDEF
            a = self.args(e, st); ints = [int(x.num()) if isinstance(x, P) and x.num() is not None else None for x in a]; strs = [lit(x) for x in a]
            def done(s): self.wr(st, lv, Str(s)); return Str(s)
            def bad(): self.wr(st, lv, Str(('top', nm))); return UNDEF
            def part(i):
                """the string given by the arguments from i on"""
                r = strs[i] if i < len(strs) else None
                if r is None:
                    if i + 1 < len(a) and ints[i] is not None and strs[i + 1] is not None and len(strs[i + 1]) == 1 and nm != 'append': return strs[i + 1] * ints[i]
                    if i + 1 < len(a) and ints[i] is not None and strs[i + 1] is not None: return strs[i + 1] * ints[i]
                    return None
                if i + 1 >= len(a): return r
                if i + 2 >= len(a): return r[:ints[i + 1]] if isinstance(a[i], Str) and strip(e['args'][i].get('t', '')).startswith(('char', 'const char')) else (r[ints[i + 1]:] if ints[i + 1] is not None else None)
                if ints[i + 1] is None or ints[i + 2] is None: return None
                return r[ints[i + 1]:] if ints[i + 2] < 0 else r[ints[i + 1]:ints[i + 1] + ints[i + 2]]
            if v is None: return bad()
            if nm in ('append', 'push_back', 'assign'):
                r = part(0)
                return bad() if r is None else done(r if nm == 'assign' else v + r)
            if nm == 'resize' and ints and ints[0] is not None: return done(v[:ints[0]])
            if nm == 'erase':
                if any(x is None for x in ints): return bad()
                p = ints[0] if ints else 0; n = ints[1] if len(ints) > 1 else -1
            elif nm == 'insert':
                p = ints[0] if ints else None; n = 0
            else:
                p = ints[0] if ints else None; n = ints[1] if len(ints) > 1 else None
            if p is None or n is None: return bad()
            if p < 0 or p > len(v): self.cxxthrow(st, 'std::out_of_range', e); return UNDEF
            r = '' if nm == 'erase' else part(1 if nm == 'insert' else 2)
            if r is None: return bad()
            return done(v[:p] + r + (v[p + n:] if n >= 0 else ''))
        if nm in ('size', 'length'):
            v = lit(self.ev(e['obj'], st))
            return toP(len(v)) if v is not None else Top('length')
        if nm.startswith('operator basic_string'): return self.ev(e['obj'], st)
        return super().m_str(nm, e, st)
    def f_getline(self, e, st):
        s = self.stream(self.ev(e['args'][0], st)); lv = self.lv(e['args'][1], st)
        d = lit(self.ev(e['args'][2], st)) if len(e['args']) > 2 else '\n'
        if s is None or s.get('text') is None or d is None: self.wr(st, lv, Str(('top', 'getline'))); raise Give('lines of an unknown text')
        self.pure(st, 'reading')
        t = s['text']; p = s['pos']
        if p >= len(t) or s['fail']: s['fail'] = True; self.wr(st, lv, Str()); return self.ev(e['args'][0], st)
        q = t.find(d, p); x = t[p:] if q < 0 else t[p:q]; s['pos'] = len(t) if q < 0 else q + 1
        if q < 0: s['eof'] = True
        self.wr(st, lv, Str(x)); return self.ev(e['args'][0], st)
    # ---- streams ----
    def stream(self, v):
        if isinstance(v, LVal): return None
        return self.streams.get(v.args[1]) if isinstance(v, Opq) and v.tag == 'stream' else None
    def good(self, s): return TRUE if not s['fail'] else FALSE
    def openfile(self, s, path, st, e, mode=''):
        self.pure(st, 'opening a file')
        p = lit(path)
        if p is None: raise Give('file name not resolved: %r' % (path,))
        p = norm(posixpath.join(self.cwd, p)); s['path'] = p; s['open'] = False
        if s['kind'] == 'in':
            if p not in self.files or self.fault('read', p, e): s['fail'] = True; self.log.append(('missing', p)) if p not in self.files else None; return
            s['text'] = self.text(p); s['pos'] = 0; s['open'] = True; self.used.append(p)
        else:
            if self.fault('create', p, e): s['fail'] = True; return
            if 'app' not in mode or p not in self.files: self.files[p] = []
            s['open'] = True; self.log.append(('created', p))
    def text(self, p):
        c = self.files.get(p)
        if c is None: return None
        if isinstance(c, str): return c
        return ''.join(c) if all(isinstance(x, str) for x in c) else None
    def flushf(self, s, e=None):
        if s['kind'] == 'out' and s['open'] and s.get('dirty'):
            s['dirty'] = False
            if self.fault('write', s['path'], e): s['fail'] = True
    def put_text(self, s, vals, items=None, e=None):
        for i, v in enumerate(vals):
            if isinstance(v, Str): x = lit(v) if lit(v) is not None else v
            elif isinstance(v, P) and v.num() is not None: 
                n = v.num(); x = chr(int(n)) if items and strip(items[i].get('t', '')) == 'char' else str(int(n)) if n == int(n) else repr(float(n))
            elif isinstance(v, C) and v.kind in 'TF': x = '1' if v.kind == 'T' else '0'
            elif isinstance(v, FnRef):
                if v.node.get('name') in ('endl',): x = '\n'
                else: x = ''
                fl = v.node.get('name') in ('endl', 'flush')
                if fl:
                    self.app(s, x); self.flushf(s, e); continue
            elif isinstance(v, Opq) and v.tag == 'rdbuf':
                q = self.streams.get(v.args[0]); x = q['text'][q['pos']:] if q and q.get('text') is not None else v
                if q and q.get('text') is not None: q['pos'] = len(q['text'])
                if q and not q['open'] and q['kind'] == 'in': s['fail'] = True; continue
                if x == '': s['fail'] = True
            else: x = v
            self.app(s, x)
    def app(self, s, x):
        if s['kind'] == 'mem':
            s['parts'].append(x); s['text'] = ''.join(s['parts']) if all(isinstance(y, str) for y in s['parts']) else None
        elif s['kind'] == 'out':
            if not s['open'] or s['fail']: s['fail'] = True; return
            s['dirty'] = True; self.files[s['path']] = list(self.files[s['path']]) if not isinstance(self.files[s['path']], str) else [self.files[s['path']]]
            self.files[s['path']].append(x)
    def emit(self, kind, d, st, e=None):
        if kind == 'stream' and d.get('lv') is not None and hasattr(self, 'streams'):
            v = self.rd(st, d['lv']); s = self.stream(v)
            if isinstance(v, Top): raise Give('stream not resolved')
            if s is not None:
                self.pure(st, 'writing')
                items = []; b = e
                while isinstance(b, dict) and b.get('k') == 'OpCall' and b.get('op') == '<<': items.insert(0, b['args'][1]); b = b['args'][0]
                self.put_text(s, d['vals'], items if len(items) == len(d['vals']) else None, e)
        return super().emit(kind, d, st, e)
    def m_stream(self, nm, e, st):
        v = self.ev(e['obj'], st); s = self.stream(v); a = self.args(e, st)
        if isinstance(v, Top): raise Give('stream not resolved')
        if s is None: return Opq('ext', 'stream') if nm in ('rdbuf',) else Top('stream member ' + nm)
        if nm == 'open':
            s['fail'] = False
            self.openfile(s, a[0], st, e, str(a[1:])); return UNDEF
        if nm == 'is_open': return TRUE if s['open'] else FALSE
        if nm in ('good', 'operator bool'): return cand(self.good(s), cnot(TRUE if s.get('eof') else FALSE)) if nm == 'good' else self.good(s)
        if nm in ('fail', 'bad'): return cnot(self.good(s))
        if nm == 'eof': return TRUE if s.get('eof') else FALSE
        if nm == 'rdbuf': return Opq('rdbuf', v.args[1])
        if nm == 'close':
            if not s['open']: s['fail'] = True
            self.flushf(s, e); s['open'] = False; return UNDEF
        if nm == 'flush': self.flushf(s, e); return v
        if nm == 'str':
            if a: s['parts'] = [lit(a[0]) if lit(a[0]) is not None else a[0]]; s['text'] = lit(a[0]); s['pos'] = 0; return UNDEF
            if s.get('text') is not None: return Str(s['text'])
            if len(s['parts']) == 1 and not isinstance(s['parts'][0], str): return s['parts'][0]
            return Str(('top', 'text'))
        if nm in ('write', 'put'):
            x = a[0]
            if nm == 'write' and lit(x) is not None and len(a) > 1 and isinstance(a[1], P) and a[1].num() is not None: x = Str(lit(x)[:int(a[1].num())])
            self.pure(st, 'writing'); self.put_text(s, [x], None, e); return v
        if nm in ('clear',): s['fail'] = False; s['eof'] = False; return UNDEF
        if nm in ('exceptions', 'precision', 'setf', 'width', 'imbue', 'tie', 'unsetf'): return UNDEF
        if nm == 'seekg' and a and isinstance(a[0], P) and a[0].num() is not None: s['pos'] = int(a[0].num()); return v
        return Top('stream member ' + nm)
    def newstream(self, cls, vals, st, e):
        self.nc += 1
        kind = 'mem' if 'stringstream' in cls else 'in' if 'ifstream' in cls else 'out'
        s = self.streams[self.nc] = {'kind': kind, 'fail': False, 'open': False, 'pos': 0, 'parts': [], 'text': '' if kind == 'mem' else None}
        o = Opq('stream', cls, self.nc, *vals[:1])
        super().emit('open', {'cls': cls, 'path': vals[0] if vals else None, 'obj': self.nc}, st, e)
        if kind == 'mem':
            if vals and isinstance(vals[0], Str): s['parts'] = [lit(vals[0])] if lit(vals[0]) is not None else [vals[0]]; s['text'] = lit(vals[0])
        elif vals: self.openfile(s, vals[0], st, e, json_(e))
        return o
    def e_Construct(self, e, st):
        cls = e['cls']; real = [a for a in e['args'] if not a.get('defarg')]
        if cls.startswith(('std::basic_ofstream', 'std::basic_ifstream', 'std::basic_fstream', 'std::basic_stringstream', 'std::basic_ostringstream', 'std::basic_istringstream')):
            return self.newstream(cls, [self.ev(a, st) for a in real], st, e)
        if isEc(cls): return self.ev(real[0], st) if len(real) == 1 else toP(0) if not real else Top('error code')
        if cls.startswith('std::filesystem') and cls.endswith('path'):
            return self.ev(real[0], st) if real else Str()
        if cls.startswith('std::istreambuf_iterator'):
            if not real: return Opq('isbend')
            v = self.ev(real[0], st)
            if isinstance(v, LVal): v = self.rd(st, v)
            return Opq('isb', v.args[1] if isinstance(v, Opq) and v.tag in ('stream',) else v.args[0] if isinstance(v, Opq) and v.args else None)
        if cls.startswith('std::basic_string') and real:
            vals = [self.ev(a, st) for a in real]
            if isinstance(vals[0], Opq) and vals[0].tag == 'isb':
                s = self.streams.get(vals[0].args[0])
                if s and s.get('text') is not None: t = s['text'][s['pos']:]; s['pos'] = len(s['text']); return Str(t)
                return Str(('top', 'text of a stream'))
            if len(vals) > 1:
                x = lit(vals[0]); n = [int(v.num()) if isinstance(v, P) and v.num() is not None else None for v in vals]
                if x is not None and n[1] is not None:
                    pt = strip((e.get('pt') or [''])[0])
                    if pt.startswith(('const char', 'char')): return Str(x[:n[1]])
                    return Str(x[n[1]:] if len(n) < 3 or n[2] is None or n[2] < 0 else x[n[1]:n[1] + n[2]])
                if n[0] is not None and lit(vals[1]) is not None: return Str(lit(vals[1]) * n[0])
                return Str(('top', 'string'))
            return vals[0] if isinstance(vals[0], (Str, VIte)) else Str(('top', 'string'))
        if cls.startswith('casadi::CodeGenerator'):
            if e.get('copy') and real: return self.ev(real[0], st)
            vals = [self.ev(a, st) for a in real]; self.nc += 1
            self.codegens[self.nc] = {'name': lit(vals[0]) if vals else None, 'opts': vals[1] if len(vals) > 1 else None, 'funs': []}
            return Opq('codegen', self.nc)
        if cls.startswith('casadi::Function') and real and not e.get('copy'):
            vals = [self.ev(a, st) for a in real]; self.nc += 1
            if len(vals) == 1 and isinstance(vals[0], Opq) and vals[0].tag == 'cfun': return vals[0]
            self.cfuns[self.nc] = vals
            return Opq('cfun', self.nc)
        if cls.startswith('argparse::'):
            return Opq('argp', [0]) if False else Opq('ext', 'argparse')
        if cls.startswith(('casadi::GenericType', 'std::any')) and real: return self.ev(real[0], st)
        return super().e_Construct(e, st)
    def e_OpCall(self, e, st):
        if e['op'] == '!' and len(e['args']) == 1 and isStream(e['args'][0].get('t', '')):
            s = self.stream(self.ev(e['args'][0], st))
            if s is not None: return cnot(self.good(s))
        if e['op'] in ('+=', '/=') and isPath(e['args'][0].get('t', '')):
            lv = self.lv(e['args'][0], st); v = self.binop(e['op'][0], self.rd(st, lv), self.ev(e['args'][1], st), {}, st); self.wr(st, lv, v); return v
        if e['op'] == '>>' and isStream(e['args'][0].get('t', '')): raise Give('formatted input')
        if e['op'] == '[]' and isStrT(e['args'][0].get('t', '')):
            v = lit(self.ev(e['args'][0], st)); i = self.ev(e['args'][1], st)
            if v is not None and isinstance(i, P) and i.num() is not None and 0 <= i.num() < len(v): return Str(v[int(i.num())])
        return super().e_OpCall(e, st)
    # ---- paths and the file system ----
    def m_path(self, nm, e, st):
        v = lit(self.ev(e['obj'], st)); a = self.args(e, st)
        if nm in ('string', 'c_str', 'native', 'u8string', 'generic_string', 'lexically_normal') or nm.startswith('operator '): return self.ev(e['obj'], st)
        if v is None: return Str(('top', nm))
        b = posixpath.basename(v)
        if nm == 'filename': return Str(b)
        if nm == 'parent_path': return Str(posixpath.dirname(v))
        if nm == 'extension': return Str(posixpath.splitext(b)[1])
        if nm == 'stem': return Str(posixpath.splitext(b)[0])
        if nm == 'empty': return TRUE if not v else FALSE
        if nm == 'is_absolute': return TRUE if v.startswith('/') else FALSE
        if nm in ('has_filename', 'has_stem'): return TRUE if b else FALSE
        if nm == 'has_parent_path': return TRUE if posixpath.dirname(v) else FALSE
        if nm in ('is_relative', 'has_relative_path'): return TRUE if (v and not v.startswith('/') if nm == 'is_relative' else v.strip('/')) else FALSE
        if nm in ('has_root_path', 'has_root_directory'): return TRUE if v.startswith('/') else FALSE
        if nm == 'relative_path': return Str(v.lstrip('/'))
        if nm in ('root_path', 'root_directory'): return Str('/' if v.startswith('/') else '')
        if nm == 'has_extension': return TRUE if posixpath.splitext(b)[1] else FALSE
        if nm == 'compare' and lit(a[0]) is not None: return toP((v > lit(a[0])) - (v < lit(a[0])))
        if nm in ('append', 'concat', 'replace_extension', 'replace_filename', 'remove_filename', 'assign'):
            lv = self.objlv(e, st); x = lit(a[0]) if a else ''
            if x is None: self.wr(st, lv, Str(('top', nm))); return Str(('top', nm))
            r = {'append': posixpath.join(v, x), 'concat': v + x, 'replace_extension': posixpath.splitext(v)[0] + (x if not x or x.startswith('.') else '.' + x), 'replace_filename': posixpath.join(posixpath.dirname(v), x), 'remove_filename': v[:len(v) - len(b)], 'assign': x}[nm]
            self.wr(st, lv, Str(r)); return Str(r)
        return Top('path member ' + nm)
    def fsfail(self, e, st, val=FALSE):
        last = strip(e['args'][-1].get('t', '')) if e['args'] else ''
        if 'error_code' in last:
            try: self.wr(st, self.lv(e['args'][-1], st), toP(1))
            except Give: pass
            return val
        self.cxxthrow(st, 'std::filesystem::filesystem_error', e); return UNDEF
    def fs(self, nm, e, st):
        ec = [x for x in e['args'] if isEc(x.get('t', ''))]
        if ec: self.wr(st, self.lv(ec[-1], st), toP(0))
        a = [self.ev(x, st) for x in e['args'] if not x.get('defarg') and not isEc(x.get('t', ''))]
        P0 = lambda i: norm(posixpath.join(self.cwd, lit(a[i]))) if i < len(a) and lit(a[i]) is not None else None
        if nm == 'current_path' and not (a and isinstance(a[0], Str)): return Str(self.cwd)
        if nm in ('absolute', 'canonical', 'weakly_canonical'): return Str(P0(0)) if P0(0) is not None else Str(('top', nm))
        if nm in ('exists', 'is_regular_file', 'is_directory'):
            p = P0(0)
            if p is None: raise Give('path not resolved')
            isf = p in self.files; isd = self.dirs(p) and not isf
            if nm == 'is_directory' and isd and self.fault('directory', p, e): return FALSE
            return TRUE if (isf if nm == 'is_regular_file' else isd if nm == 'is_directory' else isf or isd) else FALSE
        if nm in ('create_directory', 'create_directories'):
            self.pure(st, 'creating a directory'); p = P0(0)
            if self.fault('mkdir', p, e): return self.fsfail(e, st)
            self.log.append(('mkdir!', p)); return TRUE
        if nm in ('copy_file', 'copy', 'rename', 'create_hard_link'):
            self.pure(st, 'copying'); s, d = P0(0), P0(1)
            if s is None or d is None: raise Give('file names of a copy not resolved')
            if s not in self.files or self.fault('copy', (s, d), e): 
                if s not in self.files: self.log.append(('missing', s))
                return self.fsfail(e, st)
            o = 0
            if nm != 'rename':
                for x in a[2:3]:
                    o = x.num() if isinstance(x, P) else None
                    if o is None and not 'error_code' in strip(e['args'][2].get('t', '')): raise Give('options of a copy not resolved')
                    o = int(o or 0)
            if nm != 'rename' and d in self.files and not o & 6:
                self.log.append(('existing', d))
                return FALSE if o & 1 else self.fsfail(e, st)
            if nm != 'rename' and d in self.files and o & 4 and not o & 2:     # only when the source is newer
                a0, b0 = self.written(s), self.written(d)
                if a0 == b0 and a0 < 2: raise Give('which file is newer')
                if a0 < b0: self.log.append(('existing', d)); return FALSE
            self.files[d] = self.files[s]; self.log.append(('copied', (s, d)))
            if nm == 'rename': del self.files[s]
            return TRUE
        if nm in ('remove', 'remove_all'):
            self.pure(st, 'removing'); p = P0(0)
            for q in [q for q in self.files if q == p or nm == 'remove_all' and p and q.startswith(p + '/')]: del self.files[q]; self.log.append(('removed', q))
            return TRUE
        return Top('filesystem ' + nm)
    def written(self, p):
        """0: there from the beginning, 1: left by an earlier run, 2: written by this run"""
        return 2 if p not in self.files0 or self.files0[p] is not self.files[p] else 1 if self.files[p] == 'left by an earlier run\n' else 0
    def f_LoadFile(self, e, st):
        a = [lit(self.ev(x, st)) for x in e['args']]
        if a and a[0] is not None: self.used.append(norm(posixpath.join(self.cwd, a[0])))
        return super().f_LoadFile(e, st)
    # ---- command line ----
    def m_arg(self, nm, e, st):
        a = self.args(e, st); names = [lit(x) for x in a]
        if nm == 'add_argument': self.cliargs.append({'names': names, 'def': None, 'imp': None}); return Opq('arg', len(self.cliargs) - 1)
        o = self.ev(e['obj'], st)
        if isinstance(o, Opq) and o.tag == 'arg':
            d = self.cliargs[o.args[0]]
            if nm == 'default_value': d['def'] = a[0]
            elif nm == 'implicit_value': d['imp'] = a[0]
            elif nm == 'flag': d['def'] = FALSE; d['imp'] = TRUE
            return o
        if nm in ('get', 'is_used', 'present'):
            d = next((x for x in self.cliargs if names and names[0] in x['names']), None)
            if d is None: self.cxxthrow(st, 'std::logic_error', e); return UNDEF
            k = next((n for n in d['names'] if n in (self.cli or {})), None)
            if nm == 'is_used': return TRUE if k is not None else FALSE
            if k is not None:
                v = self.cli[k]
                return (d['imp'] if d['imp'] is not None else TRUE) if v is True else Str(v)
            if nm == 'present': return Opq('nullopt')
            if d['def'] is not None: return d['def']
            self.cxxthrow(st, 'std::logic_error', e); return UNDEF
        if nm == 'parse_args':
            known = {n for x in self.cliargs for n in x['names']}
            bad = [n for n in (self.cli or {}) if n not in known]
            if bad: self.log.append(('option not accepted', bad[0])); self.cxxthrow(st, 'std::runtime_error', e)
            return UNDEF
        if nm == 'is_subcommand_used': return TRUE if names and isinstance(names[0], str) else Top(nm)
        return Top('argparse ' + nm)
    def f_getenv(self, e, st): self.args(e, st); return Str('/home/user')
    # ---- dispatch ----
    def lib(self, e, st):
        fn = e.get('fn') or ''
        if fn.startswith('std::filesystem') and not 'operator' in fn: return self.fs(lname(e), e, st)
        return super().lib(e, st)
    def libm(self, e, st):
        o = e.get('obj'); t0 = strip(o.get('t', '')) if o else ''
        if t0.endswith('*') and e.get('arrow'): t0 = strip(t0[:-1])
        nm = e.get('name') or ''
        if e.get('mstatic'): return super().libm(e, st)
        if isStream(t0): return self.m_stream(nm, e, st)
        if isPath(t0): return self.m_path(nm, e, st)
        if isEc(t0):
            if nm == 'clear': self.wr(st, self.objlv(e, st), toP(0)); return UNDEF
            v = self.ev(o, st)
            if nm == 'operator bool' and isinstance(v, P): return cnot(ceqq(v, toP(0)))
            return v if nm == 'value' else Str(('top', nm))
        if 'argparse::' in t0: return self.m_arg(nm, e, st)
        if t0.startswith('casadi::CodeGenerator'):
            v = self.ev(o, st); a = self.args(e, st); g = self.codegens.get(v.args[0]) if isinstance(v, Opq) and v.tag == 'codegen' else None
            if g is None: raise Give('code generator not resolved')
            self.pure(st, 'code generation')
            if nm == 'add':
                if isinstance(a[0], Top): raise Give('function given to the code generator not resolved: %r' % (a[0],))
                g['funs'].append(a[0]); return UNDEF
            if nm == 'generate':
                p = lit(a[0]) if a else ''
                if p is None or g['name'] is None: raise Give('name of the generated file not resolved')
                def opt(k, d):
                    v = g['opts'].get(Str(k)) if isinstance(g['opts'], MapV) and self.mapkeys(g['opts']) is not None and k in self.mapkeys(g['opts']) else None
                    if v is None: return d
                    if isinstance(v, C): return v.kind == 'T'
                    if isinstance(v, P) and v.num() is not None: return v.num() != 0
                    raise Give('option %s of the code generator' % k)
                base = norm(posixpath.join(self.cwd, p + g['name']))
                ext = '.cpp' if opt('cpp', False) else '.c'
                if self.fault('codegen', base, e): self.cxxthrow(st, 'casadi::CasadiException', e); return UNDEF
                self.files[base + ext] = [('casadi code', list(g['funs']))]
                if opt('with_header', False): self.files[base + '.h'] = [('casadi header', list(g['funs']))]
                self.log.append(('generated', base)); return Str(base + ext)
            return UNDEF
        if t0.startswith('casadi::Function') and nm in ('save', 'generate'):
            v = self.ev(o, st); a = self.args(e, st); p = lit(a[0]) if a else None
            if p is None: raise Give('name of a saved function not resolved')
            self.pure(st, 'saving a function'); p = norm(posixpath.join(self.cwd, p))
            if self.fault('create', p, e): self.cxxthrow(st, 'casadi::CasadiException', e); return UNDEF
            self.files[p] = [('casadi function', v)]; self.log.append(('created', p)); return UNDEF
        return super().libm(e, st)
def json_(e):
    out = []
    for n in walk_(e): 
        if n.get('name') in ('app', 'ate', 'trunc'): out.append(n['name'])
    return ' '.join(out)
def walk_(x):
    if isinstance(x, dict):
        yield x
        for v in x.values(): yield from walk_(v)
    elif isinstance(x, list):
        for v in x: yield from walk_(v)
