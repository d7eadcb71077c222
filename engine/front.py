"""Front end: runs the clang plugin over every translation unit of /repo and
loads the type-resolved trees."""
import os, subprocess, json, tempfile, shutil, sys, re
from concurrent.futures import ThreadPoolExecutor
HERE = os.path.dirname(os.path.abspath(__file__)); VERIF = os.path.dirname(HERE)
REPO = os.environ.get('VERIF_REPO', '/repo')
SRC = REPO + '/src/thunder'
PLUGIN = VERIF + '/build/projdump.so'

def build_plugin():
    src = VERIF + '/frontend/dump.cpp'
    if os.path.exists(PLUGIN) and os.path.getmtime(PLUGIN) >= os.path.getmtime(src): return
    os.makedirs(VERIF + '/build', exist_ok=True)
    flags = subprocess.check_output(['llvm-config-18', '--cxxflags'], text=True).split()
    flags = [f for f in flags if not f.startswith('-std=')]
    tmp = PLUGIN + '.%d' % os.getpid()
    subprocess.check_call(['clang++', '-shared', '-fPIC', '-O1', '-std=c++17', '-fno-rtti'] + flags + [src, '-o', tmp])
    os.rename(tmp, PLUGIN)

INCS = ['-isystem', '/opt/thunder_deps/py/casadi/include']
TEMPLATE_SUBST = {'n_joints': '3', 'ELASTIC': '1', 'numElasticJoints': '2', 'K_order': '2', 'D_order': '2', 'Dl_order': '3', 'Dm_order': '2', 'isElasticJoint': '{0,1,1}', 'ROBOT_NAME': 'robot'}
def units():
    u = {}
    for f in sorted(os.listdir(SRC + '/src')):
        if f.endswith('.cpp'): u[f[:-4]] = (SRC + '/src/' + f, ['-I', SRC + '/library'])
    u['thunder_main'] = (SRC + '/thunder_main.cpp', ['-I', SRC + '/library'])
    gy = REPO + '/src/genYAML'
    if os.path.isdir(gy):
        for f in sorted(os.listdir(gy)) + ['src/' + x for x in sorted(os.listdir(gy + '/src'))]:
            if f.endswith('.cpp'): u['genYAML_' + os.path.basename(f)[:-4]] = (gy + '/' + f, ['-I', gy + '/library', '-I', SRC + '/library'])
    return u
def frontend_error(msg):
    print('FRONTEND: ' + msg); sys.exit(2)

class Program:
    def __init__(self, names=None, us=None, pre=None):
        build_plugin(); self.pre = pre
        self.tmp = tempfile.mkdtemp(prefix='projdump')
        self.funcs = {}; self.bysig = {}; self.byqn = {}; self.records = {}; self.globals = {}; self.units = {}; self.ctors = {}; self.errors = {}
        try:
            if us is None:
                us = units()
                us['template'] = self.template()
            if names: us = {k: v for k, v in us.items() if k in names}
            with ThreadPoolExecutor(8) as ex:
                list(ex.map(lambda kv: self.dump(kv[0], *kv[1]), us.items()))
            for n in us: self.load(n)
        finally:
            shutil.rmtree(self.tmp, ignore_errors=True)
    def template(self):
        d = self.tmp + '/tpl'; os.makedirs(d)
        for f in ('thunder_robot.h', 'thunder_robot.cpp'):
            s = open(SRC + '/thunder_robot_template/' + f).read()
            for k, v in TEMPLATE_SUBST.items(): s = s.replace('/*#-%s-#*/' % k, v)
            s = re.sub(r'/\*#-.*?-#\*/', '/**/', s)
            open(d + '/' + f, 'w').write(s)
        names = set(re.findall(r'\brobot_([a-zA-Z0-9_]+_fun)\b', open(d + '/thunder_robot.cpp').read()))
        with open(d + '/robot_gen.h', 'w') as g:
            g.write('#pragma once\n')
            for n in sorted(names):
                if n.endswith('_SZ_W') or n.endswith('_SZ_IW'): continue
                g.write('#define robot_%s_SZ_W 1\n#define robot_%s_SZ_IW 1\nextern "C" int robot_%s(const double** arg, double** res, long long int* iw, double* w, int mem);\n' % (n, n, n))
        return (d + '/thunder_robot.cpp', ['-I', d])
    def dump(self, name, path, inc):
        out = self.tmp + '/' + name + '.json'
        pre = self.pre or (self.tmp if name == 'template' else REPO + '/src')
        cmd = ['clang++', '-std=c++17'] + inc + INCS + ['-fsyntax-only', '-w', '-fplugin=' + PLUGIN, '-Xclang', '-plugin-arg-projdump', '-Xclang', 'out=' + out, '-Xclang', '-plugin-arg-projdump', '-Xclang', 'pre=' + pre, path]
        r = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
        if r.returncode != 0 or not os.path.exists(out): self.errors[name] = r.stdout[-1500:]
    def load(self, n):
        p = self.tmp + '/' + n + '.json'
        if not os.path.exists(p): return
        d = json.load(open(p))
        u = self.units[n] = {'functions': [], 'records': d['records'], 'globals': d['globals']}
        for f in d['functions']:
            f['file'] = self.rel(f['file']); f['unit'] = n
            u['functions'].append(f)
            if f.get('body') is None: continue
            key = f['sig']
            if n == 'template': key = 'tpl!' + key
            old = self.bysig.get(key)
            if old is not None and (old['file'], old['l']) != (f['file'], f['l']):
                # distinct internal-linkage functions sharing a signature: keep per unit
                self.bysig[n + '!' + key] = f
            elif old is None: self.bysig[key] = f
            self.byqn.setdefault(f['qn'] if n != 'template' else 'tpl!' + f['qn'], []).append(f) if old is None or (old['file'], old['l']) != (f['file'], f['l']) else None
            self.funcs[(n, f['id'])] = f
            if f.get('ctor'): 
                l = self.ctors.setdefault(f['cls'], [])
                if not any((x['file'], x['l']) == (f['file'], f['l']) for x in l): l.append(f)
        for r in d['records']:
            r['unit'] = n; self.records.setdefault(r['qn'], r)
        for g in d['globals']:
            g['file'] = self.rel(g['file']); g['unit'] = n
            self.globals.setdefault(g['qn'], g)
    def rel(self, f):
        if f.startswith(self.tmp + '/tpl/'): return 'src/thunder/thunder_robot_template/' + f[len(self.tmp) + 5:]
        if self.pre and f.startswith(self.pre + '/'): return 'generated:' + f[len(self.pre) + 1:]
        if f.startswith(REPO + '/'): return os.path.normpath(f[len(REPO) + 1:])
        return f
    # --- lookups used by the interpreter ---
    cur = None
    def func(self, e):
        s = e.get('sig')
        if s is None: return None
        u = self.cur() if self.cur else None
        if u == 'template' and 'tpl!' + s in self.bysig: return self.bysig['tpl!' + s]
        if u and u + '!' + s in self.bysig: return self.bysig[u + '!' + s]
        if u and (u + '!' + s) not in self.bysig and s in self.bysig:
            return self.bysig[s]
        return self.bysig.get(s)
    def fn(self, qn, file=None):
        l = [f for f in self.byqn.get(qn, []) if file is None or f['file'].endswith(file)]
        return l[0] if l else None
    def record(self, t):
        t = (t or '').strip()
        for p in ('const ', 'struct ', 'class '):
            if t.startswith(p): t = t[len(p):]
        t = t.rstrip('& ')
        return self.records.get(t)
    def ctor(self, cls, e):
        c = self.ctors.get(cls)
        if not c: return None
        s = e.get('sig')
        for f in c:
            if f['sig'] == s: return f
        return None

def walk(x):
    """all nodes (dicts with a kind) below x"""
    st = [x]
    while st:
        y = st.pop()
        if isinstance(y, dict):
            if 'k' in y: yield y
            st.extend(v for v in y.values() if isinstance(v, (dict, list)))
        elif isinstance(y, list): st.extend(y)
