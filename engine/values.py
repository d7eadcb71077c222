"""Abstract values of the value-numbering analysis."""
from terms import *

class Undef:
    def __repr__(self): return 'undef'
UNDEF = Undef()

class Top:
    def __init__(self, why): self.why = why
    def __repr__(self): return 'Top(%s)' % self.why

class Str:
    """string: concatenation of literals, ('int',P), ('s',P) symbolic, ('top',why)"""
    __slots__ = ('parts',)
    def __init__(self, *parts):
        out = []
        for p in parts:
            if isinstance(p, tuple) and p[0] == 'int' and isinstance(p[1].num(), int): p = str(p[1].num())
            if isinstance(p, str):
                if not p: continue
                if out and isinstance(out[-1], str): out[-1] += p; continue
            out.append(p)
        self.parts = tuple(out)
    def lit(self):
        if not self.parts: return ''
        if len(self.parts) == 1 and isinstance(self.parts[0], str): return self.parts[0]
        return None
    def istop(self): return any(isinstance(p, tuple) and p[0] == 'top' for p in self.parts)
    def __add__(self, o): return Str(*(self.parts + o.parts))
    def __eq__(self, o): return isinstance(o, Str) and self.parts == o.parts
    def __hash__(self): return hash(self.parts)
    def __repr__(self): return '"' + ''.join(p if isinstance(p, str) else '{%s}' % (show(p[1]) if isinstance(p[1], P) else p[1]) for p in self.parts) + '"'

def strsplit(v):
    """a symbolic string known to be one of a few literals, as a decision between them"""
    if isinstance(v, VIte): return VIte(v.c, strsplit(v.a), strsplit(v.b))
    if isinstance(v, Str) and len(v.parts) == 1 and isinstance(v.parts[0], tuple) and v.parts[0][0] == 's':
        for pref, d in STRDOMS.items():
            if kof(toP(v.parts[0][1])).startswith(pref):
                d = sorted(d); r = Str(d[-1])
                for x in reversed(d[:-1]): r = VIte(cstreq(v.parts[0][1], x), Str(x), r)
                return r
    return v
def domfails(c, limit=70000):
    """a choice of the strings of limited domain for which the condition fails; None when it always holds; False when unknown"""
    terms = {}; leaves = set()
    def walk(c):
        if c.kind in ('T', 'F'): return True
        if c.kind in ('not', 'and', 'or'): return all(walk(x) for x in c.args)
        if c.kind == 'streq':
            k = kof(c.args[0])
            for pref, d in STRDOMS.items():
                if k.startswith(pref): terms[k] = sorted(d); return True
        return False
    if not walk(c): return False
    n = 1
    for d in terms.values(): n *= len(d)
    if n > limit: return False
    import itertools
    ks = sorted(terms)
    def ev(c, a):
        if c.kind == 'T': return True
        if c.kind == 'F': return False
        if c.kind == 'not': return not ev(c.args[0], a)
        if c.kind == 'and': return all(ev(x, a) for x in c.args)
        if c.kind == 'or': return any(ev(x, a) for x in c.args)
        return a[kof(c.args[0])] == c.args[1]
    for vs in itertools.product(*[terms[k] for k in ks]):
        a = dict(zip(ks, vs))
        if not ev(c, a): return a
    return None
def strchar(v, k):
    v = strsplit(v)
    if isinstance(v, VIte): return vite(v.c, strchar(v.a, k), strchar(v.b, k))
    l = v.lit() if isinstance(v, Str) else None; n = k.num() if isinstance(k, P) else None
    if l is None or n is None or n < 0 or n > len(l): return Top('char of string')
    return Str(l[int(n)]) if n < len(l) else toP(0)
NPOS = -1
STRPURE = ('find', 'rfind', 'find_first_of', 'find_last_of', 'find_first_not_of', 'find_last_not_of', 'substr', 'compare', 'starts_with', 'ends_with', 'contains', 'back', 'front', 'at', 'operator[]', 'empty', 'size', 'length', 'count')
def strpure(nm, v, a):
    """value of a string member function on literals, None when not decided"""
    def lit(x): return x.lit() if isinstance(x, Str) else None
    def num(x): return int(x.num()) if isinstance(x, P) and x.num() is not None else None
    if nm == 'empty': return FALSE if v else TRUE
    if nm in ('size', 'length'): return toP(len(v))
    if nm in ('back', 'front'): return Str(v[-1:] if nm == 'back' else v[:1]) if v else None
    ints = [num(x) for x in a]
    if nm in ('at', 'operator[]'):
        r = strchar(Str(v), a[0]) if ints[0] is not None else None
        return None if isinstance(r, Top) else r
    if nm == 'substr':
        if None in ints: return None
        p = ints[0] if ints else 0; n = ints[1] if len(ints) > 1 else -1
        return None if p < 0 or p > len(v) else Str(v[p:] if n < 0 else v[p:p + n])
    if not a: return None
    x = lit(a[0])
    if nm in ('starts_with', 'ends_with', 'contains'):
        if x is None: return None
        return TRUE if (v.startswith(x) if nm == 'starts_with' else v.endswith(x) if nm == 'ends_with' else x in v) else FALSE
    if nm == 'compare':
        if len(a) == 1 and x is not None: return toP((v > x) - (v < x))
        if len(a) == 3 and None not in ints[:2] and lit(a[2]) is not None:
            w = v[ints[0]:ints[0] + ints[1]] if ints[1] >= 0 else v[ints[0]:]; y = lit(a[2]); return toP((w > y) - (w < y))
        return None
    p = ints[1] if len(a) > 1 else None
    if x is None and ints[0] is not None: x = chr(ints[0])
    if x is None or (len(a) > 1 and p is None) or len(a) > 2 or nm == 'count': return None
    if p is not None: p = len(v) if p < 0 or p > len(v) else p
    if nm in ('find', 'find_first_of', 'find_first_not_of'):
        p = p or 0
        r = v.find(x, p) if nm == 'find' else next((i for i in range(p, len(v)) if (v[i] in x) == (nm == 'find_first_of')), -1)
    else:
        p = len(v) if p is None else p
        r = v.rfind(x, 0, p + len(x)) if nm == 'rfind' else next((i for i in range(min(p, len(v) - 1), -1, -1) if (v[i] in x) == (nm == 'find_last_of')), -1)
    return toP(r)
def vlift(f, vs):
    """f over every combination of alternatives"""
    for i, v in enumerate(vs):
        if isinstance(v, VIte):
            return vite(v.c, vlift(f, vs[:i] + [v.a] + vs[i + 1:]), vlift(f, vs[:i] + [v.b] + vs[i + 1:]))
    return f(vs)

class Slice:
    def __init__(self, lo, hi, step=None): self.lo = lo; self.hi = hi; self.step = step     # None,None = all
    def __repr__(self): return 'Slice(%s,%s)' % (self.lo, self.hi)

class Mat:
    """matrix with symbolic dimensions; entries by function of (row, col)"""
    __slots__ = ('rows', 'cols', 'fn', 'memo', 'kind', 'tag')
    def __init__(self, rows, cols, fn, kind='sx', tag=None):
        self.rows = toP(rows); self.cols = toP(cols); self.fn = fn; self.memo = {}; self.kind = kind; self.tag = tag
    def get(self, r, c):
        r = toP(r); c = toP(c)
        k = (r, c)
        v = self.memo.get(k)
        if v is None:
            v = self.fn(r, c)
            if not isinstance(v, P): raise Give('matrix entry is not a scalar: %r' % (v,))
            self.memo[k] = v
        return v
    def isscalar(self): return self.rows.num() == 1 and self.cols.num() == 1
    def isvec(self): return self.cols.num() == 1
    def lin(self, k):
        k = toP(k)
        if self.cols.num() == 1: return self.get(k, ZERO)
        if self.rows.num() == 1: return self.get(ZERO, k)
        return self.get(pmod(k, self.rows), pdiv(k, self.rows))
    def size(self): return self.rows * self.cols
    def __repr__(self): return 'Mat(%s x %s)' % (show(self.rows), show(self.cols))

def eyef(r, c): return iv(ceqq(r, c))
def zerosM(r, c, kind='sx'): return Mat(r, c, lambda a, b: ZERO, kind)
def scalM(p, kind='sx'): return Mat(1, 1, lambda a, b: p, kind)
def constM(rows, kind='sx'):
    rows = [[toP(x) for x in r] for r in rows]
    def f(r, c):
        a, b = r.num(), c.num()
        if a is not None and b is not None:
            if 0 <= a < len(rows) and 0 <= b < len(rows[0]): return rows[a][b]
            raise Give('index out of range')
        s = ZERO
        for i, row in enumerate(rows):
            for j, x in enumerate(row):
                if not x.iszero(): s = s + iv(ceqq(r, i)) * iv(ceqq(c, j)) * x
        return s
    return Mat(len(rows), len(rows[0]) if rows else 0, f, kind)

class Vec:
    """std::vector-like: size and element function (elements: any value)"""
    __slots__ = ('size', 'fn', 'memo', 'et', 'filt', 'tag')
    def __init__(self, size, fn, et=None, filt=None, tag=None):
        self.size = toP(size); self.fn = fn; self.memo = {}; self.et = et; self.filt = filt; self.tag = tag
    def get(self, k):
        k = toP(k)
        v = self.memo.get(k)
        if v is None: v = self.memo[k] = self.fn(k)
        return v
    def tolist(self):
        n = self.size.num()
        if not isinstance(n, int): return None
        return [self.get(toP(i)) for i in range(n)]
    def __repr__(self): return 'Vec(%s)' % show(self.size)
def listV(items, et=None):
    items = list(items)
    def f(k):
        n = k.num()
        if n is not None:
            if 0 <= n < len(items): return items[n]
            raise Give('vector index out of range')
        if not items: raise Give('index into empty vector')
        v = items[-1]
        for i in range(len(items) - 2, -1, -1): v = vite(ceqq(k, i), items[i], v)
        return v
    return Vec(len(items), f, et)

class Filt:
    """elements appended by a loop:  for t in [lo,hi): if cond(t): push(val(t))"""
    __slots__ = ('segs',)
    def __init__(self, segs): self.segs = segs      # list of (t, lo, hi, cond, val) or ('one', val)
    def key(self):
        out = []
        for s in self.segs:
            if s[0] == 'one': out.append(('one', valkey(s[1])))
            else:
                t, lo, hi, c, v = s
                env = {t: sym('@F')}
                out.append((lo, hi, subst(c, env), valkey(v, env)))
        return tuple(out)

class Obj:
    __slots__ = ('cls', 'fields', 'default')
    def __init__(self, cls, fields, default=None): self.cls = cls; self.fields = fields; self.default = default
    def get(self, f):
        if f in self.fields: return self.fields[f]
        if self.default:
            v = self.default(f)
            self.fields[f] = v     # memo: defaults are pure
            return v
        return UNDEF
    def set(self, f, v):
        d = dict(self.fields); d[f] = v
        return Obj(self.cls, d, self.default)
    def __repr__(self): return 'Obj(%s)' % self.cls

class MapV:
    """keyed container: base function (key Str -> value) and a list of writes"""
    __slots__ = ('base', 'ups', 'name')
    def __init__(self, base, ups=(), name=None): self.base = base; self.ups = ups; self.name = name
    def get(self, k):
        for c, kk, v in reversed(self.ups):
            e = streq(kk, k)
            e = cand(c, e)
            if e.kind == 'T': return v
            if e.kind == 'F': continue
            i = self.ups.index((c, kk, v))
            return vite(e, v, MapV(self.base, self.ups[:i], self.name).get(k))
        return self.base(k)
    def set(self, k, v, c=TRUE): return MapV(self.base, self.ups + ((c, k, v),), self.name)

class Tup:
    def __init__(self, items, names=None): self.items = list(items)
    def __repr__(self): return 'Tup%r' % (self.items,)
class Lam:
    def __init__(self, node, caps, this): self.node = node; self.caps = caps; self.this = this
class FnRef:
    def __init__(self, node): self.node = node
class VIte:
    def __init__(self, c, a, b): self.c = c; self.a = a; self.b = b
    def __repr__(self): return 'VIte(%r,%r,%r)' % (self.c, self.a, self.b)
class PhV:
    """placeholder of a non-numeric loop-carried cell"""
    def __init__(self, lid, cid, t): self.lid = lid; self.cid = cid; self.t = t
class Opq:
    """opaque structured value"""
    def __init__(self, tag, *args): self.tag = tag; self.args = args
    def __eq__(self, o): return isinstance(o, Opq) and self.tag == o.tag and self.args == o.args
    def __hash__(self): return hash((self.tag,) + tuple(map(str, self.args)))
    def __repr__(self): return '%s%r' % (self.tag, self.args)
class LVal:
    """pointer/reference/iterator to a location"""
    __slots__ = ('cell', 'path')
    def __init__(self, cell, path=()): self.cell = cell; self.path = tuple(path)
    def __repr__(self): return 'LV(%s,%r)' % (self.cell, self.path)
class Iter:
    """iterator into a vector location"""
    def __init__(self, lv, pos): self.lv = lv; self.pos = pos
class MIt:
    """iterator into a map location: at a key present under a condition, or at the end"""
    def __init__(self, lv, key=None, has=FALSE): self.lv = lv; self.key = key; self.has = has
    def eq(self, o):
        if self.lv.cell != o.lv.cell or self.lv.path != o.lv.path: return cb('cmp', '==', str(self.lv), str(o.lv))
        r = cand(cnot(self.has), cnot(o.has))
        return cor(r, cand(self.has, o.has, streq(self.key, o.key))) if self.key is not None and o.key is not None else r
    def at(self): return LVal(self.lv.cell, self.lv.path + (('m', self.key),))
class YIt:
    """iterator over the entries of a YAML node"""
    def __init__(self, node, pos): self.node = node; self.pos = pos

def streq(a, b):
    """condition a == b for Str"""
    if a.parts == b.parts and not a.istop(): return TRUE
    if a.istop() or b.istop(): return cb('top', next_id())
    la, lb = a.lit(), b.lit()
    if la is not None and lb is not None: return TRUE if la == lb else FALSE
    if lb is not None: a, b, la, lb = b, a, lb, la
    if la is not None:
        if len(b.parts) == 1 and b.parts[0][0] == 's':
            return cstreq(b.parts[0][1], la)
        # template with integers
        import re
        rx = ''.join(re.escape(p) if isinstance(p, str) else (r'(-?\d+)' if p[0] == 'int' else r'(.*)') for p in b.parts)
        m = re.fullmatch(rx, la)
        if not m: return FALSE
        ps = [p for p in b.parts if not isinstance(p, str)]
        if all(p[0] == 'int' for p in ps):
            return cand(*[ceqq(p[1], int(g)) for p, g in zip(ps, m.groups())])
        return cb('streq', repr(a), repr(b))
    sa = tuple(p if isinstance(p, str) else p[0] for p in a.parts); sb = tuple(p if isinstance(p, str) else p[0] for p in b.parts)
    if sa == sb and not a.istop():
        ok = True; cs = []
        for x, y in zip(a.parts, b.parts):
            if isinstance(x, tuple):
                if x[0] == 'int': cs.append(ceqq(x[1], y[1]))
                elif x[1] == y[1]: pass
                else: ok = False
        if ok: return cand(*cs)
    # different literal prefixes
    pa = a.parts[0] if a.parts and isinstance(a.parts[0], str) else ''
    pb = b.parts[0] if b.parts and isinstance(b.parts[0], str) else ''
    k = min(len(pa), len(pb))
    if pa[:k] != pb[:k]: return FALSE
    return cb('streq', repr(a), repr(b))

def vite(c, a, b):
    if c.kind == 'T': return a
    if c.kind == 'F': return b
    if a is b: return a
    if isinstance(a, P) and isinstance(b, P): return ite(c, a, b)
    if isinstance(a, C) and isinstance(b, C): return cor(cand(c, a), cand(cnot(c), b)) if a is not b else a
    if isinstance(a, Str) and isinstance(b, Str) and a == b: return a
    if isinstance(a, P) and isinstance(b, Mat): a = scalM(a, b.kind)
    if isinstance(b, P) and isinstance(a, Mat): b = scalM(b, a.kind)
    if isinstance(a, Mat) and isinstance(b, Mat):
        if a.rows.iszero() and not b.rows.iszero() or a.cols.iszero() and not b.cols.iszero(): 
            return Mat(b.rows, b.cols, lambda r, k: iv(cnot(c)) * b.get(r, k), b.kind)
        if b.rows.iszero() and not a.rows.iszero() or b.cols.iszero() and not a.cols.iszero(): 
            return Mat(a.rows, a.cols, lambda r, k: iv(c) * a.get(r, k), a.kind)
        return Mat(ite(c, a.rows, b.rows), ite(c, a.cols, b.cols), lambda r, k: ite(c, a.get(r, k), b.get(r, k)), a.kind)
    if isinstance(a, Vec) and isinstance(b, Vec):
        if (a.filt or b.filt): return VIte(c, a, b)
        return Vec(ite(c, a.size, b.size), lambda k: vite(c, a.get(k), b.get(k)), a.et or b.et)
    if isinstance(a, Obj) and isinstance(b, Obj) and a.cls == b.cls:
        d = {}
        for f in set(a.fields) | set(b.fields):
            x, y = a.get(f), b.get(f)
            d[f] = x if x is y else vite(c, x, y)
        return Obj(a.cls, d, a.default)
    if isinstance(a, MapV) and isinstance(b, MapV) and a.base is b.base:
        k = 0
        while k < len(a.ups) and k < len(b.ups) and a.ups[k] is b.ups[k]: k += 1
        ups = a.ups[:k]
        ups += tuple((cand(c, cc), kk, v) for cc, kk, v in a.ups[k:])
        ups += tuple((cand(cnot(c), cc), kk, v) for cc, kk, v in b.ups[k:])
        return MapV(a.base, ups, a.name)
    if isinstance(a, Tup) and isinstance(b, Tup) and len(a.items) == len(b.items):
        return Tup([vite(c, x, y) for x, y in zip(a.items, b.items)])
    if isinstance(a, Opq) and a == b: return a
    if isinstance(a, LVal) and isinstance(b, LVal) and a.cell == b.cell and a.path == b.path: return a
    if isinstance(a, Slice) and isinstance(b, Slice) and a.lo is not None and b.lo is not None:
        return Slice(ite(c, a.lo, b.lo), ite(c, a.hi, b.hi))
    return VIte(c, a, b)

def mapval(v, f, fs=None):
    """apply f to every P / C inside a value (matrix/vector entries lazily).  f must not change index arguments passed in."""
    if isinstance(v, (P, C)): return f(v)
    if isinstance(v, Mat): return Mat(f(v.rows), f(v.cols), lambda r, c: f(v.get(r, c)), v.kind, v.tag)
    if isinstance(v, Vec):
        filt = None
        if v.filt: filt = Filt([s if s[0] == 'one' and False else (('one', mapval(s[1], f, fs)) if s[0] == 'one' else (s[0], f(s[1]), f(s[2]), f(s[3]), mapval(s[4], f, fs))) for s in v.filt.segs])
        return Vec(f(v.size), lambda k: mapval(v.get(k), f, fs), v.et, filt)
    if isinstance(v, Str): return Str(*[p if isinstance(p, str) else ((p[0], f(p[1])) if isinstance(p[1], P) else p) for p in v.parts])
    if isinstance(v, Obj):
        d = v.default
        return Obj(v.cls, {k: mapval(x, f, fs) for k, x in v.fields.items()}, d)
    if isinstance(v, MapV): return MapV(v.base, tuple((f(c), mapval(k, f, fs), mapval(x, f, fs)) for c, k, x in v.ups), v.name)
    if isinstance(v, Tup): return Tup([mapval(x, f, fs) for x in v.items])
    if isinstance(v, VIte): return vite(f(v.c), mapval(v.a, f, fs), mapval(v.b, f, fs))
    if isinstance(v, Opq): return Opq(v.tag, *[mapval(x, f, fs) if isinstance(x, (P, C, Str, Mat, Vec, Opq, VIte)) else x for x in v.args])
    if isinstance(v, Slice) and v.lo is not None: return Slice(f(v.lo), f(v.hi))
    if isinstance(v, PhV):
        if fs: return fs(v)
        return PhV(v.lid, v.cid, f(v.t))
    if isinstance(v, LVal):
        return LVal(v.cell, tuple(mappath(x, f, fs) for x in v.path))
    if isinstance(v, Iter): return Iter(v.lv, f(v.pos))
    if isinstance(v, MIt): return MIt(v.lv, mapval(v.key, f, fs) if v.key is not None else None, f(v.has))
    if isinstance(v, YIt): return YIt(mapval(v.node, f, fs), f(v.pos))
    return v
def mappath(x, f, fs):
    return tuple(f(y) if isinstance(y, (P, C)) else mapval(y, f, fs) if isinstance(y, (Str, Slice)) else y for y in x)

def substval(v, env):
    """substitution into a value; entries asked at indices mentioning the substituted symbols are renamed apart"""
    names = frozenset(env)
    memo = {}
    def f(x): return subst(x, env, memo)
    def mat(v):
        def g(r, c):
            if (r.fv() | c.fv()) & names:
                a, b = fresh('r'), fresh('c')
                return subst(v.get(sym(a), sym(b)), dict(env, **{a: r, b: c}))
            return f(v.get(r, c))
        return Mat(f(v.rows), f(v.cols), g, v.kind, v.tag)
    def go(v):
        if isinstance(v, Mat): return mat(v)
        if isinstance(v, Vec):
            def g(k):
                if k.fv() & names:
                    a = fresh('k')
                    return substval(v.get(sym(a)), dict(env, **{a: k}))
                return go(v.get(k))
            filt = None
            if v.filt: filt = Filt([('one', go(s[1])) if s[0] == 'one' else (s[0], f(s[1]), f(s[2]), f(s[3]), go(s[4])) for s in v.filt.segs])
            return Vec(f(v.size), g, v.et, filt)
        if isinstance(v, (P, C)): return f(v)
        if isinstance(v, Obj): return Obj(v.cls, {k: go(x) for k, x in v.fields.items()}, v.default)
        if isinstance(v, Tup): return Tup([go(x) for x in v.items])
        if isinstance(v, VIte): return vite(f(v.c), go(v.a), go(v.b))
        return mapval(v, f)
    return go(v)

def valkey(v, env=None):
    """structural key of a value (for equality of opaque things)"""
    def f(x): return subst(x, env) if env else x
    if isinstance(v, (P, C)): return f(v).key
    if isinstance(v, Str): return 'S' + ''.join(p if isinstance(p, str) else '{%s}' % (f(p[1]).key if isinstance(p[1], P) else p[1]) for p in v.parts)
    if isinstance(v, Mat):
        if v.isscalar(): return f(v.get(ZERO, ZERO)).key
        return 'M(%s,%s,%s)' % (f(v.rows).key, f(v.cols).key, f(v.get(sym('@r'), sym('@c'))).key)
    if isinstance(v, Vec):
        if v.filt: return 'F' + kof(v.filt.key())
        return 'V(%s,%s)' % (f(v.size).key, valkey(v.get(sym('@k')), env))
    if isinstance(v, Opq): return v.tag + '(' + ','.join(valkey(x, env) if not isinstance(x, (str, int)) else str(x) for x in v.args) + ')'
    return str(v)
