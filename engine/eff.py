"""Comparison of the effects of a function (returned value, stores) with a reference value."""
from model import *
from spec import *
from compare import zero, NVAL
import traceback, itertools
from report import Check

class EVal(Val):
    """valuation for effect comparisons: integer symbols get the given integers"""
    fix = {}
    def a(self, a, env):
        if a.kind in ('top', '$', 'rec'): raise NoVal(a.kind)
        if a in self.fix: return self.fix[a]
        if a.kind == 'let':
            b, ps = LETDEF[a.args[0]]
            return self.e(b, dict(env, **{p: self.e(x, env) for p, x in zip(ps, a.args[1:])}))
        return super().a(a, env)

def thresholds(d):
    """expressions whose sign the value depends on"""
    out = []
    def walk(c):
        if not isinstance(c, C): return
        if c.kind == 'b' and c.args and c.args[0] == 'rlt':
            if c.args[1] not in out: out.append(c.args[1])
        else:
            for x in c.args: walk(x)
    for a in subatoms(d, lambda a: a.kind == 'iv'): walk(a.args[0])
    for a in subatoms(d, lambda a: a.kind == 'fn' and a.args[0] in ('fmin', 'fmax') and len(a.args) == 3):
        p = a.args[1] - a.args[2]
        if p not in out: out.append(p)
    return out
def intsteps(d):
    """valuations on both sides of every comparison of one index with constants: sizes are large enough for them"""
    cs = []
    def walk(c):
        if not isinstance(c, C): return
        if c.kind in ('le', 'eq') and isinstance(c.args[0], P): cs.append((c.kind, c.args[0]))
        else:
            for x in c.args: walk(x)
    for a in subatoms(d, lambda a: a.kind == 'iv'): walk(a.args[0])
    syms = {a for a in subatoms(d, lambda a: a.kind == 'sym')}
    sizes = {a for a in syms if a.args[0] in ('n', 'nE')}
    for kind, p in cs[:12]:
        ss = [a for a in subatoms(p, lambda a: True) if a.kind not in ('div', 'mod')]
        if len(ss) != 1 or ss[0].kind != 'sym' or ss[0] in sizes: continue
        s = ss[0]
        if syms - sizes != {s}: continue
        seen = set()
        for k in range(0, 400):
            v = EVal(0, {}); v.fix = {**{z: 1000.0 for z in sizes}, s: float(k)}
            try: t = v.e(p)
            except (NoVal, Give, KeyError, TypeError, ValueError, OverflowError, ZeroDivisionError): break
            t = t <= 1e-9 if kind == 'le' else abs(t) < 1e-9
            if t not in seen: seen.add(t); yield v
            if len(seen) == 2: break
EXACT = ('C12', 'C13', 'C16', 'C17', 'C18')     # values are stored and passed on exactly: no numerical tolerance to respect
def sidesteps(d):
    """valuations on both sides of every comparison of reals the value depends on: one entry is moved"""
    least = 1e-13 if Check.current is not None and Check.current.pid in EXACT else 1e-6
    ps = []
    for p in thresholds(d)[:8]:
        ab = [(a, k) for m, k in p.d.items() if len(m) == 1 and m[0][1] == 1 for a in (m[0][0],) if a.kind == 'fn' and a.args[0] == 'abs' and isinstance(a.args[1], P)]
        if len(ab) == 1: a, k = ab[0]; r = p - P({((a, 1),): k}); ps += [r + a.args[1] * toP(k), r - a.args[1] * toP(k)]     # on both sides of zero
        else: ps.append(p)
    for p in ps[:12]:
        for a in sorted(subatoms(p, lambda a: a.kind in ('ent', 'sym')), key=kof)[:6]:
            c1 = p.d.get(((a, 1),))
            if not isinstance(c1, (int, Fraction)) or any(x == a and m != ((a, 1),) for m in p.d for x, e in m): continue
            mass = a.kind == 'sym' or str(a.args[0]).split(':')[-1] in ('par_DYN', 'par_REG') and len(a.args) > 1 and isinstance(a.args[1], P) and (isinstance(a.args[1].num(), int) and a.args[1].num() % 10 == 0 or a.args[1].num() is None)
            for s in (0, 1):
                for f in (-0.5, 0.5, -3.0, 3.0):
                    v = EVal(s, {})
                    try: z = -v.e(p - P({((a, 1),): c1})) / float(c1)       # where the comparison changes
                    except (NoVal, Give, KeyError, TypeError, ValueError, StopIteration, OverflowError, ZeroDivisionError, RecursionError): continue
                    x = z + f * (abs(z) or 1)
                    if not (1e-6 if mass else least) <= abs(x) <= 1e6 or mass and x < 0: continue
                    v.fix = {a: x}; yield v
def diffP(a, b, vals):
    """'equal' (identical), 'differs' (confirmed by a valuation) or 'open'"""
    try:
        d = a - b
        if d.iszero(): return 'equal', ''
        d = simp(d, GLOBAL)
        if d.iszero() or zero(d, GLOBAL): return 'equal', ''
    except Give as ex: return 'open', str(ex)
    bad = 0
    for v in vals:
        try:
            x = v.e(d); mag = sum(abs(v.e(P({m: c}))) for m, c in list(d.d.items())[:200])
        except (NoVal, Give, KeyError, TypeError, ValueError, StopIteration, OverflowError, ZeroDivisionError, RecursionError) as ex: return 'open', 'not evaluable: %s: %s' % (ex, show(d, 3))
        if abs(x) > 1e-7 * (1 + mag): bad += 1
    if not bad:
        for v in itertools.chain(sidesteps(d), intsteps(d)):
            try: x = v.e(d); mag = sum(abs(v.e(P({m: c}))) for m, c in list(d.d.items())[:200])
            except (NoVal, Give, KeyError, TypeError, ValueError, StopIteration, OverflowError, ZeroDivisionError, RecursionError): continue
            if abs(x) > 1e-6 * (mag + 1e-9): bad += 1; break
    return ('differs', 'differs by %s' % show(d, 4)) if bad else ('open', 'equal under all valuations')

def asM(v):
    if isinstance(v, Mat): return v
    if isinstance(v, Vec) and not v.filt: return Mat(v.size, 1, lambda r, c: vP(v.get(r)))
    if isinstance(v, P): return scalM(v)
    if isinstance(v, C): return scalM(iv(v))
    return None
def vP(x):
    if isinstance(x, P): return x
    if isinstance(x, C): return iv(x)
    if isinstance(x, Mat) and x.isscalar(): return x.get(ZERO, ZERO)
    if isinstance(x, VIte): return ite(x.c, vP(x.a), vP(x.b))
    raise Give('scalar from %r' % (x,))
def points(d):
    k = d.num()
    if isinstance(k, int): return [toP(i) for i in range(k)]
    return None

def same(got, exp, vals, pts=None):
    """compares two values; status 'equal' / 'differs' / 'open' and text"""
    if isinstance(exp, Str) or isinstance(got, Str):
        if isinstance(exp, Str) and isinstance(got, Str):
            if got == exp: return 'equal', ''
            if got.istop() or exp.istop(): return 'open', 'string not resolved'
            e = streq(got, exp)
            if e.kind == 'T': return 'equal', ''
            return ('differs' if e.kind == 'F' else 'open'), '%r instead of %r' % (got, exp)
        return 'open', '%r' % (got,)
    if isinstance(got, VIte): 
        c = simpC(got.c, GLOBAL)
        if c.kind == 'T': return same(got.a, exp, vals)
        if c.kind == 'F': return same(got.b, exp, vals)
        ra, rb = same(got.a, exp, vals), same(got.b, exp, vals)
        if ra[0] == rb[0] == 'equal': return ra
        return 'open', 'conditional value when %s: %s / %s' % (c.key[:80], ra, rb)
    if isinstance(got, Undef): return 'open', 'no value'
    g, e = asM(got), asM(exp)
    if g is None or e is None: return 'open', 'value is %r' % (got,)
    for what, x, y in (('rows', g.rows, e.rows), ('columns', g.cols, e.cols)):
        s, why = diffP(x, y, vals)
        if s != 'equal': return s, '%s: %s instead of %s' % (what, show(x), show(y))
    rs, cs = points(e.rows), points(e.cols)
    def sy(d):
        s = sym(fresh('i')); with_facts(cleq(ZERO, s), clt(s, d)); return [s]
    if rs is None: rs = sy(e.rows)
    if cs is None: cs = sy(e.cols)
    worst = ('equal', '')
    for r in rs:
        for c in cs:
            try: s, why = diffP(g.get(r, c), e.get(r, c), vals)
            except Give as ex: s, why = 'open', str(ex)
            if s == 'differs': return s, 'entry (%s,%s): %s' % (show(r), show(c), why)
            if s == 'open' and worst[0] == 'equal': worst = (s, 'entry (%s,%s): %s' % (show(r), show(c), why))
    return worst
