"""Discrete Fourier transforms as terms, and the final normal form used when two value graphs are compared."""
from .engine import *
from . import seqs, terms

def dft(s, w):
    """transform of a sequence at the powers of w: position k holds sum_i s[i] w^(i*k)"""
    n = length(s)
    def at(k):
        i = fresh('i'); BOUND[i] = n
        return msum(n, close(i, mul(get(s, i), power(w, mul(i, k)))))
    return tab(n, at)

def fft_handler(log=None):
    """best_fft / serial_fft (a, [worker], omega, log_n, ..): in-place transform; the stated size must match"""
    def h(ex, a, st, t):
        st = dict(st)
        m = ex.target(st, a[0]); v = ex.load(st, m)
        rest = [ex.full(st, x) for x in a[1:]]
        if rest and rest[0].op == 'sym' and 'worker' in show(rest[0]): rest = rest[1:]
        w, lg = rest[0], rest[1]
        if log is not None: log.append((length(v), lg))
        ex.store(st, m, dft(v, w))
        return UNIT, st
    return h
def lde_handler(log=None):
    def h(ex, a, st, t):
        st = dict(st)
        m = ex.target(st, a[0]); v = ex.load(st, m)
        rest = [ex.full(st, x) for x in a[2:]]
        if log is not None: log.append((length(v), rest[1]))
        ex.store(st, m, dft(v, rest[0]))
        return UNIT, st
    return h

# ---------------------------------------------------------------- comparison normal form
def undiv(t):
    """x / y over integers as (x - x mod y) * y^-1"""
    def f(n):
        if n.op == 'div':
            x, y = n.args
            return mul(sub(x, imod(x, y)), inv(y))
        return None
    return transform(t, f)
def unit_powers(t):
    """merge the cases of `b^E == 1` whose values agree once b^E is replaced by 1"""
    def f(n):
        if n.op == 'ite' and n.args[0].op == 'eq0':
            r = case_one(n.args[0].args[0])
            if r is not None:
                b, E = r
                if reduce_one(n.args[1], b, E) is reduce_one(n.args[2], b, E): return n.args[2]
            for a, x in linear_in(n.args[0].args[0]):
                if replace(n.args[2], {a: x}) is n.args[1]: return n.args[2]
        return None
    return transform(t, f)
def linear_in(d):
    """d = 0 solved for each atom that occurs linearly with coefficient 1 or -1"""
    p = poly(d)
    for m, c in p.items():
        if len(m) == 1 and m[0][1] == 1 and abs(c) == 1 and m[0][0].op in ('sym', 'var', 'fld', 'get', 'len', 'app'):
            a = m[0][0]; rest = dict(p); del rest[m]
            x = mkP(rest)
            x = neg(x) if c == 1 else x
            if a not in subterms(x): yield a, x
def case_one(d):
    p = poly(d)
    if len(p) != 2 or abs(p.get((), 0)) != 1: return None
    (m, c), = [(m, c) for m, c in p.items() if m != ()]
    if c != -p[()] or len(m) != 1: return None
    e = m[0][1]
    sm = single_mono(e if isinstance(e, T) else num(e))
    return (m[0][0], sm) if sm is not None and abs(sm[1]) == 1 else None
def reduce_one(t, b, E):
    """drop b^(E*q) from every product"""
    def f(n):
        if n.op != 'P': return None
        out = {}; ch = False
        for m, c in n.args[0]:
            mm = []
            for a, e in m:
                if a is b:
                    q = {x: k for x, k in poly(e if isinstance(e, T) else num(e)).items() if mono_div(x, k, E[0], E[1]) is None}
                    e2 = mkP(q)
                    k = as_num(e2); e2 = k if isinstance(k, int) else e2
                    if e2 is not e: ch = True
                    if e2 == 0 and isinstance(e2, int): continue
                    mm.append((a, e2))
                else: mm.append((a, e))
            mm = tuple(mm); out[mm] = out.get(mm, 0) + c
        return rebuild_P((tuple(out.items()),)) if ch else None
    return transform(t, f)
def norm(t):
    t = seqs.canon(t)
    t = undiv(t)
    return unit_powers(t)
def find_case(t):
    """a condition on which t is split at its top level"""
    if t.op == 'ite': c = t.args[0]
    elif t.op in ('agg', 'lit'):
        for x in terms._walk_children(t.args):
            c = find_case(x)
            if c is not None: return c
        return None
    elif t.op in ('and', 'not', 'eq0', 'lt0', 'is', 'ispow2'): c = t
    else: c = find_ind(t) if t.op == 'P' else None
    while c is not None and c.op in ('not', 'and'):
        c = c.args[0] if c.op == 'not' else min(c.args[0], key=lambda x: (x.op in ('not', 'and'), x.id))
    return c if c is None or c.op != 'ite' else find_case(c)
def with_case(t, c, v):
    if t is c: return TRUE if v else FALSE
    if t.op in BOOLISH or t.op == 'not': return acond(t, {c: TRUE if v else FALSE})
    return assume1(t, c, v)
def same(a, b, depth=0, seen=()):
    """equal normal forms, compared case by case over the conditions either side distinguishes"""
    a, b = norm(a), norm(b)
    if a is b: return True
    if depth > 14: return False
    c = find_case(a) or find_case(b)
    if c is None or c in seen: return False
    if a.op == 'agg' and b.op == 'agg' and a.args[:2] == b.args[:2] and len(a.args[2]) == len(b.args[2]) and depth == 0 and a.args[0] != 'tuple' and False: pass
    for v in (True, False):
        x, y = with_case(a, c, v), with_case(b, c, v)
        if x is y: continue
        if v and c.op == 'eq0':
            for at, e in linear_in(c.args[0]):
                if same(replace(x, {at: e}), replace(y, {at: e}), depth + 1, seen + (c,)): break
            else:
                if not same(x, y, depth + 1, seen + (c,)): return False
            continue
        if not same(x, y, depth + 1, seen + (c,)): return False
    return True
