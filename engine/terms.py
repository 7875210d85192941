"""Hash-consed value terms with normal forms (the value graph).

Ring values (field elements and machine integers) are kept as polynomials: sums of monomials
atom^exponent with rational coefficients and possibly symbolic exponents.  Everything else is an
interned node.  Binders (comprehensions, sums, products, recurrences) are locally nameless: a binder's
variable is bv(level) with level = 1 + height of its body, so alpha-equivalent terms are identical."""
from fractions import Fraction
import sys
sys.setrecursionlimit(100000)

EMPTY = frozenset()
BOUND = {}          # variable -> exclusive upper bound (term), while the variable is open

class Budget(Exception): pass    # also raised for constructs outside the analysis
DEADLINE = [None]
import time as _time
class T:
    __slots__ = ('op', 'args', 'id', 'fs', 'h', 'hc')
    def __repr__(self): return show(self)
    def __hash__(self): return self.id
    def __eq__(self, o): return self is o
    def __lt__(self, o): return self.id < o.id

_tab = {}
_cnt = [0]

def _walk_children(args):
    for a in args:
        if isinstance(a, T): yield a
        elif isinstance(a, tuple):
            yield from _walk_children(a)

def mk(op, *args):
    """intern a raw node (no simplification)"""
    key = (op, args)
    t = _tab.get(key)
    if t is not None: return t
    t = T.__new__(T)
    t.op = op; t.args = args
    _cnt[0] += 1
    t.id = _cnt[0]
    if not _cnt[0] & 1023 and DEADLINE[0] is not None and _time.time() > DEADLINE[0]: raise Budget('time budget of one function exceeded')
    fs = EMPTY; h = 0; hc = op in ('ite', 'ind')
    for c in _walk_children(args):
        if c.fs: fs = fs | c.fs if fs else c.fs
        if c.h > h: h = c.h
        hc = hc or c.hc
    if op == 'var' or op == 'sym': fs = frozenset([t])
    if op == 'lam': h = max(h, args[0])
    t.fs = fs; t.h = h; t.hc = hc
    _tab[key] = t
    return t

def sym(name, *a): return mk('sym', name, *a)
_fresh = [0]
def var(name): return mk('var', name)
def fresh(name='v'):
    _fresh[0] += 1
    return mk('var', '%s#%d' % (name, _fresh[0]))

TRUE = mk('true'); FALSE = mk('false')
UNIT = mk('agg', 'tuple', '', ())

# ---------------------------------------------------------------- ring
def _nc(c):
    if isinstance(c, Fraction) and c.denominator == 1: return int(c)
    return c

def mkP(d):
    items = [(m, c) for m, c in d.items() if c != 0]
    if len(items) == 1:
        m, c = items[0]
        if c == 1 and len(m) == 1 and m[0][1] == 1 and isinstance(m[0][1], int) and m[0][0].op != 'P':
            return m[0][0]
    items.sort(key=lambda mc: _mkey(mc[0]))
    return mk('P', tuple((m, _nc(c)) for m, c in items))

def _mkey(m):
    return (len(m), tuple((a.id, (0, e) if isinstance(e, int) else (1, e.id)) for a, e in m))

def num(c): return mk('P', (((), c),)) if c != 0 else mk('P', ())
ZERO = num(0); ONE = num(1); TWO = num(2)

def as_num(t):
    if t.op == 'P':
        if not t.args[0]: return 0
        if len(t.args[0]) == 1 and t.args[0][0][0] == (): return t.args[0][0][1]
    return None

def is_ring(t): return t.op == 'P'

def poly(t):
    if t.op == 'P': return dict(t.args[0])
    if t.op == 'ite' :
        c, a, b = t.args
        return poly(ring_ite(c, a, b))
    if t is TRUE: return {(): 1}
    if t is FALSE: return {}
    return {((t, 1),): 1}

def ring_ite(c, a, b):
    if c is TRUE: return a
    if c is FALSE: return b
    if a is b: return a
    if c.op == 'not': return ring_ite(c.args[0], b, a)
    i = mk('ind', c)
    return add(b, mul(i, sub(assume1(a, c, True), assume1(b, c, False)))) if False else \
        add(mul(i, assume1(a, c, True)), mul(sub(ONE, i), assume1(b, c, False)))

def mkind(c):
    """integer 0/1 of a boolean"""
    if c is TRUE: return ONE
    if c is FALSE: return ZERO
    if c.op == 'not': return sub(ONE, mkind(c.args[0]))
    if c.op == 'and':
        r = ONE
        for x in c.args[0]: r = mul(r, mkind(x))
        return r
    if c.op == 'or':
        r = ONE
        for x in c.args[0]: r = mul(r, sub(ONE, mkind(x)))
        return sub(ONE, r)
    return mk('ind', c)

def add(a, b):
    if a is ZERO: return b if b.op != 'ite' else mkP(poly(b))
    if b is ZERO: return a if a.op != 'ite' else mkP(poly(a))
    d = poly(a)
    for m, c in poly(b).items():
        n = d.get(m, 0) + c
        if n == 0: d.pop(m, None)
        else: d[m] = n
    return mkP(d)

def neg(a): return mkP({m: -c for m, c in poly(a).items()})
def sub(a, b):
    if a is b: return ZERO
    return add(a, neg(b))

def eadd(x, y):
    """exponent addition; exponents are python ints or terms"""
    if isinstance(x, int) and isinstance(y, int): return x + y
    r = add(x if isinstance(x, T) else num(x), y if isinstance(y, T) else num(y))
    n = as_num(r)
    return n if n is not None and isinstance(n, int) else r

def emul(x, y):
    if isinstance(x, int) and isinstance(y, int): return x * y
    r = mul(x if isinstance(x, T) else num(x), y if isinstance(y, T) else num(y))
    n = as_num(r)
    return n if n is not None and isinstance(n, int) else r

def _mono(factors):
    """normalise a list of (atom,exp) into (coeff, monomial or list of extra polys)"""
    d = {}
    for a, e in factors:
        if a in d: d[a] = eadd(d[a], e)
        else: d[a] = e
    coeff = 1
    out = []
    extra = []
    for a, e in d.items():
        if isinstance(e, int) and e == 0: continue
        if a.op == 'ind':
            out.append((a, 1)); continue
        n = as_num(a) if a.op == 'P' else None
        if n is not None:
            if isinstance(e, int):
                coeff = coeff * (Fraction(n) ** e); continue
            # split constant part of the exponent
            pd = poly(e); k = pd.pop((), 0)
            if isinstance(k, int) and k != 0:
                coeff = coeff * (Fraction(n) ** k); e = mkP(pd)
            if n == 1: continue
            out.append((a, e)); continue
        if a.op == 'P' and isinstance(e, int) and 0 < e <= 8:
            extra.append((a, e)); continue
        out.append((a, e))
    # products of case indicators that exclude each other
    out.sort(key=lambda ae: (ae[0].id, (0, ae[1]) if isinstance(ae[1], int) else (1, ae[1].id)))
    return _nc(coeff) if not isinstance(coeff, int) else coeff, tuple(out), extra

def mul(a, b):
    if a is ZERO or b is ZERO: return ZERO
    if a is ONE: return b if b.op != 'ite' else mkP(poly(b))
    if b is ONE: return a if a.op != 'ite' else mkP(poly(a))
    pa, pb = poly(a), poly(b)
    r = {}
    more = None
    for m1, c1 in pa.items():
        for m2, c2 in pb.items():
            k, m, ex = _mono(list(m1) + list(m2))
            c = c1 * c2 * k
            if ex:
                t = mkP({m: c})
                for x, e in ex:
                    for _ in range(e): t = mul(t, x)
                more = t if more is None else add(more, t)
                continue
            n = r.get(m, 0) + c
            if n == 0: r.pop(m, None)
            else: r[m] = n
    res = mkP(r)
    if more is not None: res = add(res, more)
    return res

def find_ind(t, depth=0):
    """a condition on which t (a ring term or node) is case-split at its own level, or None"""
    if not t.hc: return None
    if t.op == 'ind': return t.args[0]
    if t.op == 'ite': return t.args[0]
    if t.op == 'P':
        for m, c in t.args[0]:
            for a, e in m:
                if a.op == 'ind': return a.args[0]
        for m, c in t.args[0]:
            for a, e in m:
                if a.op == 'P' and a.hc:
                    r = find_ind(a)
                    if r is not None: return r
                if isinstance(e, T) and e.hc:
                    r = find_ind(e)
                    if r is not None: return r
    return None

def split_on(t, f):
    """apply f to t case by case over its indicator conditions"""
    c = find_ind(t)
    if c is None: return None
    return mkite(c, f(assume1(t, c, True)), f(assume1(t, c, False)))

def power(b, e):
    """b^e, e int or term"""
    if isinstance(e, T):
        n = as_num(e)
        if n is not None and isinstance(n, int): e = n
    if isinstance(e, T) and e.hc:
        r = split_on(e, lambda x: power(b, x))
        if r is not None: return r
    if isinstance(e, int):
        if e == 0: return ONE
        if e == 1: return b if b.op != 'ite' else mkP(poly(b))
    if b.op == 'ite' or (b.hc and not (isinstance(e, int) and 0 < e <= 8)):
        r = split_on(b, lambda x: power(x, e))
        if r is not None: return r
    if isinstance(e, T) and as_num(b) == 2:
        # 2^(q*log2(x) + r) = x^q * 2^r for a power of two x
        out = ONE; rest = {}
        for m, c in poly(e).items():
            l = [a for a, x in m if a.op == 'log2' and x == 1 and (a.args[0] in POW2 or a.args[0].op == 'npow2')]
            if len(l) == 1 and isinstance(c, int) and len(m) == 1:
                out = mul(out, mkP({((l[0].args[0], c),): 1}))
            else: rest[m] = c
        if out is not ONE: return mul(out, power(b, mkP(rest)))
    p = poly(b)
    if len(p) == 0: return ZERO if not (isinstance(e, int) and e < 0) else mk('div0')
    if len(p) == 1:
        (m, c), = p.items()
        fac = [(a, emul(x, e)) for a, x in m]
        if c != 1:
            if isinstance(e, int):
                k, mm, ex = _mono(fac)
                t = mkP({mm: _nc(Fraction(c) ** e) * k})
                for x, ee in ex:
                    for _ in range(ee): t = mul(t, x)
                return t
            fac.append((num(c), e))
        k, mm, ex = _mono(fac)
        t = mkP({mm: k})
        for x, ee in ex:
            for _ in range(ee): t = mul(t, x)
        return t
    if isinstance(e, int) and 0 < e <= 8:
        r = b
        for _ in range(e - 1): r = mul(r, b)
        return r
    # content: common monomial factors and leading coefficient
    b2, coeff, common = content(b)
    t = mkP({((b2, e),): 1}) if b2 is not ONE else ONE
    if coeff != 1: t = mul(t, power(num(coeff), e))
    for a, x in common: t = mul(t, mkP({((a, emul(x, e)),): 1}))
    return t

def content(b):
    """b = coeff * prod(common) * b2 with b2 having leading coefficient 1"""
    items = list(b.args[0])
    commons = None
    for m, c in items:
        dd = {a: e for a, e in m if isinstance(e, int) and a.op != 'ind'}
        if commons is None: commons = dd
        else: commons = {a: (min(e, dd[a])) for a, e in commons.items() if a in dd}
    commons = {a: e for a, e in (commons or {}).items() if e != 0}
    if commons:
        inv = mkP({tuple(sorted(((a, -e) for a, e in commons.items()), key=lambda ae: ae[0].id)): 1})
        b = mul(b, inv)
        if b.op != 'P': return b, 1, tuple(commons.items())
        items = list(b.args[0])
    lead = items[-1][1]
    if lead != 1:
        b = mul(b, num(Fraction(1) / Fraction(lead)))
    return b, lead, tuple(commons.items())

def inv(a): return power(a, -1)

# ---------------------------------------------------------------- integers
NONNEG_OPS = {'len', 'div', 'mod', 'npow2', 'log2', 'ind', 'monus', 'min', 'max', 'ceildiv', 'cnt', 'xor', 'usize'}
def nonneg_atom(a):
    if a.op in NONNEG_OPS: return True
    if a.op == 'var' or a.op == 'sym' or a.op == 'bv' or a.op == 'fld' or a.op == 'get': return True  # integers are unsigned here
    n = as_num(a)
    return n is not None and n >= 0

def single_mono(t):
    p = poly(t)
    if len(p) == 1:
        (m, c), = p.items()
        return m, c
    return None

def mono_div(m1, c1, m2, c2):
    """exact monomial quotient or None (integer exponents, or equal-atom symbolic exponents)"""
    d = dict(m1)
    for a, e in m2:
        if a not in d: return None
        ne = eadd(d[a], emul(-1, e))
        if isinstance(ne, int):
            if ne < 0: return None
            if ne == 0: del d[a]
            else: d[a] = ne
        else: return None
    c = Fraction(c1, 1) / Fraction(c2, 1)
    if c.denominator != 1: return None
    return tuple(sorted(d.items(), key=lambda ae: ae[0].id)), int(c)

def is_pow2_term(t):
    """syntactically a power of two: product of pow2 atoms and constants"""
    sm = single_mono(t)
    if sm is None: return False
    m, c = sm
    c = Fraction(c)
    def p2(n): return n > 0 and (n & (n - 1)) == 0
    if not (p2(c.numerator) and p2(c.denominator)): return False
    for a, e in m:
        n = as_num(a) if a.op == 'P' else None
        if n is not None:
            if not (isinstance(n, int) and p2(n)): return False
            continue
        if a.op == 'npow2' or a in POW2: continue
        if a.op == 'ind': return False
        return False
    return True

POW2 = set()   # atoms declared to be powers of two by the running check

def idiv(a, b):
    n, k = as_num(a), as_num(b)
    if k == 1: return a
    if n == 0: return ZERO
    if isinstance(n, int) and isinstance(k, int) and k > 0: return num(n // k)
    for x in (a, b):
        if x.hc:
            r = split_on(x, (lambda y: idiv(y, b)) if x is a else (lambda y: idiv(a, y)))
            if r is not None: return r
    sb = single_mono(b)
    if a.op == 'div':                       # (x/y)/b = x/(y*b)
        return idiv(a.args[0], mul(a.args[1], b))
    if sb is not None:
        if is_pow2_term(a) and is_pow2_term(b):
            return mul(a, inv(b))           # exact as long as the quotient is at least 1
        pa = poly(a)
        q = {}; rem = {}
        for m, c in pa.items():
            r = mono_div(m, c, sb[0], sb[1]) if Fraction(c).denominator == 1 else None
            if r is None:
                if is_pow2_term(b) and is_pow2_term(mkP({m: abs(c)})) and not rem and len(pa) == 1:
                    q = poly(mul(mkP({m: c}), inv(b))); break
                rem[m] = c
            else: q[r[0]] = q.get(r[0], 0) + r[1]
        if not rem: return mkP(q)
        if q and nonneg_poly(mkP(rem)):
            return add(mkP(q), idiv(mkP(rem), b))
        if lt_surely(mkP(rem), b): return mkP(q)
        if LEQ[0] is not None and LEQ[0](ZERO, mkP(rem)) and LEQ[0](add(mkP(rem), ONE), b): return mkP(q)
    return mk('div', a, b)

def nonneg_poly(t):
    return all(c > 0 and all(nonneg_atom(a) for a, e in m) for m, c in poly(t).items())

def lt_surely(a, b):
    """0 <= a < b by shape: a = mod(_, b) or constants"""
    if a.op == 'mod' and a.args[1] is b: return True
    n, k = as_num(a), as_num(b)
    if n is not None and k is not None: return 0 <= n < k
    return False

def fractional(m, c):
    """a monomial with a factor that is divided by something: no integer on its own"""
    if Fraction(c).denominator != 1:
        if not any(b is TWO for b, _ in m): return True
    for _, e in m:
        if isinstance(e, T):
            if all(k < 0 for k in poly(e).values()): return True
        elif e < 0: return True
    return False
def imod(a, b):
    n, k = as_num(a), as_num(b)
    if k == 1: return ZERO
    if isinstance(n, int) and isinstance(k, int) and k > 0: return num(n % k)
    if a is b: return ZERO
    for x in (a, b):
        if x.hc:
            r = split_on(x, (lambda y: imod(y, b)) if x is a else (lambda y: imod(a, y)))
            if r is not None: return r
    sb = single_mono(b)
    if sb is not None and any(fractional(m, c) for m, c in poly(a).items()): pass      # parts that are no integers cannot be reduced one by one
    elif sb is not None:
        rem = {}
        for m, c in poly(a).items():
            if mono_div(m, c, sb[0], sb[1]) is not None: continue
            if len(m) == 1 and m[0][0].op == 'mod' and m[0][1] == 1:
                # mod(mod(x, b*k), b) = mod(x, b)
                y = m[0][0].args[1]; sy = single_mono(y)
                if sy is not None and (y is b or mono_div(sy[0], sy[1], sb[0], sb[1]) is not None):
                    for m2, c2 in poly(mul(num(c), m[0][0].args[0])).items(): rem[m2] = rem.get(m2, 0) + c2
                    continue
                if sy is not None and is_pow2_term(y) and is_pow2_term(b):
                    q = mul(y, inv(b))
                    # divisible when the quotient is a constant >= 1
                    qq = as_num(q)
                    if qq is not None and qq >= 1 and Fraction(qq).denominator == 1:
                        for m2, c2 in poly(mul(num(c), m[0][0].args[0])).items(): rem[m2] = rem.get(m2, 0) + c2
                        continue
            rem[m] = rem.get(m, 0) + c
        r = mkP(rem)
        if r is not a: return imod(r, b) if r is not ZERO else ZERO
        if isinstance(k, int) and k > 1:
            rem2 = {m: c % k if isinstance(c, int) else c for m, c in poly(a).items()}
            r = mkP(rem2)
            if r is not a: return imod(r, b)
    if a.op == 'mod' and a.args[1] is b: return a
    if LEQ[0] is not None and a.op == 'P' and LEQ[0](ZERO, a) and LEQ[0](add(a, ONE), b): return a
    if as_num(a) == 0: return ZERO
    return mk('mod', a, b)

def npow2(a):
    n = as_num(a)
    if isinstance(n, int):
        r = 1
        while r < n: r *= 2
        return num(r)
    if is_pow2_term(a): return a
    # next_power_of_two(p * x) = p * next_power_of_two(x) for a power-of-two factor p
    sm = single_mono(a)
    if sm is not None:
        m, c = sm
        keep = []; out = ONE
        for at, e in m:
            if is_pow2_term(mkP({((at, e),): 1})): out = mul(out, mkP({((at, e),): 1}))
            else: keep.append((at, e))
        if isinstance(c, int) and c > 0:
            while c % 2 == 0: c //= 2; out = mul(out, TWO)
        if out is not ONE: return mul(out, npow2(mkP({tuple(keep): c})))
    return mk('npow2', a)

def log2(a):
    n = as_num(a)
    if isinstance(n, int) and n > 0: return num(n.bit_length() - 1)
    if is_pow2_term(a):
        m, c = single_mono(a)
        c = Fraction(c)
        r = num(c.numerator.bit_length() - c.denominator.bit_length())
        for at, e in m:
            ee = e if isinstance(e, T) else num(e)
            k = as_num(at) if at.op == 'P' else None
            r = add(r, mul(ee, num(k.bit_length() - 1) if k is not None else mk('log2', at)))
        return r
    return mk('log2', a)

def ceildiv(a, b):
    if as_num(b) == 1: return a
    n, k = as_num(a), as_num(b)
    if isinstance(n, int) and isinstance(k, int) and k > 0: return num(-(-n // k))
    sb = single_mono(b)
    if sb is not None:
        q = {}
        for m, c in poly(a).items():
            r = mono_div(m, c, sb[0], sb[1]) if Fraction(c).denominator == 1 else None
            if r is None:
                q = None; break
            q[r[0]] = q.get(r[0], 0) + r[1]
        if q is not None: return mkP(q)
        if is_pow2_term(a) and is_pow2_term(b): return mul(a, inv(b))
        g = common_factor(a, b)
        if g is not None: return ceildiv(mul(a, inv(g)), mul(b, inv(g)))
    return mk('ceildiv', a, b)

def common_factor(a, b):
    """a common integer factor >1 of all coefficients"""
    g = factor_of((a, b))
    return num(g) if g > 1 else None
def factor_of(ts):
    """the largest integer dividing every monomial of every term; powers of two such as 2^-k*h count as divisible
    as far as their exponent is provably large enough"""
    g = 0; flex = []
    for t in ts:
        for m, c in poly(t).items():
            x = mkP({m: abs(c)})
            if m and any(isinstance(e, T) for a, e in m) and is_pow2_term(x): flex.append(x); continue
            if not isinstance(c, int): return 1
            g = _gcd(g, abs(c))
    if g == 0: return 1
    for x in flex:
        while g > 1 and not (g % 2 == 0 and LEQ[0] is not None and LEQ[0](log2(num(g & -g)), log2(x))): g //= 2
        if g > 1 and g & (g - 1): return 1
    return g

def monus(a, b):
    d = sub(a, b)
    if b is ZERO: return a
    p = poly(d)
    if all(c >= 0 for c in p.values()): return d
    n = as_num(d)
    if n is not None: return num(max(0, n))
    if LEQ[0] is not None and LEQ[0](b, a): return d
    return mk('monus', a, b)

LEQ = [None]
def covers(x, y):
    """x = c * ceildiv(y, c)"""
    sm = single_mono(x)
    if sm is None: return False
    return any(a.op == 'ceildiv' and e == 1 and x is mul(a, a.args[1]) and a.args[0] is y for a, e in sm[0])

from math import gcd as _gcd
def mkmin(xs):
    s = set()
    for x in xs:
        if x.op == 'min': s |= set(x.args[0])
        else: s.add(x)
    nums = [as_num(x) for x in s if as_num(x) is not None]
    if len(nums) > 1:
        s = {x for x in s if as_num(x) is None} | {num(min(nums))}
    # drop x when x - y is surely >= 0 for another y
    l = sorted(s, key=lambda t: t.id)
    keep = []
    for x in l:
        if any(y is not x and (nonneg_poly(sub(x, y)) or covers(x, y) or (LEQ[0] is not None and LEQ[0](y, x) and not (y.id > x.id and LEQ[0](x, y)))) for y in l): continue
        keep.append(x)
    if len(keep) > 2 and LEQ[0] is not None:
        for x in keep:
            o = [y for y in keep if y is not x]
            if LEQ[0](mk('min', tuple(o)), x): return mkmin(o)
    if len(keep) == 1: return keep[0]
    g = factor_of(keep)
    if g > 1: return mul(num(g), mkmin([mul(x, inv(num(g))) for x in keep]))
    return mk('min', tuple(keep))

# ---------------------------------------------------------------- booleans
def NOT(a):
    if a is TRUE: return FALSE
    if a is FALSE: return TRUE
    if a.op == 'not': return a.args[0]
    if a.op == 'ite': return mkite(a.args[0], NOT(a.args[1]), NOT(a.args[2]))
    return mk('not', a)

def AND(*xs):
    s = []
    for x in xs:
        if x is TRUE: continue
        if x is FALSE: return FALSE
        for y in (x.args[0] if x.op == 'and' else (x,)):
            if y not in s: s.append(y)
    for y in s:
        if NOT(y) in s: return FALSE
    # unit propagation into negated conjunctions
    for y in s:
        if y.op == 'not' and y.args[0].op == 'and':
            S = y.args[0].args[0]
            drop = False; rest = []
            for z in S:
                if z in s: continue
                if NOT(z) in s: drop = True; break
                rest.append(z)
            if drop or len(rest) != len(S):
                s2 = [x for x in s if x is not y]
                if not drop: s2.append(NOT(AND(*rest)))
                return AND(*s2)
    # (a|b) & (a|!b) = a
    negs = [y for y in s if y.op == 'not' and y.args[0].op == 'and']
    for i, y in enumerate(negs):
        A = set(y.args[0].args[0])
        for z in negs[i + 1:]:
            B = set(z.args[0].args[0])
            if A <= B: return AND(*[x for x in s if x is not z])
            if B <= A: return AND(*[x for x in s if x is not y])
            d1, d2 = A - B, B - A
            if len(d1) == 1 and len(d2) == 1 and NOT(next(iter(d1))) is next(iter(d2)):
                return AND(*([x for x in s if x is not y and x is not z] + [NOT(AND(*sorted(A & B)))]))
            for P, Q, D, w in ((A, B, d1, z), (B, A, d2, y)):
                if len(D) == 1 and NOT(next(iter(D))) in Q:
                    Q2 = Q - {NOT(next(iter(D)))}
                    return AND(*([x for x in s if x is not w] + [NOT(AND(*sorted(Q2)))]))
    # !any(n, P) & !any(n, Q) = !any(n, P|Q) where P|Q is one condition
    anys = [y for y in s if y.op == 'not' and y.args[0].op == 'any']
    for i, y in enumerate(anys):
        for z in anys[i + 1:]:
            if y.args[0].args[0] is not z.args[0].args[0]: continue
            v = fresh('i'); BOUND[v] = y.args[0].args[0]
            p, q = NOT(apply(y.args[0].args[1], v)), NOT(apply(z.args[0].args[1], v))
            if p.op == 'and' or q.op == 'and': continue
            R = AND(p, q)
            if R.op == 'and' and p in R.args[0] and q in R.args[0]: continue
            return AND(*([x for x in s if x is not y and x is not z] + [NOT(BUILD['any'](y.args[0].args[0], close(v, NOT(R))))]))
    if not s: return TRUE
    if len(s) == 1: return s[0]
    return mk('and', tuple(sorted(s, key=lambda t: t.id)))

def OR(*xs): return NOT(AND(*[NOT(x) for x in xs]))

def lt0(d):
    """d < 0 over integers"""
    n = as_num(d)
    if n is not None: return TRUE if n < 0 else FALSE
    if d.hc:
        r = split_on(d, lt0)
        if r is not None: return r
    p = poly(d)
    if nonneg_poly(d): return FALSE
    nz = [(m, c) for m, c in p.items() if m != ()]
    if not nz: return FALSE
    k = p.get((), 0)
    # x - 1 < 0 for a non-negative atom: x = 0
    if len(nz) == 1 and k == -1 and nz[0][1] == 1 and len(nz[0][0]) == 1 and nz[0][0][0][1] == 1 and nonneg_atom(nz[0][0][0][0]):
        return mk('eq0', nz[0][0][0][0])
    if len(nz) == 1 and k == 0 and nz[0][1] == -1 and len(nz[0][0]) == 1 and nz[0][0][0][1] == 1 and nonneg_atom(nz[0][0][0][0]):
        return NOT(mk('eq0', nz[0][0][0][0]))
    lead = max(nz, key=lambda mc: _mkey(mc[0]))[1]
    if lead < 0: return NOT(mk('lt0', sub(neg(d), ONE)))
    return mk('lt0', d)

def lt(a, b): return lt0(sub(a, b))
def le(a, b): return lt0(sub(sub(a, b), ONE))

def eq(a, b):
    if a is b: return TRUE
    if a.op == 'ite': return mkite(a.args[0], eq(a.args[1], b), eq(a.args[2], b))
    if b.op == 'ite': return mkite(b.args[0], eq(a, b.args[1]), eq(a, b.args[2]))
    if a in (TRUE, FALSE): a, b = b, a
    if b is TRUE: return a
    if b is FALSE: return NOT(a)
    if a.op == 'agg' and b.op == 'agg':
        if a.args[0] == b.args[0] and a.args[1] != b.args[1]: return FALSE
        if a.args[0] == b.args[0] and len(a.args[2]) == len(b.args[2]):
            return AND(*[eq(x[1], y[1]) for x, y in zip(a.args[2], b.args[2])])
    if a.op == 'agg' and a.args[1] and b.op != 'agg' and a.args[0] != 'tuple':
        a, b = b, a
    if b.op == 'agg' and b.args[1] and a.op != 'agg' and b.args[0] in ENUMS and not b.args[2]:
        return isvar(a, b.args[0], b.args[1])
    if a.op == 'lit' and b.op == 'lit':
        if len(a.args[0]) != len(b.args[0]): return FALSE
        return AND(*[eq(x, y) for x, y in zip(a.args[0], b.args[0])])
    d = sub(a, b)
    return eq0(d)

def eq0(d):
    n = as_num(d)
    if n is not None: return TRUE if n == 0 else FALSE
    if d.hc:
        r = split_on(d, eq0)
        if r is not None: return r
    if d.op == 'P':
        p = poly(d)
        items = list(d.args[0])
        lead = items[-1][1]
        if lead < 0: d = neg(d)
        # strictly positive integer polynomial is never zero
        p = poly(d)
    return mk('eq0', d)

ENUMS = {'core::option::Option': ['None', 'Some'], 'core::result::Result': ['Ok', 'Err'],
         'core::ops::control_flow::ControlFlow': ['Continue', 'Break'], 'core::cmp::Ordering': ['Less', 'Equal', 'Greater']}

def isvar(x, adt, v):
    """boolean: enum value x is variant v"""
    if x.op == 'agg': return TRUE if x.args[1] == v else FALSE
    if x.op == 'ite': return mkite(x.args[0], isvar(x.args[1], adt, v), isvar(x.args[2], adt, v))
    vs = ENUMS.get(adt)
    if vs and len(vs) == 1: return TRUE
    if vs and len(vs) == 2 and v == vs[0] and adt != 'core::option::Option':
        pass
    if vs and len(vs) == 2 and v == vs[1] and adt != 'core::option::Option':
        return NOT(mk('is', x, vs[0]))
    if adt == 'core::option::Option' and v == 'None': return NOT(mk('is', x, 'Some'))
    return mk('is', x, v)

def mkite(c, a, b):
    if c is TRUE: return a
    if c is FALSE: return b
    if a is b: return a
    if c.op == 'not': return mkite(c.args[0], b, a)
    if c.op == 'ite':   # ite(ite(c,x,y),a,b)
        c = boolify(c)
        if c.op == 'ite': pass
        else: return mkite(c, a, b)
    if a.op == 'mref' and b.op == 'mref' and a is b: return a
    a2, b2 = assume1(a, c, True), assume1(b, c, False)
    if a2 is not a or b2 is not b: return mkite(c, a2, b2)
    if a is TRUE and b is FALSE: return c
    if a is FALSE and b is TRUE: return NOT(c)
    if a is TRUE: return OR(c, b)
    if a is FALSE: return AND(NOT(c), b)
    if b is TRUE: return OR(NOT(c), a)
    if b is FALSE: return AND(c, a)
    if a.op == 'P' or b.op == 'P':
        return ring_ite(c, a, b)
    if a.op == 'agg' and b.op == 'agg' and a.args[:2] == b.args[:2] and [n for n, _ in a.args[2]] == [n for n, _ in b.args[2]]:
        return agg(a.args[0], a.args[1], [(n, mkite(c, x, y)) for (n, x), (_, y) in zip(a.args[2], b.args[2])])
    if b.op == 'ite' and b.args[1] is a:      # ite(c,a,ite(d,a,e)) = ite(c|d, a, e)
        return mkite(OR(c, b.args[0]), a, b.args[2])
    if a.op == 'ite' and a.args[2] is b:      # ite(c,ite(d,x,b),b) = ite(c&d,x,b)
        return mkite(AND(c, a.args[0]), a.args[1], b)
    if a.op == 'ite' and a.args[1] is b:
        return mkite(AND(c, NOT(a.args[0])), a.args[2], b)
    if b.op == 'ite' and b.args[2] is a:
        return mkite(OR(c, NOT(b.args[0])), a, b.args[1])
    if a.op == 'upd' and b.op == 'upd' and a.args[:2] == b.args[:2]: return UPD[0](a.args[0], a.args[1], mkite(c, a.args[2], b.args[2]))
    if a.op == 'upd' and a.args[0] is b: return UPD[0](b, a.args[1], mkite(c, a.args[2], UPD[1](b, a.args[1])))
    if b.op == 'upd' and b.args[0] is a: return UPD[0](a, b.args[1], mkite(c, UPD[1](a, b.args[1]), b.args[2]))
    return mk('ite', c, a, b)
UPD = [None, None]

BOOLOPS = ('true', 'false', 'not', 'and', 'or', 'eq0', 'lt0', 'is', 'any', 'ispow2', 'all')
def boolify(c): return c

# ---------------------------------------------------------------- aggregates
def agg(ty, variant, fields):
    return mk('agg', ty, variant, tuple((n, v) for n, v in fields))
def tup(*xs): return agg('tuple', '', [(str(i), x) for i, x in enumerate(xs)])
OPT = 'core::option::Option'; RES = 'core::result::Result'
def some(x): return agg(OPT, 'Some', [('0', x)])
NONE = agg(OPT, 'None', [])
def ok(x): return agg(RES, 'Ok', [('0', x)])
def err(x): return agg(RES, 'Err', [('0', x)])

def fld(v, name, variant=None):
    if v.op == 'agg':
        for n, x in v.args[2]:
            if n == name and (variant is None or v.args[1] == variant or not v.args[1]): return x
        if variant is not None and v.args[1] and v.args[1] != variant: return mk('undef')
        return mk('fld', v, name if variant is None else variant + '.' + name)
    if v.op == 'ite':
        a, b = fld(v.args[1], name, variant), fld(v.args[2], name, variant)
        if a.op == 'undef': return b
        if b.op == 'undef': return a
        return mkite(v.args[0], a, b)
    if v.op == 'undef': return v
    if v.op == 'setf':
        if v.args[1] == (name if variant is None else variant + '.' + name): return v.args[2]
        return fld(v.args[0], name, variant)
    return mk('fld', v, name if variant is None else variant + '.' + name)

def setf(v, name, x, variant=None):
    key = name if variant is None else variant + '.' + name
    if v.op == 'agg':
        if variant is not None and v.args[1] and v.args[1] != variant: return v
        if any(n == name for n, _ in v.args[2]):
            return agg(v.args[0], v.args[1], [(n, x if n == name else y) for n, y in v.args[2]])
    if v.op == 'ite': return mkite(v.args[0], setf(v.args[1], name, x, variant), setf(v.args[2], name, x, variant))
    if x.op == 'fld' and x.args == (v, key): return v
    if v.op == 'setf':
        if v.args[1] == key: return setf_raw(v.args[0], key, x)
        if v.args[1] > key: return setf_raw(setf(v.args[0], name, x, variant), v.args[1], v.args[2])
    return setf_raw(v, key, x)
def setf_raw(v, key, x):
    if x.op == 'fld' and x.args[0] is v and x.args[1] == key: return v
    return mk('setf', v, key, x)

# ---------------------------------------------------------------- binders
def bv(l): return mk('bv', l)
def close(v, body):
    """lambda binding the variable v in body"""
    l = body.h + 1
    return mk('lam', l, subst(body, {v: bv(l)}))
def apply(lam, x):
    l, body = lam.args
    return subst(body, {bv(l): x})
_ov = {}
def ov(j, bound=None):
    """the j-th opening variable for a binder with that exclusive upper bound (None: unbounded)"""
    k = (j, bound.id if bound is not None else -1)
    v = _ov.get(k)
    if v is None: v = _ov[k] = mk('var', '$o%d' % j if bound is None else '$o%d_%d' % (j, bound.id))
    if bound is not None: BOUND[v] = bound
    return v
def open_lam(lam, avoid=(), bound=None):
    used = set(lam.fs)
    for a in avoid: used |= a.fs
    j = 0
    while ov(j, bound) in used: j += 1
    v = ov(j, bound)
    return v, apply(lam, v)
BOUNDED = {'tab', 'sum', 'prod', 'any', 'maxof', 'flat', 'filt', 'last', 'lmap'}     # op(n, binder...): the bound variable is < n
def binder_bound(op, args):
    if op in BOUNDED and isinstance(args[0], T): return args[0]
    if op == 'rec': return args[1]
    if op == 'rstore': return add(args[1], args[2])
    return None

def _has_bv(t, keyset):
    return True

def subst(t, m, memo=None):
    """capture-avoiding simultaneous substitution; keys are var/sym/bv terms"""
    if memo is None: memo = {}
    keys = frozenset(m)
    bvkeys = any(k.op == 'bv' for k in m)
    avoid = list(m.values())
    minbv = min([k.args[0] for k in m if k.op == 'bv'] or [0])
    return _subst(t, m, keys, bvkeys, minbv, avoid, memo)

def _subst(t, m, keys, bvk, minbv, avoid, memo):
    r = m.get(t)
    if r is not None: return r
    if not bvk:
        if not (t.fs and not keys.isdisjoint(t.fs)): return t
    r = memo.get(t)
    if r is not None: return r
    if t.op == 'bv' or t.op == 'sym' or t.op == 'var': return t
    if t.op == 'lam': return _subst_lam(t, m, keys, bvk, minbv, avoid, memo, None)
    if bvk and not _contains(t, keys):
        memo[t] = t
        return t
    f = lambda c: _subst(c, m, keys, bvk, minbv, avoid, memo)
    if t.op in BOUNDED or t.op == 'rec' or t.op == 'rstore':
        na = tuple(a if isinstance(a, T) and a.op == 'lam' else (f(a) if isinstance(a, T) else _map_args(a, f) if isinstance(a, tuple) else a) for a in t.args)
        bd = binder_bound(t.op, na)
        na = tuple(_subst_lam(a, m, keys, bvk, minbv, avoid, memo, bd) if isinstance(a, T) and a.op == 'lam' else a for a in na)
    else: na = _map_args(t.args, f)
    r = t if na == t.args else rebuild(t.op, na)
    memo[t] = r
    return r

def _subst_lam(t, m, keys, bvk, minbv, avoid, memo, bd):
    if not bvk:
        if not (t.fs and not keys.isdisjoint(t.fs)): return t
    elif not _contains(t, keys): return t
    if bd is not None and bvs(bd): bd = None
    mk_ = t if bd is None else (t, bd)
    r = memo.get(mk_)
    if r is not None: return r
    # bv keys always have a larger level than any binder inside the body they occur in
    used = set(t.fs)
    for a in avoid: used |= a.fs
    if bd is not None: used |= bd.fs
    j = 0
    while ov(j, bd) in used: j += 1
    v = ov(j, bd)
    l, body = t.args
    b1 = subst(body, {bv(l): v})
    b2 = _subst(b1, m, keys, bvk, minbv, avoid + [v], {})
    r = close(v, b2)
    memo[mk_] = r
    return r

_bvc = {}
def bvs(t):
    """levels of loose bound variables in t (those not bound inside)"""
    r = _bvc.get(t.id)
    if r is not None: return r
    if t.op == 'bv': r = frozenset([t])
    else:
        s = set()
        for c in _walk_children(t.args): s |= bvs(c)
        if t.op == 'lam': s.discard(bv(t.args[0]))
        r = frozenset(s) if s else EMPTY
    _bvc[t.id] = r
    return r
def _contains(t, keys):
    return not keys.isdisjoint(bvs(t)) or (bool(t.fs) and not keys.isdisjoint(t.fs))

def _map_args(args, f):
    out = []
    ch = False
    for a in args:
        if isinstance(a, T): n = f(a)
        elif isinstance(a, tuple): n = _map_args(a, f)
        else: n = a
        if n is not a: ch = True
        out.append(n)
    return tuple(out) if ch else args

def rebuild_P(args):
    r = ZERO
    for m, c in args[0]:
        t = num(c)
        for a, e in m:
            t = mul(t, power(a, e))
        r = add(r, t)
    return r

def rebuild(op, args):
    f = BUILD.get(op)
    if f is None: return mk(op, *args)
    return f(*args)

def transform(t, f, memo=None):
    """bottom-up rewriting: f(node) -> node or None; goes under binders"""
    if memo is None: memo = {}
    r = memo.get(t)
    if r is not None: return r
    if t.op == 'lam':
        v, b = open_fresh(t)
        b2 = transform(b, f, memo)
        r = t if b2 is b else close(v, b2)
    else:
        if t.op in ('tab', 'sum', 'prod', 'any', 'maxof') and t.args[1].op == 'lam':
            n = transform(t.args[0], f, memo)
            v, b = open_fresh(t.args[1])
            BOUND[v] = t.args[0]
            b2 = transform(b, f, memo)
            na = (n, t.args[1] if b2 is b else close(v, b2))
        else: na = _map_args(t.args, lambda c: transform(c, f, memo))
        r = t if na == t.args else rebuild(t.op, na)
    x = f(r)
    if x is not None: r = x
    memo[t] = r
    return r
_dep = [0]
def open_fresh(lam):
    _dep[0] += 1
    v = mk('var', '$f%d' % _dep[0])
    return v, apply(lam, v)

def subterms(t, seen=None):
    if seen is None: seen = set()
    st = [t]
    while st:
        x = st.pop()
        if x in seen: continue
        seen.add(x)
        st.extend(_walk_children(x.args))
    return seen

def replace(t, mp):
    """replace arbitrary closed subterms (keys) everywhere, also under binders"""
    if not mp: return t
    return transform(t, lambda n: mp.get(n))

# ---------------------------------------------------------------- assumptions
_as_memo = {}
def assume1(t, c, val):
    """simplify t knowing that condition c has value val"""
    if not t.hc: return t
    return assume(t, ((c, val),))

def assume(t, lits):
    """lits: tuple of (cond, bool)"""
    if not t.hc or not lits: return t
    key = (t, lits)
    r = _as_memo.get(key)
    if r is not None: return r
    d = {}
    for c, v in lits:
        if c.op == 'not': c, v = c.args[0], not v
        d[c] = TRUE if v else FALSE
        if c.op == 'and' and v:
            for x in c.args[0]:
                if x.op == 'not': d[x.args[0]] = FALSE
                else: d[x] = TRUE
    r = _assume(t, d, {})
    if len(_as_memo) > 400000: _as_memo.clear()
    _as_memo[key] = r
    return r

def _assume(t, d, memo):
    r = d.get(t)
    if r is not None: return r
    if not t.hc: return t
    r = memo.get(t)
    if r is not None: return r
    if t.op == 'ind':
        c = acond(t.args[0], d)
        r = t if c is t.args[0] else mkind(c)
    elif t.op == 'ite':
        c = acond(t.args[0], d)
        if c is TRUE: r = _assume(t.args[1], d, memo)
        elif c is FALSE: r = _assume(t.args[2], d, memo)
        else: r = mkite(c, _assume(t.args[1], d, memo), _assume(t.args[2], d, memo))
    elif t.op == 'lam':
        # conditions under binders that mention no bound variable are closed terms, so direct rewriting is safe
        b = _assume(t.args[1], d, memo)
        if b is t.args[1]: r = t
        else:
            l = t.args[0]
            v = fresh('as')
            r = close(v, subst(b, {bv(l): v}))
    else:
        na = _map_args(t.args, lambda c: _assume(c, d, memo))
        r = t if na == t.args else rebuild(t.op, na)
    memo[t] = r
    return r

def acond(c, d):
    r = d.get(c)
    if r is not None: return r
    if c.op == 'not': 
        x = acond(c.args[0], d)
        return c if x is c.args[0] else NOT(x)
    if c.op in ('and', 'or'):
        xs = [acond(x, d) for x in c.args[0]]
        if all(x is y for x, y in zip(xs, c.args[0])): return c
        return AND(*xs) if c.op == 'and' else OR(*xs)
    if c.op == 'ite':
        return mkite(acond(c.args[0], d), acond(c.args[1], d), acond(c.args[2], d))
    if c.hc: return _assume(c, d, {})
    return c

BUILD = {}
BUILD.update({
    'P': lambda a: rebuild_P((a,)), 'ite': mkite, 'ind': mkind, 'not': NOT, 'and': lambda xs: AND(*xs), 'lt0': lt0, 'eq0': eq0,
    'div': idiv, 'mod': imod, 'npow2': npow2, 'log2': log2, 'ceildiv': ceildiv, 'monus': monus, 'min': lambda xs: mkmin(xs),
    'fld': lambda v, n: fld(v, n) if '.' not in n else fld(v, n.split('.', 1)[1], n.split('.', 1)[0]),
    'setf': lambda v, k, x: setf(v, k, x) if '.' not in k else setf(v, k.split('.', 1)[1], x, k.split('.', 1)[0]),
    'is': lambda x, v: _isre(x, v),
})
def _isre(x, v):
    if x.op == 'agg': return TRUE if x.args[1] == v else FALSE
    if x.op == 'ite': return mkite(x.args[0], _isre(x.args[1], v), _isre(x.args[2], v))
    return mk('is', x, v)

# ---------------------------------------------------------------- printing
def show(t, d=0, lim=12):
    if not isinstance(t, T): return repr(t)
    if d > lim: return '…'
    s = lambda x: show(x, d + 1, lim)
    if t.op == 'P':
        if not t.args[0]: return '0'
        out = []
        for m, c in t.args[0]:
            fs = []
            for a, e in m:
                x = s(a)
                if a.op == 'P': x = '(' + x + ')'
                fs.append(x if isinstance(e, int) and e == 1 else x + '^' + ('{%s}' % (e if isinstance(e, int) else s(e))))
            if not fs: out.append(str(c))
            elif c == 1: out.append('*'.join(fs))
            elif c == -1: out.append('-' + '*'.join(fs))
            else: out.append(str(c) + '*' + '*'.join(fs))
        return '(' + ' + '.join(out) + ')' if len(out) > 1 else out[0]
    if t.op in ('sym', 'var'): return '.'.join(map(str, t.args))
    if t.op == 'bv': return '$%d' % t.args[0]
    if t.op == 'lam': return 'λ$%d.%s' % (t.args[0], s(t.args[1]))
    if t.op == 'agg':
        nm = (t.args[0].split('::')[-1] if t.args[0] != 'tuple' else '') + (('::' + t.args[1]) if t.args[1] else '')
        return nm + '{' + ', '.join('%s:%s' % (n, s(v)) for n, v in t.args[2]) + '}'
    if t.op == 'fld': return '%s.%s' % (s(t.args[0]), t.args[1])
    if t.op == 'get': return '%s[%s]' % (s(t.args[0]), s(t.args[1]))
    if t.op == 'not': return '!' + s(t.args[0])
    def sa(a):
        if isinstance(a, T): return s(a)
        if isinstance(a, tuple): return '(' + ', '.join(sa(x) for x in a) + ')'
        return str(a)
    return t.op + '(' + ', '.join(sa(a) for a in t.args) + ')'
