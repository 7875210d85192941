"""Sequences, sums, products, folds over terms."""
from .terms import *
from . import terms as _t
CANON = [False]


# ---------------------------------------------------------------- order reasoning (syntactic, no solver)
NATS = {'chunk'}
INTS = set()         # symbols declared to be integers by the running check
def upper(t):
    """a term >= t obtained by maximising bounded variables (linear in them), or None"""
    return _ext(t, True)
def lower(t): return _ext(t, False)

def _ext(t, up, depth=0):
    """extremise t over bounded variables / mins / mods, one layer at a time"""
    p = poly(t)
    out = ZERO
    for m, c in p.items():
        # a monomial: product of atoms with non-negative values; replace bounded atoms by their extreme
        goup = (c > 0) == up
        r = num(c)
        if goup:
            # v < ceildiv(L, s) gives v*s <= L - 1
            for a, e in m:
                if e == 1 and a in BOUND and BOUND[a].op == 'ceildiv':
                    L, st = BOUND[a].args
                    sm = single_mono(st)
                    if sm is not None and sm[1] == 1 and all(x in m for x in sm[0]):
                        rest = [x for x in m if x[0] is not a and x not in sm[0]]
                        r = mul(mul(r, sub(L, ONE)), mkP({tuple(rest): 1}))
                        m = ()
                        break
        for a, e in m:
            x = a
            if isinstance(e, int) and e > 0:
                if goup:
                    if a in BOUND: x = sub(sub(*BOUND[a].args) if BOUND[a].op == 'monus' else BOUND[a], ONE)     # a bound that is met is positive
                    elif a.op == 'mod': x = sub(a.args[1], ONE)
                else:
                    if a in BOUND: x = ZERO
                    elif a.op in ('mod', 'div'): x = ZERO
            r = mul(r, power(x, e) if isinstance(e, int) else mkP({((a, e),): 1}))
        out = add(out, r)
    return out

def surely_le0(d, depth=0):
    """d <= 0 for all values (sound, incomplete); atoms are naturals"""
    if depth > 4: return False
    if all(c <= 0 and all(_natpow(a, e) for a, e in m) for m, c in poly(d).items()): return True
    for o in ORDER:                    # o <= -1
        if o is d: return True
        if depth < 2:
            r = sub(d, o)
            if sub(r, o) is TWO: return True
            if r is ONE or (len(poly(r)) < len(poly(d)) and surely_le0(sub(r, ONE), depth + 2)): return True
    u = _ext(d, True)
    if u is not d and surely_le0(u, depth + 1): return True
    for m, c in poly(d).items():
        if c < 0:
            for a, e in m:
                if a.op == 'monus' and e == 1:
                    if surely_le0(replace_atom(d, a, sub(*a.args)), depth + 1): return True
                if a.op == 'ceildiv' and e == 1:
                    # ceildiv(y, c) >= ceildiv(x, c) when y >= x
                    for m2, c2 in poly(d).items():
                        if c2 == -c and len(m2) == len(m) and len(poly(d)) == 2:
                            bs = [b for b, e2 in m2 if b.op == 'ceildiv' and e2 == 1 and b.args[1] is a.args[1]]
                            if bs and {x for x in m2 if x[0] is not bs[0]} == {x for x in m if x[0] is not a} and prove_le(bs[0].args[0], a.args[0]): return True
    # min in a positive position: any branch is an upper bound
    for m, c in poly(d).items():
        if c > 0:
            for a, e in m:
                if a.op == 'min' and e == 1:
                    if any(surely_le0(replace_atom(d, a, x), depth + 1) for x in a.args[0]): return True
    for m, c in poly(d).items():
        if c < 0:
            for a, e in m:
                if a.op == 'min' and e == 1:
                    if all(surely_le0(replace_atom(d, a, x), depth + 1) for x in a.args[0]): return True
    # x >= 1 for positive naturals: replace a - 1
    d2 = d
    for a in POS:
        d2 = subst_atom(d2, a, add(mk('sym', '$pos', a), ONE))
    if d2 is not d and all(c <= 0 and all(_natpow(x, e) for x, e in m) for m, c in poly(d2).items()): return True
    # next_power_of_two(x) >= x
    for m, c in poly(d).items():
        if c < 0:
            for a, e in m:
                if a.op == 'npow2' and e == 1: return surely_le0(replace_atom(d, a, a.args[0]), depth + 1)
    return False
POS = set()
ORDER = []           # differences known to be negative (assertions on every path)
def _mentions(t, a): return a in subterms(t)
def _natpow(a, e):
    n = as_num(a) if a.op == 'P' else None
    if n is not None: return n > 0
    return (isinstance(e, int) and (e > 0 or e % 2 == 0 or True) or not isinstance(e, int)) and nonneg_atom(a)
def subst_atom(t, a, x):
    return replace_atom(t, a, x)
def replace_atom(t, a, x):
    r = ZERO
    for m, c in poly(t).items():
        q = num(c)
        for b, e in m: q = mul(q, power(x if b is a else b, e))
        r = add(r, q)
    return r

def prove_lt(a, b): return surely_le0(add(sub(a, b), ONE))
def prove_le(a, b): return surely_le0(sub(a, b))
_t.LEQ[0] = prove_le

def decide(c):
    """TRUE/FALSE/None for a condition, using variable bounds"""
    if c is TRUE or c is FALSE: return c
    if c.op == 'not':
        r = decide(c.args[0])
        return None if r is None else NOT(r)
    if c.op == 'lt0':
        if surely_le0(add(c.args[0], ONE)): return TRUE
        if surely_le0(neg(c.args[0])): return FALSE
    if c.op == 'eq0':
        if c.args[0].op == 'P' or nonneg_atom(c.args[0]):
            d = c.args[0]
            if is_int(d) and (surely_le0(add(d, ONE)) or surely_le0(sub(ONE, d))): return FALSE
    if c.op == 'and':
        rs = [decide(x) for x in c.args[0]]
        if any(r is FALSE for r in rs): return FALSE
        if all(r is TRUE for r in rs): return TRUE
    return None

def is_int(t):
    """the term is certainly an integer expression (not a field element): judged by its atoms"""
    return all(all(a in BOUND or a in INTS or a.op in INT_OPS or (a.op == 'P') for a, e in m) for m, c in poly(t).items())
INT_OPS = {'len', 'div', 'mod', 'npow2', 'log2', 'monus', 'min', 'max', 'ceildiv', 'cnt', 'usize'}

def simp_cond(c):
    r = decide(c)
    return c if r is None else r

# ---------------------------------------------------------------- sequences
SEQOPS = {'lit', 'tab', 'concat', 'upd', 'rstore', 'flat', 'filt', 'wf'}
def lit(*xs): return mk('lit', tuple(xs))
EMPTYSEQ = lit()

def length(s):
    o = s.op
    if o == 'lit': return num(len(s.args[0]))
    if o == 'tab': return s.args[0]
    if o == 'concat':
        r = ZERO
        for p in s.args[0]: r = add(r, length(p))
        return r
    if o in ('upd', 'rstore', 'wf'): return length(s.args[0])
    if o == 'ite': return mkite(s.args[0], length(s.args[1]), length(s.args[2]))
    if o == 'flat': return msum_lam(s.args[0], s.args[1], length)
    if o == 'filt': return mk('cnt', s.args[0], s.args[1])
    if o == 'entries': return mk('len', s.args[0])
    if o in ('mapof', 'setof'): return length(s.args[0])
    if o == 'shref': return length(s.args[0])
    if o == 'rec':
        r = rec_length(s)
        if r is not None: return r
    r = mk('len', s)
    f = FACTS.get(r)
    return r if f is None else f
def rec_length(s):
    """length of a sequence-valued recurrence whose step fixes the length as a function of the iteration"""
    r = _rl.get(s)
    if r is not None: return r[0]
    _rl[s] = (None,)
    j, n, inits, lam = s.args
    b = lam; xs = []; used = set()
    while b.op == 'lam':
        v = fresh('r'); b = apply(b, v); xs.append(v)
    if len(xs) != len(inits) + 1: return None
    k, vs = xs[0], xs[1:]
    if len(inits) > 1:
        if b.op != 'agg' or b.args[0] != 'tuple': return None
        b = b.args[2][as_num(j)][1]
    i0 = inits[as_num(j)]
    out = None
    if b.op in SEQOPS:
        L = length(b)
        if not (L.fs & set(vs)):
            L0 = length(i0)
            if subst(L, {k: num(-1)}) is L0: out = subst(L, {k: sub(n, ONE)})
            elif n is not k: out = mkite(eq0(n), L0, subst(L, {k: sub(n, ONE)}))
    _rl[s] = (out,)
    return out
_rl = {}
FACTS = {}
from contextlib import contextmanager
@contextmanager
def given(c):
    """order facts of a condition while the term it guards is built"""
    n = len(ORDER)
    order_fact(c)
    try: yield
    finally: del ORDER[n:]
def order_fact(c):
    if c.op == 'and':
        for x in c.args[0]: order_fact(x)
        return
    if c.op == 'lt0': d = c.args[0]                                    # d < 0
    elif c.op == 'not' and c.args[0].op == 'lt0': d = sub(neg(c.args[0].args[0]), ONE)   # d >= 0:  -d - 1 < 0
    elif c.op == 'not' and c.args[0].op == 'eq0' and nonneg_poly(c.args[0].args[0]): d = neg(c.args[0].args[0])
    else: return
    ORDER.append(d)
    for m, k in poly(d).items():
        if k < 0 and len(m) == 1 and m[0][0].op == 'monus' and m[0][1] == 1:
            if all(q >= 0 for mm, q in poly(d).items() if mm != m):      # something >= 0 is below it: it did not saturate
                ORDER.append(replace_atom(d, m[0][0], sub(*m[0][0].args)))

def msum_lam(n, lam, f):
    v, b = open_lam(lam, (n,), n)
    return msum(n, close(v, f(b)))

def mktab(n, lam):
    k = as_num(n)
    if k is not None and isinstance(k, int) and 0 <= k <= 4:
        return lit(*[apply(lam, num(i)) for i in range(k)])
    l, body = lam.args
    if body.op == 'get' and body.args[1] is bv(l) and bv(l) not in bvs(body.args[0]):
        s = body.args[0]
        if same_len(length(s), n): return s
    return mk('tab', n, lam)
def same_len(a, b): return a is b

def tab(n, f):
    """tab from a python function of the index"""
    v = fresh('i'); BOUND[v] = n
    return mktab(n, close(v, f(v)))

def get(s, i):
    o = s.op
    k = as_num(i)
    if o == 'lit':
        if isinstance(k, int):
            return s.args[0][k] if 0 <= k < len(s.args[0]) else mk('undef')
        if len(s.args[0]) == 1: return s.args[0][0]
        if len(s.args[0]) <= 4 and s.args[0]:
            r = s.args[0][-1]
            for j in range(len(s.args[0]) - 2, -1, -1): r = mkite(simp_cond(eq(i, num(j))), s.args[0][j], r)
            return r
    if o == 'tab': return apply(s.args[1], i)
    if o == 'ite': return mkite(s.args[0], get(s.args[1], i), get(s.args[2], i))
    if o == 'upd':
        c = simp_cond(eq(s.args[1], i))
        if c is TRUE: return s.args[2]
        if c is FALSE: return get(s.args[0], i)
        return mkite(c, s.args[2], get(s.args[0], i))
    if o == 'rstore':
        base, off, cnt, lam = s.args
        c = AND(simp_cond(le(off, i)), simp_cond(lt(i, add(off, cnt))))
        if c is FALSE: return get(base, i)
        x = apply(lam, i)
        if c is TRUE: return x
        return mkite(c, x, get(base, i))
    if o == 'concat':
        off = ZERO
        out = []
        for p in s.args[0]:
            e = add(off, length(p))
            out.append((p, off, e)); off = e
        r = None
        for j, (p, a, e) in enumerate(out):
            c = simp_cond(lt(i, e)) if j < len(out) - 1 else TRUE
            if c is FALSE: continue
            x = (p, a, c)
            r = r or []
            r.append(x)
            if c is TRUE: break
        res = None
        for p, a, c in reversed(r):
            with given(c): x = get(p, sub(i, a))
            res = x if res is None else mkite(c, x, res)
        return res
    if o == 'shref': return get(s.args[0], i)
    if o == 'flat':
        # flat of equal blocks: get(flat(N, L), q*m + r) with m = len of a block
        n, lam = s.args
        v, b = open_lam(lam, (n, i), n)
        m = length(b)
        if v not in m.fs:
            q, r = idiv(i, m), imod(i, m)
            return get(subst(b, {v: q}), r)
    if o == 'undef': return s
    return mk('get', s, i)

def upd(s, i, v):
    if s.op == 'lit':
        k = as_num(i)
        if isinstance(k, int) and 0 <= k < len(s.args[0]):
            l = list(s.args[0]); l[k] = v
            return lit(*l)
    if v.op == 'get' and v.args[0] is s and v.args[1] is i: return s
    if s.op == 'upd' and s.args[1] is i: return upd(s.args[0], i, v)
    if s.op == 'ite' and get(s, i) is v: return s
    if s.op == 'upd' and decide(eq(s.args[1], i)) is FALSE and s.args[1].id > i.id:
        return upd(upd(s.args[0], i, v), s.args[1], s.args[2])
    if s.op == 'rstore' and decide(AND(le(s.args[1], i), lt(i, add(s.args[1], s.args[2])))) is not FALSE: pass
    return mk('upd', s, i, v)

def rstore(s, off, cnt, lam):
    """s with positions off..off+cnt replaced by lam(position)"""
    if cnt is ZERO: return s
    L = length(s)
    if off is ZERO and cnt is L: return mktab(L, lam)
    k = as_num(cnt)
    if k == 1: return upd(s, off, apply(lam, off))
    l, body = lam.args
    if body.op == 'get' and body.args[0] is s and body.args[1] is bv(l): return s
    if s.op == 'rstore' and s.args[1] is off and s.args[2] is cnt: return rstore(s.args[0], off, cnt, lam)
    # adjacent or fully-covering stores become a concatenation of tables
    parts = split_parts(s, off, cnt, lam)
    if parts is not None: return parts
    return mk('rstore', s, off, cnt, lam)

def split_parts(s, off, cnt, lam):
    """s with a store: if the rest of s is known table-wise and positions partition it, build a concat"""
    L = length(s)
    if off is ZERO and prove_le(cnt, L):
        if cnt is L: return mktab(L, lam)
    return None

def slice_(s, off, cnt):
    if off is ZERO and cnt is length(s): return s
    k = as_num(cnt)
    if s.op == 'lit' and isinstance(k, int) and isinstance(as_num(off), int):
        return lit(*s.args[0][as_num(off):as_num(off) + k])
    if s.op == 'ite': return mkite(s.args[0], slice_(s.args[1], off, cnt), slice_(s.args[2], off, cnt))
    if s.op == 'concat':
        # a slice that is exactly a run of whole parts
        pos = ZERO; i = 0; ps = s.args[0]
        while i < len(ps) and pos is not off:
            pos = add(pos, length(ps[i])); i += 1
        if pos is off:
            end = add(off, cnt); j = i
            while j < len(ps) and pos is not end:
                pos = add(pos, length(ps[j])); j += 1
            if pos is end: return concat(*ps[i:j])
    return tab(cnt, lambda v: get(s, add(off, v)))

def concat(*ps):
    out = []
    for p in ps:
        if p.op == 'concat': xs = p.args[0]
        else: xs = (p,)
        for x in xs:
            if x.op == 'lit' and not x.args[0]: continue
            if x.op == 'tab' and x.args[0] is ZERO: continue
            if out and out[-1].op == 'lit' and x.op == 'lit':
                out[-1] = lit(*(out[-1].args[0] + x.args[0])); continue
            # two tables with the same constant element merge
            if out and out[-1].op == 'tab' and x.op == 'tab':
                la, lb = out[-1].args[1], x.args[1]
                if la is lb and not bvs_in(la): out[-1] = mktab(add(out[-1].args[0], x.args[0]), la); continue
            out.append(x)
    if not out: return EMPTYSEQ
    if len(out) == 1: return out[0]
    return mk('concat', tuple(out))
def bvs_in(lam):
    l, b = lam.args
    return bv(l) in bvs(b)

def rev(s):
    n = length(s)
    return tab(n, lambda i: get(s, sub(sub(n, ONE), i)))

def flat(n, lam):
    """concatenation of lam(0), lam(1), ... lam(n-1)"""
    k = as_num(n)
    if isinstance(k, int) and 0 <= k <= 4: return concat(*[apply(lam, num(i)) for i in range(k)])
    v, b = open_lam(lam, (n,), n)
    if b.op == 'lit' and len(b.args[0]) == 1: return mktab(n, close(v, b.args[0][0]))
    t = tile(n, v, b)
    if t is not None: return t
    return mk('flat', n, lam)

def chunk_of(cnt, v):
    """cnt = min(c, L - v*c) (a chunked split): return (c, L)"""
    g = ONE
    if cnt.op == 'P':
        p = poly(cnt)
        if len(p) != 1: return None
        (m, c), = p.items()
        if len(m) != 1 or m[0][1] != 1: return None
        cnt = m[0][0]; g = num(c)
    if cnt.op != 'min' or len(cnt.args[0]) != 2: return None
    for x, y in (cnt.args[0], cnt.args[0][::-1]):
        if v in x.fs: continue
        L = add(y, mul(v, x))
        if v not in L.fs: return mul(g, x), mul(g, L)
    return None

def unchunk(v, c, r, k, body):
    """body over (block v, offset r) as a function of the global position k = v*c + r; None if it still depends on the split"""
    b = subst(body, {v: mul(sub(k, r), inv(c))})
    if r in b.fs or v in b.fs: return None
    return b

def tile(n, v, b):
    """flat(n, λv. b) where the blocks tile a longer sequence"""
    cnt = length(b)
    co = chunk_of(cnt, v)
    if co is not None:
        c, L = co
        if n is ceildiv(L, c) or n is mk('ceildiv', L, c):
            r = fresh('r'); BOUND[r] = c
            k = fresh('k'); BOUND[k] = L
            x = unchunk(v, c, r, k, get(b, r))
            if x is not None: return mktab(L, close(k, x))
    elif v not in cnt.fs and as_num(cnt) is None or (as_num(cnt) or 0) > 1:
        r = fresh('r'); BOUND[r] = cnt
        k = fresh('k'); BOUND[k] = mul(n, cnt)
        x = unchunk(v, cnt, r, k, get(b, r))
        if x is not None and v not in cnt.fs: return mktab(mul(n, cnt), close(k, x))
    return None

# ---------------------------------------------------------------- sums and products
def msum(n, lam):
    k = as_num(n)
    if isinstance(k, int) and 0 <= k <= 8:
        r = ZERO
        for i in range(k): r = add(r, apply(lam, num(i)))
        return r
    v, b = open_lam(lam, (n,), n)
    if v not in b.fs: return mul(n, b)
    if n.op == 'ite' or (n.hc and find_ind(n) is not None and n.op != 'P'):
        r = split_on(n, lambda x: msum(x, lam))
        if r is not None: return r
    out = ZERO
    for m, c in poly(b).items():
        dep = []; ind = num(c)
        for a, e in m:
            if v in a.fs or (isinstance(e, T) and v in e.fs):
                # an exponent a*v + b splits
                if v not in a.fs and isinstance(e, T):
                    e1, e0 = {}, {}
                    for mm, cc in poly(e).items():
                        (e1 if any(v in x.fs or (isinstance(y, T) and v in y.fs) for x, y in mm) else e0)[mm] = cc
                    if e0: ind = mul(ind, power(a, mkP(e0)))
                    dep.append((a, mkP(e1))); continue
                dep.append((a, e))
            else: ind = mul(ind, mkP({((a, e),): 1}) if not (a.op == 'P') else power(a, e))
        if not dep:
            out = add(out, mul(ind, n)); continue
        cut = None
        for a, e in dep:
            # an indicator v < x restricts the range
            if a.op == 'ind' and a.args[0].op == 'lt0':
                x = sub(v, a.args[0].args[0])
                if v not in x.fs: cut = (a, x, True); break
                x = add(v, a.args[0].args[0])
        if cut is not None:
            a, x, _ = cut
            rest = ONE
            for b_, e in dep:
                if b_ is not a: rest = mul(rest, mkP({((b_, e),): 1}))
            out = add(out, mul(ind, msum(mkmin([n, x]) if not prove_le(x, n) else x, close(v, rest))))
            continue
        one = None
        for a, e in dep:
            # an indicator v = x with x in range picks one summand
            if a.op == 'ind' and a.args[0].op == 'eq0':
                d = a.args[0].args[0]
                for x in (sub(v, d), add(v, d)):
                    if v not in x.fs and prove_le(ZERO, x) and prove_lt(x, n): one = (a, x); break
            if one: break
        if one is not None:
            a, x = one; rest = ONE
            for b_, e in dep:
                if b_ is not a: rest = mul(rest, mkP({((b_, e),): 1}))
            out = add(out, mul(ind, subst(rest, {v: x}))); continue
        body = ONE
        for a, e in dep: body = mul(body, mkP({((a, e),): 1}))
        out = add(out, mul(ind, sum1(n, v, body)))
    return out

def sum1(n, v, body):
    """sum of a single v-dependent monomial"""
    if body is v: return mul(mul(n, sub(n, ONE)), num(Fraction(1, 2)))
    # nested chunked sum
    if body.op == 'sum':
        cnt, lam = body.args
        co = chunk_of(cnt, v)
        if co is not None:
            c, L = co
            if n is ceildiv(L, c):
                r = fresh('r'); BOUND[r] = c
                k = fresh('k'); BOUND[k] = L
                x = unchunk(v, c, r, k, apply(lam, r))
                if x is not None: return msum(L, close(k, x))
    co = body.op == 'P' and chunked_mono(n, v, body)
    if co: return co
    return mk('sum', n, close(v, body))

def chunked_mono(n, v, body):
    """factor(v) * sum(cnt(v), ...) with a chunked count"""
    p = poly(body)
    if len(p) != 1: return None
    (m, c), = p.items()
    ss = [(a, e) for a, e in m if a.op == 'sum' and e == 1 and v in a.fs]
    if len(ss) != 1: return None
    s = ss[0][0]
    rest = mkP({tuple(x for x in m if x[0] is not s): c})
    cnt, lam = s.args
    co = chunk_of(cnt, v)
    if co is None: return None
    cc, L = co
    if n is not ceildiv(L, cc): return None
    r = fresh('r'); BOUND[r] = cc
    k = fresh('k'); BOUND[k] = L
    x = unchunk(v, cc, r, k, mul(rest, apply(lam, r)))
    if x is None: return None
    return msum(L, close(k, x))

def mprod(n, lam):
    k = as_num(n)
    if isinstance(k, int) and 0 <= k <= 8:
        r = ONE
        for i in range(k): r = mul(r, apply(lam, num(i)))
        return r
    v, b = open_lam(lam, (n,), n)
    if v not in b.fs: return power(b, n)
    if b.hc:
        c = find_ind(b)
        if c is not None and c.op == 'eq0':
            # one exceptional factor
            d = c.args[0]
            for sg in (1, -1):
                t = sub(v, mul(num(sg), d))
                if v not in t.fs and BOUND.get(t) is n or (v not in t.fs and prove_lt(t, n)):
                    x, y = assume1(b, c, True), assume1(b, c, False)
                    return mul(mprod(n, close(v, y)), mul(subst(x, {v: t}), inv(subst(y, {v: t}))))
        for c in inds_on(b, v):
            # an indicator v < x splits the range
            e = c.args[0]; x = sub(v, e); up = True
            if v in x.fs: x = add(add(e, v), ONE); up = False          # !(v < x): v >= x  <=>  x - v - 1 < 0
            if v in x.fs: continue
            if not (prove_le(ZERO, x) and prove_le(x, n)): continue
            t, f = assume1(b, c, True), assume1(b, c, False)
            lo, hi = (t, f) if up else (f, t)
            k = fresh('k'); BOUND[k] = sub(n, x)
            return mul(mprod(x, close(v, lo)), mprod(sub(n, x), close(k, subst(hi, {v: add(k, x)}))))
    r = telescope(n, v, b)
    if r is not None: return r
    p = poly(b)
    if len(p) == 1:
        (m, c), = p.items()
        out = power(num(c), n) if c != 1 else ONE
        for a, e in m:
            if v not in a.fs:
                if isinstance(e, T) and v in e.fs: out = mul(out, power(a, msum(n, close(v, e))))
                else: out = mul(out, power(mkP({((a, e),): 1}), n))
            elif isinstance(e, int) and e != 1:
                out = mul(out, power(prod1(n, v, a), e))
            else: out = mul(out, prod1(n, v, mkP({((a, e),): 1})))
        return out
    return prod1(n, v, b)

def inds_on(b, v):
    return sorted({x.args[0] if x.op in ('ind', 'ite') else x for x in subterms(b) if (x.op == 'ind' or x.op == 'ite') and x.args[0].op == 'lt0' and v in x.args[0].fs}, key=lambda c: c.id)

def telescope(n, v, b):
    """prod_{v<n} of PP(v*c + min(c, L - v*c)) / PP(v*c) over a chunked split"""
    sm = single_mono(b)
    if sm is None: return None
    m, c = sm
    tops = [a for a, e in m if a.op == 'prod' and e == 1 and v in a.args[0].fs and v not in a.args[1].fs]
    for t in tops:
        for q, e in m:
            if q.op == 'prod' and e == -1 and q.args[1] is t.args[1]:
                co = chunk_of(sub(t.args[0], q.args[0]), v)
                if co is not None and q.args[0] is mul(v, co[0]):
                    rest = mul(b, mul(inv(t), q))
                    if n is not ceildiv(co[1], co[0]):
                        return mul(mk('prod', n, close(v, mul(t, inv(q)))), mprod(n, close(v, rest)) if rest is not ONE else ONE)
                    return mul(mprod(co[1], t.args[1]), mprod(n, close(v, rest)) if rest is not ONE else ONE)
    return None

def shifted(n, v, body):
    """prod over a shifted or reversed index range as a quotient of prefix products"""
    for g in subterms(body):
        if g.op != 'get' or v not in g.args[1].fs: continue
        idx = g.args[1]
        c = sub(idx, v)
        if v not in c.fs:
            if c is ZERO: return None
            w = fresh('w')
            B = subst(body, {v: sub(w, c)})
            if B.fs & (c.fs - g.args[0].fs) or any(x in B.fs for x in c.fs if x.op == 'var'): continue
            BOUND[w] = add(c, n)
            lam = close(w, B)
            return mul(pp(add(c, n), lam), inv(pp(c, lam)))
        c = add(idx, v)
        if v not in c.fs:
            w = fresh('w')
            B = subst(body, {v: sub(c, w)})
            if any(x in B.fs for x in c.fs if x.op == 'var'): continue
            BOUND[w] = add(c, ONE)
            lam = close(w, B)
            e = add(c, ONE)
            return mul(pp(e, lam), inv(pp(sub(e, n), lam)))
    return None
def canon(t):
    """products over index ranges as quotients of prefix products"""
    CANON[0] = True
    try:
        for _ in range(3):
            u = transform(t, lambda n: mprod(*n.args) if n.op == 'prod' else None)
            if u is t: break
            t = u
    finally: CANON[0] = False
    return t
def pp(n, lam):
    """prefix product with the constant part of its length split off"""
    k = as_num(n)
    if k is not None: return mprod(n, lam)
    d = dict(poly(n)); c = d.pop((), 0)
    e = mkP(d)
    r = mk('prod', e, lam)
    if isinstance(c, int) and -4 <= c <= 4 and c:
        for i in range(abs(c)):
            x = apply(lam, add(e, num(i)) if c > 0 else sub(e, num(i + 1)))
            r = mul(r, x if c > 0 else inv(x))
    elif c: r = mk('prod', n, lam)
    return r

def prod1(n, v, body):
    if CANON[0]:
        r = shifted(n, v, body)
        if r is not None: return r
    if CANON[0] and body.op == 'get' and body.args[1] is v and (dict(poly(n)).get((), 0)): return pp(n, close(v, body))
    if body.op == 'prod':
        cnt, lam = body.args
        co = chunk_of(cnt, v)
        if co is not None:
            c, L = co
            if n is ceildiv(L, c):
                r = fresh('r'); BOUND[r] = c
                k = fresh('k'); BOUND[k] = L
                x = unchunk(v, c, r, k, apply(lam, r))
                if x is not None: return mprod(L, close(k, x))
    return mk('prod', n, close(v, body))

# ---------------------------------------------------------------- quantifiers and folds
def many(n, lam):
    """some i < n with lam(i)"""
    k = as_num(n)
    if isinstance(k, int) and 0 <= k <= 8: return OR(*[apply(lam, num(i)) for i in range(k)])
    v, b = open_lam(lam, (n,), n)
    if b is FALSE: return FALSE
    if v not in b.fs: return AND(b, NOT(eq0(n)))
    if b.op == 'not' and b.args[0].op == 'and':
        xs = [NOT(x) for x in b.args[0].args[0]]
        return OR(*[many(n, close(v, x)) for x in xs])
    if b.op == 'and':
        ind = [x for x in b.args[0] if v not in x.fs]
        dep = [x for x in b.args[0] if v in x.fs]
        if ind and dep: return AND(*ind, many(n, close(v, AND(*dep))))
    return mk('any', n, close(v, b))

def mmax(n, lam):
    k = as_num(n)
    v, b = open_lam(lam, (n,), n)
    return mk('maxof', n, close(v, b))

def mkmax(*xs):
    s = []
    for x in xs:
        for y in (x.args[0] if x.op == 'max' else (x,)):
            if y not in s: s.append(y)
    nums = [as_num(x) for x in s if as_num(x) is not None]
    s = [x for x in s if as_num(x) is None]
    if nums:
        k = max(nums)
        if k > 0 or not s: s.append(num(k))
    keep = [x for x in s if not any(y is not x and prove_le(x, y) and not (prove_le(y, x) and y.id > x.id) for y in s)]
    if len(keep) == 1: return keep[0]
    return mk('max', tuple(sorted(keep, key=lambda t: t.id)))

def filt(n, cl, el):
    v, b = open_lam(cl, (n,), n)
    if b is TRUE: return mktab(n, el)
    if b is FALSE: return EMPTYSEQ
    return mk('filt', n, cl, el)

# maps
def mapget(m, k):
    if m.op == 'mapnew': return NONE
    if m.op == 'mapins':
        c = eq(m.args[1], k)
        if c is TRUE: return some(m.args[2])
        return mkite(c, some(m.args[2]), mapget(m.args[0], k))
    if m.op == 'ite': return mkite(m.args[0], mapget(m.args[1], k), mapget(m.args[2], k))
    if m.op == 'lmap': return lookup(m, k)
    if m.op == 'groupby':
        n, kl, vl = m.args
        v = fresh('g'); BOUND[v] = n
        c = close(v, eq(apply(kl, v), k))
        return mkite(many(n, c), some(filt(n, c, vl)), NONE)
    if m.op == 'mapof' and m.args[0].op == 'tab':
        n, l = m.args[0].args
        v, b = open_lam(l, (n, k), n)
        K, V = fld(b, '0'), fld(b, '1')
        e = position(K, v, k, n)
        if e is not None: return some(subst(V, {v: e}))
        return lookup(mk('lmap', n, close(v, TRUE), close(v, K), close(v, V)), k)
    if m.op == 'mapfun': return some(apply(m.args[0], k))
    if m.op == 'mapopt': return apply(m.args[0], k)
    return mk('mapget', m, k)
def position(K, v, key, n):
    """e with K(e) identical to key and e < n"""
    def go(a, b):
        if a is v: return b
        if v not in a.fs or a.op != b.op: return None
        for x, y in zip(_t._walk_children(a.args), _t._walk_children(b.args)):
            if isinstance(x, T) and isinstance(y, T) and v in x.fs:
                r = go(x, y)
                if r is not None: return r
        return None
    e = go(K, key)
    if e is None or subst(K, {v: e}) is not key: return None
    return e if prove_lt(e, n) else None
def functional(K, V, v, key, C=TRUE):
    """V as a function of the key, when it depends on the iteration through the key only (C: what holds of the iteration)"""
    m = {}
    for x in (C.args[0] if C.op == 'and' else [C]):
        # an equation between something that depends on the iteration and something that does not
        if x.op == 'eq0' and x.args[0].op == 'P' and len(x.args[0].args[0]) == 2:
            (m1, c1), (m2, c2) = x.args[0].args[0]
            if {c1, c2} == {1, -1}:
                a, b = mkP({m1: 1}), mkP({m2: 1})
                if v in b.fs and v not in a.fs: a, b = b, a
                if v in a.fs and v not in b.fs: m.setdefault(a, b)
    def leaves(t, acc):
        if t.op == 'agg' and v in t.fs:
            for nm, x in t.args[2]: leaves(x, fld(acc, nm, t.args[1] or None))
        elif v in t.fs: m.setdefault(t, acc)
    leaves(K, key)
    r = transform(V, lambda t: m.get(t)) if m else V
    return r if v not in r.fs else None
def lookup(m, key):
    n, c, kl, vl = m.args
    v, C = open_lam(c, (n, key, kl, vl), n); K = apply(kl, v); V = apply(vl, v)
    e = position(K, v, key, n)
    if e is not None and subst(C, {v: e}) is TRUE: hit = TRUE
    else: hit = many(n, close(v, AND(C, eq(K, key))))
    if hit is FALSE: return NONE
    f = functional(K, V, v, key, C)
    if f is None: f = mk('last', n, close(v, AND(C, eq(K, key))), close(v, V), mk('undef'))
    return mkite(hit, some(f), NONE)
def lmap(n, c, kl, vl):
    if as_num(n) == 0: return mk('mapnew')
    return mk('lmap', n, c, kl, vl)
def mapins(m, k, v):
    if m.op == 'mapins' and m.args[1] is k: return mapins(m.args[0], k, v)
    g = mapget(m, k)
    if g is some(v): return m
    return mk('mapins', m, k, v)

# ---------------------------------------------------------------- recurrences
def mkrec(j, n, inits, lam):
    k = as_num(n)
    if k == 0: return inits[j]
    return mk('rec', j, n, tuple(inits), lam)

BUILD.update({
    'len': length, 'get': get, 'tab': mktab, 'upd': upd, 'rstore': rstore, 'concat': lambda ps: concat(*ps), 'flat': flat,
    'lit': lambda xs: lit(*xs), 'sum': msum, 'prod': mprod, 'any': many, 'max': lambda xs: mkmax(*xs), 'filt': filt,
    'mapget': mapget, 'mapins': mapins, 'lmap': lmap,
})
_t.UPD[:] = [upd, get]
