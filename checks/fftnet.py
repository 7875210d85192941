"""The radix-2 network and the defining sums that the transform kernels are compared with."""
from .common import *

LG, LC, LF = sym('log_n'), sym('log_cpus'), sym('log_factor')
N, C, F_ = power(TWO, LG), power(TWO, LC), power(TWO, LF)
W = lambda: root_of(power(TWO, sym('log_n')))        # the transform's root of unity
def el(i): return mk('get', sym('a'), i)
def dft_of(f=el):
    return tab(N, lambda x: ssum(N, lambda i: mul(f(i), power(W(), mul(i, x)))))

class Shape(Exception): pass
def peel(t, what):
    """a loop that updates one value: (number of iterations, initial value, body(k, x))"""
    if t.op != 'rec' or len(t.args[2]) != 1: raise Shape('%s is not one loop over the vector: %s' % (what, show(t)[:160]))
    l = t.args[3]
    return t.args[1], t.args[2][0], lambda k, x: apply(apply(l, k), x)
def eqs(a, b): a, b = norm(a), norm(b); return a is b or same(a, b)
def bit_reversal(l, k):
    """l steps that move the lowest bit of k to the result: the engine's closed form of 'r = (r << 1) | (n & 1); n >>= 1'"""
    r = fresh('r'); i = fresh('i')
    return mk('rec', ZERO, l, (ZERO,), close(i, close(r, mk('bor', mul(TWO, r), imod(idiv(k, power(TWO, i)), TWO)))))
def var(n, kind='k'):
    v = fresh(kind)
    if n is not None: BOUND[v] = n
    return v
def nonzero(t):
    """a power of two is not zero"""
    def f(x):
        if x.op == 'eq0':
            p = terms.poly(x.args[0])
            if len(p) == 1 and all(b is TWO for m in p for b, _ in m): return FALSE
        return None
    return transform(t, f)
def array(n, nm='A'):
    """a vector of n arbitrary elements"""
    a = sym(nm); seqs.FACTS[mk('len', a)] = n
    return a
def network(t, stage_of, ob):
    """t is: swap the elements at bit-reversed positions, then log n stages of butterflies.  ob(what, ok, message) for every part."""
    n, p, stage = peel(t, 'the transform')
    ob('number of stages', eqs(n, LG), 'there are %s stages' % show(n), (n, LG))
    # the permutation
    n, a, step = peel(p, 'the permutation')
    ob('the permutation covers the vector', eqs(n, N), 'it runs over %s positions' % show(n))
    ob('the permutation starts from the input', eqs(a, vec('a', N)), show(a)[:200])
    k = var(N); A = array(N); r = bit_reversal(LG, k)
    got = step(k, A)
    swaps = (upd(upd(A, r, get(A, k)), k, get(A, r)), upd(upd(A, k, get(A, r)), r, get(A, k)))
    want = [f for x in swaps for f in (mkite(lt(k, r), x, A), mkite(lt(r, add(k, ONE)), A, x), mkite(lt(r, k), x, A), mkite(lt(k, add(r, ONE)), A, x))]
    ob('elements at bit-reversed positions are swapped once', any(eqs(got, x) for x in want), show(got)[:300])
    # one stage
    s = var(LG, 's'); A = array(N)
    b = stage(s, A)
    return s, A, b
def butterflies(b, s, A, ob, what='stage', update=None):
    """one stage: every pair (u, u + 2^s) is replaced by (a + w b, a - w b), w = (root of the stage)^j"""
    m = power(TWO, s)
    n, a, blocks = peel(b, what)
    ob('%s: blocks' % what, eqs(n, idiv(N, mul(TWO, m))), '%s blocks' % show(n), (n, idiv(N, mul(TWO, m)), s))
    ob('%s: starts from the previous stage' % what, a is A, show(a)[:200])
    q = var(n, 'q'); B = array(N, 'B')
    n, a, pairs = peel(blocks(q, B), what)
    ob('%s: pairs of a block' % what, eqs(n, m), '%s pairs' % show(n), (n, m, s))
    ob('%s: pairs start from the previous block' % what, a is B, show(a)[:200])
    j = var(n, 'j'); X = array(N, 'X')
    u = add(j, mul(mul(TWO, m), q)); v = add(u, m)
    x = pairs(j, X)
    w = power(W(), mul(idiv(N, mul(TWO, m)), j))
    idx = set(); y = x
    def writes(y):
        if y is X: return
        if y.op == 'upd': idx.add(y.args[1]); writes(y.args[0]); return
        if y.op == 'ite': writes(y.args[1]); writes(y.args[2]); return
        raise Shape('%s does not write single elements: %s' % (what, show(y)[:160]))
    writes(x)
    ob('%s: only the two elements of the pair are written' % what, all(any(eqs(i, z) for z in (u, v)) for i in idx), ', '.join(show(i) for i in idx))
    got = [nonzero(get(x, z)) for z in (u, v)]
    want = [add(get(X, u), mul(w, get(X, v))), sub(get(X, u), mul(w, get(X, v)))]
    return got, want, (s, q, j)
SIZES = [(n, s) for n in (1, 2, 3, 5, 8, 11, 14, 18, 23, 28) for s in sorted({0, 1, n // 3, n // 2, 2 * n // 3, n - 2, n - 1}) if 0 <= s < n]
def at_sizes(K, got, want, s=None, q=None, j=None):
    """sizes for which two parts of the network differ"""
    for n, k in SIZES:
        m = {LG: num(n)}
        if s is not None: m[s] = num(k)
        for jv, qv in {(0, 0), (1, 0), ((1 << k) - 1, 0), (0, (1 << n - k - 1) - 1), ((1 << k) // 2 + 1, (1 << n - k - 1) // 2)} if j is not None else [(0, 0)]:
            if jv >= 1 << k or qv >= 1 << (n - k - 1): continue
            if j is not None: m.update({j: num(jv), q: num(qv)})
            a, b = replace(got, m), replace(want, m)
            if a is b: continue
            e = evalt.compare(a, b, samples=2, tries=10, sparse=0)
            if e[0] == 'differ': return 'log n = %d%s' % (n, '' if s is None else ', stage %d' % k) + ('' if j is None else ', pair %d of block %d' % (jv, qv))
    return None
def integer(a):
    """an integer-valued, non-negative factor"""
    return a.op in ('var', 'bv', 'mod', 'div', 'len', 'npow2')
def unity(t):
    """the 2^S-th power of the generator of the two-power subgroup is one"""
    full = power(TWO, S)
    (fb, fe), = next(iter(terms.poly(full)))
    def f(x):
        if x.op != 'P': return None
        out = None
        for m, c in x.args[0]:
            ch = False; r = num(c)
            for b, e in m:
                if b is MD.ROOT and isinstance(e, T):
                    keep = ZERO
                    for m2, c2 in terms.poly(e).items():
                        fs = dict(m2)
                        if fs.get(fb) is fe and c2 == int(c2) and all(integer(z) for z in fs if z is not fb): ch = True
                        else: keep = add(keep, rebuilt(m2, c2))
                    e = keep
                r = mul(r, power(b, e if isinstance(e, T) else num(e)))
            out = r if out is None else add(out, r)
            x = x if not ch else x
        return out
    return transform(t, f)
def rebuilt(m, c):
    r = num(c)
    for b, e in m: r = mul(r, power(b, e if isinstance(e, T) else num(e)))
    return r
