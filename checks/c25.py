"""C25: evaluation domains and their index maps are exact."""
from .drivers import *

DOM = 'crate::domains::Domain'
DF = 'crate::domains::Domain::<F>::'
COMB = 'crate::<iop::trivial_coset_combiner::TrivialCombiner<F> as iop::CosetCombiner<F>>::'
def domain(n): return agg(DOM, '', [('size', n), ('power_of_two', log2(n)), ('generator', root_of(n))])
def pair(i, n):
    """{i, i + n/2 mod n} in ascending order"""
    j = imod(add(i, mul(n, inv(TWO))), n)
    sw = lt(j, i)
    return lit(mkite(sw, j, i), mkite(sw, i, j))
def check(c):
    c.rule('Domain construction and the coset and next-layer index maps are brought into closed form for symbolic sizes and indices and compared with their definitions: '
           'the subgroup of order next-power-of-two generated by root_of_unity^(2^(S - log2 size)), an error beyond the two-adicity S; the coset {i, i + n/2 mod n} ascending; (i mod n/2, n/2).')
    K = Compare(c)
    size, n, i = sym('size'), sym('domain_size'), sym('natural_index')
    m = npow2(size)
    big = lambda: OR(overflows(m), lt(S, log2(m)))
    evalt.SMALL_S = True
    # the order of a constructed domain is at most the two-adicity, so the exponent S - log2 is exact
    r = K.fn(DF + 'new_for_size', dict(size=size), ret=lambda: mkite(big(), err(E), ok(agg(DOM, '', [('size', m), ('power_of_two', log2(m)), ('generator', power(MD.ROOT, power(TWO, monus(S, log2(m)))))]))))
    K.fn(DF + 'new_for_size', dict(size=n), pow2=(n,), facts=[le(log2(n), S)], ret=lambda: mkite(overflows(n), err(E), ok(domain(n))), key='domains::Domain::<F>::new_for_size on a power of two')
    evalt.SMALL_S = False
    kw = dict(pow2=(n,), ints=(i,), facts=[le(TWO, n), le(i, sub(n, ONE))])
    arg = dict(natural_index=i, domain_size=n)
    K.fn(DF + 'coset_for_natural_index_and_size', arg, ret=lambda: pair(i, n), **kw)
    K.fn(DF + 'index_and_size_for_next_domain', arg, ret=lambda: tup(sub(i, mkite(lt(i, mul(n, inv(TWO))), ZERO, mul(n, inv(TWO)))), mul(n, inv(TWO))), **kw)
    for f in ('get_coset_for_natural_index', 'get_coset_for_tree_index'): K.fn(COMB + f, arg, ret=lambda: pair(i, n), **kw)
    for f in ('tree_index_into_natural_index', 'natural_index_into_tree_index'):
        b = K.P.bodies.get(COMB + f)
        if b: K.fn(COMB + f, {b.locals[1].get('n') or 'arg1': i}, ret=i, ints=(i,))
        else: c.undecided(f, 'function is gone')
    for f in ('get_for_natural_index', 'get_for_tree_index'):
        b = K.P.bodies.get(COMB + f)
        if b: K.fn(COMB + f, {b.locals[1].get('n') or 'arg1': lambda: vec('v', n), b.locals[2].get('n') or 'arg2': i}, ret=lambda: mk('get', sym('v'), i), **kw)
        else: c.undecided(f, 'function is gone')
    x = sym('num')
    b = K.P.bodies.get('crate::utils::log2_floor')
    if b:
        nm = b.locals[1].get('n') or 'arg1'
        K.fn('crate::utils::log2_floor', {nm: x}, ret=lambda: log2(x), ints=(x,), facts=[le(ONE, x)])
    c.floor('value equations', c.counts.get('value equations', 0), 10 if not K.undecided else 0)
