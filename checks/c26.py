"""C26: pointwise and evaluation primitives compute their defining formulas."""
from .common import *

def check(c):
    c.rule('The MIR of each primitive (with the worker closures it spawns) is turned into one closed-form value per result by gated value numbering and recurrence solving; '
           'the closed form must be identical to the mathematical definition, for symbolic length and symbolic chunk size.')
    K = Compare(c, opaque=TRANSFORMS)
    n = sym('n'); m = sym('m')
    g = sym('g'); a = lambda: vec('c', n)
    A = lambda: polynomial(a(), n)
    ci = lambda i: mk('get', sym('c'), i)
    di = lambda i: mk('get', sym('d'), i)
    B = lambda: polynomial(vec('d', n), n)
    def P1(name, init, coeffs, **kw):
        K.fn(name, dict(self=A, **init), muts={'self': lambda: polynomial(tab(n, coeffs), n)}, pow2=(n,), **kw)
    # one polynomial
    P1(PP + 'distribute_powers', {'g': g}, lambda i: mul(power(g, i), ci(i)))
    P1(PP + 'scale', {'g': g}, lambda i: mul(g, ci(i)))
    P1(PP + 'negate', {}, lambda i: neg(ci(i)))
    P1(PV + 'square', {}, lambda i: mul(ci(i), ci(i)))
    e = sym('exp')
    P1(PV + 'pow', {'exp': e}, lambda i: power(ci(i), e))
    P1(PV + 'add_constant', {'constant': g}, lambda i: add(ci(i), g))
    # two polynomials of one size
    for X in (PV,):
        P1(X + 'add_assign', {'other': B}, lambda i: add(ci(i), di(i)))
        P1(X + 'add_assign_scaled', {'other': B, 'scaling': g}, lambda i: add(ci(i), mul(g, di(i))))
        P1(X + 'sub_assign', {'other': B}, lambda i: sub(ci(i), di(i)))
        P1(X + 'mul_assign', {'other': B}, lambda i: mul(ci(i), di(i)))
    # coefficient form: the other operand may be shorter
    B2 = lambda: polynomial(vec('d', m), m)
    def P2(name, init, f):
        def want():
            return polynomial(rstore(a(), ZERO, m, lamof(m, lambda i: f(ci(i), di(i)))), n)
        K.fn(name, dict(self=A, other=B2, **init), muts={'self': want}, pow2=(n, m), facts=[le(m, n)])
    P2(PC + 'add_assign', {}, lambda x, y: add(x, y))
    P2(PC + 'sub_assign', {}, lambda x, y: sub(x, y))
    P2(PC + 'add_assign_scaled', {'scaling': g}, lambda x, y: add(x, mul(g, y)))
    # evaluation
    K.fn(PC + 'evaluate_at', dict(self=A, g=g), ret=lambda: ssum(n, lambda i: mul(power(g, i), ci(i))), pow2=(n,))
    ds = sym('domain_size')
    lin = lambda: polynomial(lit(ci(ZERO), ci(ONE)), TWO)
    for nm, shift in (('evaluate_at_domain_for_degree_one', ONE), ('coset_evaluate_at_domain_for_degree_one', MD.GEN)):
        K.fn(PC + nm, dict(self=lin, domain_size=ds), pow2=(ds,), facts=[le(log2(ds), S)],
             ret=lambda: degree_one(K, ds, shift, ci))
    # slices
    k = sym('len')
    sl = lambda nm, l: tab(l, lambda i: mk('get', sym(nm), i))
    U = 'crate::utils::poly::'
    K.fn('crate::fft::distribute_powers', dict(coeffs=lambda: sl('c', k), g=g), muts={'coeffs': lambda: tab(k, lambda i: mul(power(g, i), ci(i)))})
    K.fn(U + 'mul_polynomial_by_scalar', dict(a=lambda: sl('c', k), b=g), muts={'a': lambda: tab(k, lambda i: mul(g, ci(i)))})
    K.fn(U + 'mul_add_polynomials', dict(a=lambda: sl('c', k), b=lambda: sl('d', k), c=g), muts={'a': lambda: tab(k, lambda i: add(ci(i), mul(g, di(i))))})
    fp = sym('first_power')
    K.fn(U + 'evaluate_at_consequitive_powers', dict(coeffs=lambda: sl('c', k), first_power=fp, base=g),
         ret=lambda: mul(fp, ssum(k, lambda i: mul(power(g, i), ci(i)))))
    # tables
    size, lg, w = sym('size'), sym('lg'), sym('w')
    half = lambda: mul(size, inv(TWO))
    K.fn('crate::precomputations::PrecomputedOmegas::<F>::new_for_domain',
         dict(domain=lambda: agg('crate::domains::Domain', '', [('size', size), ('power_of_two', lg), ('generator', w)])), pow2=(size,),
         ret=lambda: agg('crate::precomputations::PrecomputedOmegas', '', [('omegas', tab(size, lambda i: power(w, i))),
              ('coset', tab(size, lambda i: mul(MD.GEN, power(w, i)))), ('omegas_inv', tab(half(), lambda i: power(w, neg(i))))]))
    # batch inversion: an error exactly when some value is zero
    K.fn(PV + 'batch_inversion', dict(self=A), pow2=(n,),
         muts={}, ret=None)
    r = K.results.get(PV + 'batch_inversion')
    if r is not None:
        ret, mu, ex = r
        okc = isvar(ret, RES, 'Ok')
        v = assume(mu['self'], ((okc, True),)) if okc not in (TRUE, FALSE) else mu['self']
        K.same('batch_inversion (values when it succeeds)', v, polynomial(tab(n, lambda i: inv(ci(i))), n))
        K.same('batch_inversion (fails exactly on a zero)', okc, NOT(eq0(pprod(n, ci))))
    c.floor('value equations', c.counts.get('value equations', 0), 22 if not K.undecided else 0)

def degree_one(K, ds, shift, ci):
    w = root_of(ds)
    vals = tab(ds, lambda i: add(ci(ZERO), mul(ci(ONE), mul(shift, power(w, i)))))
    return mkite(overflows(ds), err(E), ok(polynomial(vals, ds)))
