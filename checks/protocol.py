"""Prover and verifier as value graphs over verified summaries of the polynomial and transcript operations."""
from .hashes import *

# ---- transcript: the sequence of messages absorbed and challenges drawn
TRAIT = 'crate::transcript::Transcript::'
def event(kind, *xs): return agg('event', kind, [(str(i), x) for i, x in enumerate(xs)])
def transcript_models(challenge=None):
    ch = challenge or (lambda kind, old: mk('app', kind, (length(old),)))
    def new(ex, a, st, t): return lit()
    def put(kind):
        def h(ex, a, st, t):
            st = dict(st); m = ex.target(st, a[0])
            ex.store(st, m, concat(ex.load(st, m), lit(event(kind, ex.full(st, a[1])))))
            return UNIT, st
        return h
    def draw(kind):
        def h(ex, a, st, t):
            st = dict(st); m = ex.target(st, a[0]); old = ex.load(st, m)
            ex.store(st, m, concat(old, lit(event(kind))))
            return ch(kind, old), st
        return h
    return {TRAIT + 'new': new, TRAIT + 'commit_bytes': put('bytes'), TRAIT + 'commit_field_element': put('element'),
            TRAIT + 'get_challenge': draw('CH'), TRAIT + 'get_challenge_bytes': draw('CHB')}
def opaque(name):
    def h(ex, a, st, t): return mk('app', name, tuple(ex.full(st, x) for x in a))
    return h

# ---- polynomials (C26, C29)
def coeffs(v): return fld(v, 'coeffs')
def vecops(f, other=False):
    """in place, element by element; arguments after the worker"""
    def h(ex, a, st, t):
        st = dict(st); m = ex.target(st, a[0]); v = ex.load(st, m); c = coeffs(v)
        xs = [ex.full(st, x) for x in a[2:]]
        if other: d = coeffs(xs[0]); g = lambda i: f(get(c, i), get(d, i), *xs[1:])
        else: g = lambda i: f(get(c, i), *xs)
        ex.store(st, m, setf(v, 'coeffs', tab(length(c), g)))
        return UNIT, st
    return h
def ext(name):
    """extension by a factor: opaque evaluations of the same polynomial on a larger domain"""
    def h(ex, a, st, t):
        c = coeffs(ex.full(st, a[0])); f = ex.full(st, a[2]); N = mul(length(c), f)
        return mkite(overflows(N), err(E), ok(polynomial(tab(N, lambda i: mk('app', name, (c, f, i))), N)))
    return h
def deg1(shift):
    def h(ex, a, st, t):
        c = coeffs(ex.full(st, a[0])); d = ex.full(st, a[2]); w = root_of(d)
        return mkite(overflows(d), err(E), ok(polynomial(tab(d, lambda i: add(get(c, ZERO), mul(get(c, ONE), mul(shift, power(w, i))))), d)))
    return h
def newpoly(ex, a, st, t):
    n = ex.full(st, a[0]); N = npow2(n)
    return mkite(overflows(N), err(E), ok(polynomial(tab(N, lambda i: ZERO), N)))
def distr(ex, a, st, t):
    st = dict(st); m = ex.target(st, a[0]); v = ex.load(st, m); c = coeffs(v); g = ex.full(st, a[2])
    ex.store(st, m, setf(v, 'coeffs', tab(length(c), lambda i: mul(power(g, i), get(c, i)))))
    return UNIT, st
def inverted(ex, a, st, t):
    """fails exactly when a value is zero (C26); the divisors used here are decided separately"""
    st = dict(st); m = ex.target(st, a[0]); v = ex.load(st, m); c = coeffs(v)
    i = fresh('i'); BOUND[i] = length(c); bad = many(length(c), close(i, eq0(get(c, i))))
    ex.store(st, m, setf(v, 'coeffs', tab(length(c), lambda j: inv(get(c, j)))))       # what is left after a failure is never used (C24)
    return mkite(bad, err(E), ok(UNIT)), st
def kept(name):
    def h(ex, a, st, t):
        v = ex.full(st, a[0]); c = coeffs(v)
        return setf(v, 'coeffs', tab(length(c), lambda i: mk('app', name, (c, i))))
    return h
def domain_h(ex, a, st, t):
    n = npow2(ex.full(st, a[0]))
    return mkite(OR(overflows(n), lt(S, log2(n))), err(E), ok(domain(n)))
def domain(n): return agg('crate::domains::Domain', '', [('size', n), ('power_of_two', log2(n)), ('generator', root_of(n))])

def poly_models(P):
    h = {}
    for X in (PC, PV, PP):
        h.update({X + 'lde': ext('LDE'), X + 'coset_lde': ext('CLDE'), X + 'new_for_size': newpoly,
          X + 'evaluate_at_domain_for_degree_one': deg1(ONE), X + 'coset_evaluate_at_domain_for_degree_one': deg1(MD.GEN),
          X + 'add_assign': vecops(add, True), X + 'sub_assign': vecops(sub, True), X + 'mul_assign': vecops(mul, True),
          X + 'add_assign_scaled': vecops(lambda x, y, g: add(x, mul(g, y)), True),
          X + 'scale': vecops(lambda x, g: mul(x, g)), X + 'negate': vecops(neg), X + 'add_constant': vecops(add), X + 'sub_constant': vecops(sub),
          X + 'pow': vecops(power), X + 'square': vecops(lambda x: mul(x, x)), X + 'distribute_powers': distr, X + 'batch_inversion': inverted,
          X + 'ifft': kept('IFFT'), X + 'icoset_fft': kept('ICOSET'), X + 'fft': kept('FFT'), X + 'coset_fft': kept('CFFT')})
        h[X + 'evaluate_at'] = lambda ex, a, st, t: mk('app', 'EVAL', (coeffs(ex.full(st, a[0])), ex.full(st, a[2])))
    h['crate::domains::Domain::<F>::new_for_size'] = domain_h
    h['crate::precomputations::PrecomputedOmegas::<F>::new_for_domain'] = omegas_h
    return {k: v for k, v in h.items() if k in P.bodies}
def omegas_h(ex, a, st, t):
    d = ex.full(st, a[0]); n = fld(d, 'size'); w = fld(d, 'generator')
    return agg('crate::precomputations::PrecomputedOmegas', '', [('omegas', tab(n, lambda i: power(w, i))), ('coset', tab(n, lambda i: mul(MD.GEN, power(w, i)))),
        ('omegas_inv', tab(mul(n, inv(TWO)), lambda i: power(w, neg(i))))])
def named(P, suffix, h): return {n: h for n in ends(P, suffix)}

# ---- a well-formed instance: registers are plain registers, steps are masks, densities are dense
A_ = 'crate::air::'
def struct(P, name, **given):
    a = P.adts.get(name)
    if a is None: raise Unsupported('type %s is gone' % name)
    fs = [f['n'] for f in a['variants'][0]['f']]
    return agg(name, '', [(f, given[f] if f in given else PHANTOM if f.startswith('_marker') else sym('%s.%s' % (name.split('::')[-1], f))) for f in fs])
def Reg(x): return agg(A_ + 'Register', 'Register', [('0', x)])
def Mask(x): return agg(A_ + 'constraint::StepDifference', 'Mask', [('0', x)])
def at(nm, *i): return mk('app', nm, tuple(i))
NM, NB, NREG, NBC = sym('num_masks'), sym('num_batches'), sym('num_registers'), sym('num_boundary')
class Instance:
    def __init__(s, P): s.P = P
    def mask(s, i): return struct(s.P, 'crate::ali::MaskProperties', register=Reg(at('mask_reg', i)), steps_difference=Mask(at('mask', i)))
    def masks(s): return mk('setof', tab(NM, s.mask))
    def density(s, b): return agg(A_ + 'ConstraintDensity', 'Dense', [('0', struct(s.P, A_ + 'DenseConstraint', start_at=at('start_at', b), span=at('span', b)))])
    def uni(s, tag, *i): return struct(s.P, A_ + 'constraint::UnivariateTerm', coeff=at(tag + '_coeff', *i), register=Reg(at(tag + '_reg', *i)), steps_difference=Mask(at(tag + '_mask', *i)), power=at(tag + '_power', *i))
    def term(s, b, j, k):
        T = A_ + 'constraint::ConstraintTerm'
        poly_ = struct(s.P, A_ + 'constraint::PolyvariateTerm', coeff=at('poly_coeff', b, j, k), total_degree=at('poly_degree', b, j, k), terms=tab(at('num_factors', b, j, k), lambda q: s.uni('fac', b, j, k, q)))
        return mkite(eq0(at('kind', b, j, k)), agg(T, 'Univariate', [('0', s.uni('uni', b, j, k))]), agg(T, 'Polyvariate', [('0', poly_)]))
    def constraint(s, b, j):
        return struct(s.P, A_ + 'constraint::Constraint', constant_term=at('constant', b, j), terms=tab(at('num_terms', b, j), lambda k: s.term(b, j, k)), degree=at('degree', b, j), density=s.density(b))
    def batches(s): return mk('mapof', tab(NB, lambda b: tup(s.density(b), tab(at('batch_size', b), lambda j: s.constraint(b, j)))))
    def bc(s, i): return struct(s.P, A_ + 'constraint::BoundaryConstraint', register=Reg(at('bc_reg', i)), at_row=at('bc_row', i), value=some(at('bc_value', i)))
    def properties(s): return struct(s.P, 'crate::arp::InstanceProperties', num_rows=sym('num_rows'), num_registers=NREG, boundary_constraints=tab(NBC, s.bc))
    def common(s):
        return dict(max_constraint_power=sym('max_power'), column_domain=domain(CD), constraints_domain=domain(GD), all_masks=s.masks(), constraints_batched_by_density=s.batches())
    def ali(s, **kw):
        d = dict(s.common(), properties=s.properties(), precomputations=omegas(GD), constraint_divisors=mk('mapfun', lamof(None, lambda k: divpoly('DIV', k))),
                 boundary_constraint_divisors=mk('mapfun', lamof(None, lambda k: divpoly('BDIV', k))))
        d.update(kw)
        return struct(s.P, 'crate::ali::per_register::ALIInstance', **d)
    def verifier(s, **kw): return struct(s.P, 'crate::verifier::Verifier', **dict(s.common(), instance=s.properties(), lde_factor=FAC, **kw))
    def prover(s, **kw): return struct(s.P, 'crate::prover::Prover', **dict(dict(ali=s.ali(), lde_factor=FAC), **kw))
CD, GD, FAC = sym('column_size'), sym('constraints_size'), sym('lde_factor')
INTS = ('mask_reg', 'start_at', 'span', 'batch_size', 'num_terms', 'num_factors', 'degree', 'bc_reg', 'bc_row', 'kind', 'uni_reg', 'fac_reg', 'uni_power', 'fac_power', 'poly_degree')
def divpoly(nm, key): return polynomial(tab(GD, lambda i: mk('app', nm, (key, i))), GD)
def omegas(n): w = root_of(n); return agg('crate::precomputations::PrecomputedOmegas', '', [('omegas', tab(n, lambda i: power(w, i))), ('coset', tab(n, lambda i: mul(MD.GEN, power(w, i)))), ('omegas_inv', tab(mul(n, inv(TWO)), lambda i: power(w, neg(i))))])
