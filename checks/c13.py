"""C13: prover and verifier evaluate the same composition polynomial."""
from .instance import *
from .c16 import inverse_divisor, dense

OPTION = 'core::option::Option'
NONE_ = agg(OPTION, 'None', [])
MAXP = sym('max_power')
reg_of = lambda k: fld(fld(k, 'register'), '0', 'Register')
mask_of = lambda k: fld(fld(k, 'steps_difference'), '0', 'Mask')
def coset_values(ex, a, st, t):
    """evaluations of the polynomial itself on the coset of a domain larger by the factor (C29)"""
    c = coeffs(ex.full(st, a[0])); f = ex.full(st, a[2]); N = mul(length(c), f)
    return mkite(overflows(N), err(E), ok(polynomial(tab(N, lambda i: at_point(lambda k: get(c, k), length(c), point(N, i))), N)))
def point(N, i): return mul(MD.GEN, power(root_of(N), i))
def at_point(c, n, x): return ssum(n, lambda k: mul(c(k), power(x, k)))
def W(r, m, x): return at_point(lambda k: mul(power(m, k), at('w', r, k)), CD, x)          # register r, shifted by m, at x
def masked_poly(r, m): return polynomial(tab(CD, lambda k: mul(power(m, k), at('w', r, k))), CD)
def models(P):
    h = poly_models(P)
    for X in (PC, PV, PP):
        if X + 'coset_lde' in h: h[X + 'coset_lde'] = coset_values
    return h
def one(P, suffix):
    l = [n for n in P.bodies if n.endswith(suffix)]
    if len(l) != 1: raise Unsupported('%d functions named %s' % (len(l), suffix))
    b = P.bodies[l[0]]
    return l[0], [x.get('n') or 'arg%d' % i for i, x in enumerate(b.locals) if 1 <= i <= b.argc], '%s:%s: ' % (b.file, b.line)
def success(K, r, what, where):
    if r is None: raise Unsupported('%s never returns' % what)
    if isvar(r, RES, 'Ok') is FALSE: raise Unsupported('%s always fails' % what)
    return fld(r, '0', 'Ok')
B, J, KT = sym('batch'), sym('constraint'), sym('term')
def term_value(I, uni, peeled=False):
    """the value of a term from the values of its univariate parts; peeled: with the first factor apart"""
    t = I.term(B, J, KT); n = at('num_factors', B, J, KT); f = lambda q: uni(I.uni('fac', B, J, KT, q))
    p = mul(f(ZERO), pprod(sub(n, ONE), lambda q: f(add(q, ONE)))) if peeled else pprod(n, f)
    return t, mkite(eq0(at('kind', B, J, KT)), uni(I.uni('uni', B, J, KT)), mul(at('poly_coeff', B, J, KT), p))
def prover_terms(c, K):
    P = K.P; I = Instance(P); FA = sym('extension'); N = mul(CD, FA)
    i = sym('i'); seqs.INTS.add(i)
    # one factor of a term: coefficient * (shifted register)^power, with whatever the cache of powers holds
    nm, A, where = one(P, '::evaluate_univariate_term_into_values')
    def cached(d):
        m = fld(d, 'mask'); n = fld(d, 'total_lde_length')
        return polynomial(tab(n, lambda i: power(W(reg_of(m), mask_of(m), point(n, i)), fld(d, 'power'))), n)
    cache = lambda: mk('mapopt', lamof(None, lambda d: mkite(mk('app', 'cached', (d,)), some(cached(d)), NONE_)))
    shifted = lambda: mk('mapfun', lamof(None, lambda k: masked_poly(reg_of(k), mask_of(k))))
    r, m, ex = K.value(nm, {A[0]: lambda: I.uni('uni'), A[1]: shifted, A[2]: cache, A[3]: FA}, opaque=models(P), pow2=(CD, FA), ints=(FA,))
    K.ctx['ints'] = tuple(K.ctx['ints']) + (i, at('uni_power'))
    K.given = [lt(i, N)]
    v = success(K, r, nm, where)
    u = lambda x: mul(at('uni_coeff'), power(W(at('uni_reg'), at('uni_mask'), x), at('uni_power')))
    K.same('prover: a factor of a term on the coset', get(coeffs(v), i), u(point(N, i)), key='prover factor', where=where)
    K.same('prover: length of the values of a factor', length(coeffs(v)), N, key='prover factor length', where=where)
    left = m.get(A[2])
    if left is None: c.undecided('the cache of powers', 'parameter %s is gone' % A[2])
    else:
        ins = [x for x in subterms(left) if x.op == 'mapins']
        for x in ins: K.same('prover: a cached power belongs to its key', coeffs(x.args[2]), coeffs(cached(x.args[1])), key='cached power', where=where)
        bad = [x for x in subterms(left) if x.op in UNRESOLVED]
        if bad: K.undecided += 1; c.undecided('the cache of powers', 'no closed form: ' + show(left)[:200])
        c.count('cache insertions', len(ins))
    # a term from its factors
    nm, A, where = one(P, '::evaluate_constraint_term_into_values')
    h = models(P)
    h.update(named(P, '::evaluate_univariate_term_into_values', lambda ex, a, st, t: ok(polynomial(tab(N, lambda i: mk('app', 'UNI', (ex.full(st, a[0]), i))), N))))
    r, m, ex = K.value(nm, {A[0]: lambda: I.term(B, J, KT), A[1]: shifted, A[2]: cache, A[3]: FA}, opaque=h, pow2=(CD, FA), ints=(FA,))
    K.ctx['ints'] = tuple(K.ctx['ints']) + (i, at('num_factors', B, J, KT))
    K.given = [lt(i, N), le(ONE, at('num_factors', B, J, KT))]
    K.same('prover: a term on the coset', get(coeffs(success(K, r, nm, where)), i), term_value(I, lambda t: mk('app', 'UNI', (t, i)))[1], key='prover term', where=where,
           alts=[term_value(I, lambda t: mk('app', 'UNI', (t, i)), peeled=True)[1]])
def adjusted(alpha, beta, a, x): return mkite(eq0(a), alpha, add(mul(alpha, power(x, a)), beta))
def composition(x, term, divisor, value, bdivisor, cch, bch):
    """the weighted sum of all constraints and boundary constraints over their divisors, at x"""
    dens = ssum(NB, lambda b: mul(divisor(b), ssum(at('batch_size', b), lambda j: mul(adjusted(*cch(b, j), sub(MAXP, at('degree', b, j)), x),
                                  add(at('constant', b, j), ssum(at('num_terms', b, j), lambda k: term(b, j, k)))))))
    bnd = ssum(NBC, lambda q: mul(mul(sub(value(at('bc_reg', q)), at('bc_value', q)), bdivisor(at('bc_row', q))), adjusted(*bch(q), sub(MAXP, ONE), x)))
    return add(dens, bnd)
NN = mul(CD, npow2(MAXP))
def onto(t): return transform(t, lambda x: NN if x is GD else None)
def prover_sum(c, K):
    P = K.P; I = Instance(P); calls = []
    nm, A, where = one(P, 'PerRegisterARP>::calculate_g')
    h = models(P); m0 = sym('messages')
    def term(ex, a, st, t):
        calls.append((ex.full(st, a[1]), ex.full(st, a[3])))
        return ok(polynomial(tab(GD, lambda i: mk('app', 'TERM', (ex.full(st, a[0]), i))), GD))
    h.update(named(P, '::evaluate_constraint_term_into_values', term))
    h.update(transcript_models(lambda kind, old: mk('app', kind, (length(old),))))
    r, m, ex = K.value(nm, {A[0]: I.ali(), A[1]: lambda: tab(m0, lambda i: mk('app', 'msg', (i,))), A[2]: lambda: tab(NREG, lambda q: polynomial(tab(CD, lambda k: at('w', q, k)), CD))}, opaque=h, pow2=(CD, GD), ints=(m0,))
    v = coeffs(success(K, r, nm, where))
    K.given = [forall(NB, lambda b: forall(at('batch_size', b), lambda j: le(at('degree', b, j), MAXP))), le(ONE, MAXP)]
    inner = {x.args[1][0] for x in subterms(v) if x.op == 'app' and x.args[0] == 'ICOSET'}
    ok_ = len(inner) == 1 and norm(v) is norm(tab(length(v), lambda i: mk('app', 'ICOSET', (next(iter(inner)), i))))
    if not ok_: raise Unsupported('the composition polynomial is not an interpolation over the coset')
    c.ob('the committed polynomial interpolates the composition values over the coset', True, sample=show(v)[:150])
    vals = inner.pop(); i = sym('i'); seqs.INTS.add(i); BOUND[i] = GD
    K.ctx['ints'] = tuple(K.ctx['ints']) + (i,); K.given.append(lt(i, NN))
    K.same('prover: the composition values fill the composition domain', onto(length(vals)), NN, key='composition size', where=where)
    before = lambda b: ssum(b, lambda q: at('batch_size', q)); total = before(NB)
    CH = lambda p: mk('app', 'CH', (p,))
    cch = lambda b, j: (lambda p: (CH(p), CH(add(p, ONE))))(add(m0, mul(TWO, add(before(b), j))))
    bch = lambda q: (lambda p: (CH(p), CH(add(p, ONE))))(add(m0, mul(TWO, add(total, q))))
    key = lambda b: I.density(b)
    want = composition(point(GD, i), lambda b, j, k: mk('app', 'TERM', (I.term(b, j, k), i)), lambda b: mk('app', 'DIV', (key(b), i)), lambda q: at_point(lambda k: at('w', q, k), CD, point(GD, i)),
                       lambda row: mk('app', 'BDIV', (row, i)), cch, bch)
    K.same('prover: the value of the composition at a point of the coset', onto(get(vals, i)), onto(want), key='prover composition', where=where)
    K.given = []
    shifted = mk('lmap', NM, lamof(NM, lambda q: TRUE), lamof(NM, I.mask), lamof(NM, lambda q: masked_poly(at('mask_reg', q), at('mask', q))))
    if not calls: K.undecided += 1; c.undecided('the terms of the composition', 'no term is evaluated')
    for k, (s_, hint) in enumerate(unique(calls)):
        K.same('prover: terms are evaluated over the shifted registers (%d)' % k, s_, shifted, key='shifted registers', where=where)
        K.same('prover: terms are extended to the composition domain (%d)' % k, mul(CD, hint), NN, key='term extension', where=where)
    if A[1] in m:
        e = event('CH')
        K.same('prover: two challenges for every constraint and boundary constraint', length(simplify_ok(m[A[1]], r)), add(m0, mul(TWO, add(total, NBC))), key='prover challenges', where=where)
def unique(l):
    out = []
    for x in l:
        if x not in out: out.append(x)
    return out
def simplify_ok(t, r):
    """t in the case that r is a success"""
    g = isvar(r, RES, 'Ok'); gs = list(g.args[0]) if g.op == 'and' else [g]
    d = {x: TRUE for x in gs}; d.update({NOT(x): FALSE for x in gs}); d[g] = TRUE
    t = transform(t, d.get)
    while t.op == 'ite' and t.args[0] in d: t = t.args[1] if d[t.args[0]] is TRUE else t.args[2]
    return t
def divisors(c, K):
    p = Prep(K); P = K.P
    T_, N = fld(fld(p.ali, 'column_domain'), 'size'), fld(fld(p.ali, 'constraints_domain'), 'size')
    K.given = [lt(ZERO, sym('num_rows')), forall(NBC, lambda i: lt(at('bc_row', i), sym('num_rows')))]
    bd = fld(p.ali, 'boundary_constraint_divisors')
    q = sym('boundary'); seqs.INTS.add(q); BOUND[q] = NBC
    i = sym('i'); seqs.INTS.add(i); BOUND[i] = N
    K.ctx['ints'] = tuple(K.ctx['ints']) + (q, i); K.given += [lt(q, NBC), lt(i, N)]
    row = at('bc_row', q); e = seqs.mapget(bd, row)
    where = one(P, '::from_arp')[2]
    got = fld(e, '0', 'Some')
    K.same('prover: the divisor of a boundary constraint on the coset', get(coeffs(got), i), inv(sub(point(N, i), power(root_of(T_), row))), key='boundary divisor', where=where)
    K.same('prover: the composition domain', N, npow2(mul(npow2(sym('num_rows')), fld(p.ali, 'max_constraint_power'))), key='composition domain', where=where)
def verifier_terms(c, K):
    P = K.P; I = Instance(P)
    nm, A, where = one(P, '::evaluate_term_on_f_at_z_m')
    val = lambda r, k: mk('app', 'F', (r, fld(k, '0', 'Mask')))
    claims = lambda: tab(NREG, lambda r: mk('mapfun', lamof(None, lambda k: val(r, k))))
    r, m, ex = K.value(nm, {A[0]: lambda: I.term(B, J, KT), A[1]: claims}, ints=())
    uni = lambda t: mul(fld(t, 'coeff'), power(mk('app', 'F', (reg_of(t), mask_of(t))), fld(t, 'power')))
    K.given = []; K.ctx['ints'] = (at('uni_power', B, J, KT), at('num_factors', B, J, KT))
    K.same('verifier: a term at the out-of-domain point', success(K, r, nm, where), term_value(I, uni)[1], key='verifier term', where=where)
def verifier_sum(c, K):
    P = K.P; I = Instance(P); calls = []
    nm, A, where = one(P, '::calculate_g_at_z_from_f_at_z')
    h = poly_models(P)
    def term(ex, a, st, t):
        calls.append(ex.full(st, a[1])); return ok(mk('app', 'TERM', (ex.full(st, a[0]),)))
    h.update(named(P, '::evaluate_term_on_f_at_z_m', term))
    z = sym('z'); F = lambda r, m: mk('app', 'F', (r, m))
    pair = lambda nm, n: tab(n, lambda i: tup(at(nm + '_alpha', i), at(nm + '_beta', i)))
    scratch = struct(P, 'crate::verifier::InstanceProofScratchSpace', constraint_challenges=pair('c', sym('num_c')), boundary_constraint_challenges=pair('b', NBC))
    proof = struct(P, 'crate::verifier::InstanceProof', f_at_z_m=tab(NM, lambda i: F(at('mask_reg', i), at('mask', i))))
    r, m, ex = K.value(nm, {A[0]: I.verifier(), A[1]: scratch, A[2]: proof, A[3]: z}, opaque=h, pow2=(CD, GD), ints=(), facts=[lambda: le(sym('num_rows'), CD)])
    v = success(K, r, nm, where)
    v = transform(v, lambda x: sub(*x.args) if x.op == 'monus' else None)          # under the precondition nothing is cut off
    K.given = [forall(NB, lambda b: forall(at('batch_size', b), lambda j: le(at('degree', b, j), MAXP))), forall(NB, lambda b: le(at('span', b), sym('num_rows'))), le(sym('num_rows'), CD), le(ONE, MAXP)]
    before = lambda b: ssum(b, lambda q: at('batch_size', q))
    want = composition(z, lambda b, j, k: mk('app', 'TERM', (I.term(b, j, k),)), lambda b: inverse_divisor(z, CD, sym('num_rows'), at('start_at', b), at('span', b)), lambda q: F(q, ONE),
                       lambda row: inv(sub(z, power(root_of(CD), row))), lambda b, j: (at('c_alpha', add(before(b), j)), at('c_beta', add(before(b), j))), lambda q: (at('b_alpha', q), at('b_beta', q)))
    K.same('verifier: the value of the composition at the out-of-domain point', v, want, key='verifier composition', where=where)
    K.given = []
    claims = tab(NREG, lambda r: mk('lmap', NM, lamof(NM, lambda i: eq(at('mask_reg', i), r)), lamof(NM, lambda i: Mask(at('mask', i))), lamof(NM, lambda i: F(at('mask_reg', i), at('mask', i)))))
    if not calls: K.undecided += 1; c.undecided('the terms of the composition at z', 'no term is evaluated')
    for k, x in enumerate(unique(calls)): K.same('verifier: terms are evaluated over the claimed values (%d)' % k, x, claims, key='claimed values', where=where)
def challenges(c, K):
    got = []
    def compose(ex, a, st, t):
        got.append([ex.full(st, x) for x in a]); return ok(mk('app', 'COMPOSITION', ()))
    s = Session(K, composition=True, extra=lambda P: named(P, '::calculate_g_at_z_from_f_at_z', compose))
    K.given = [x for x in s.given if not any(y.op == 'app' and y.args[0] in ('fri fails', 'opening fails') for y in subterms(x))]
    if len(unique(got)) != 1: K.undecided += 1; c.undecided('the challenges of the composition', 'the composition value is derived %d times' % len(unique(got))); return
    _, scratch, proof, z = got[0]
    before = lambda b: ssum(b, lambda q: at('batch_size', q)); total = before(NB)
    CH = lambda p: mk('app', 'CH', (p,))
    i = sym('i'); seqs.INTS.add(i); K.ctx['ints'] = tuple(K.ctx['ints']) + (i,); g = list(K.given)
    for f, n, first in (('constraint_challenges', total, NREG), ('boundary_constraint_challenges', NBC, add(NREG, mul(TWO, total)))):
        l = fld(scratch, f); BOUND[i] = n; K.given = g + [lt(i, n)]
        K.same('verifier: number of %s' % f, length(l), n, key='number of %s' % f, where=s.where_v)
        if l.op == 'flat' or True:
            want = seq_of(f, l, first)
            K.same('verifier: %s are drawn in the prover\'s order' % f, l, want, key=f, where=s.where_v)
    K.given = g
    K.same('verifier: the out-of-domain point follows all of them', z, CH(add(add(NREG, mul(TWO, add(total, NBC))), ONE)), key='out-of-domain point', where=s.where_v)
    K.same('verifier: the claimed values are those of the proof', fld(proof, 'f_at_z_m'), s.part('f_at_z_m'), key='claimed values used', where=s.where_v)
def seq_of(f, l, first):
    CH = lambda p: mk('app', 'CH', (p,)); pair_ = lambda p: tup(CH(p), CH(add(p, ONE)))
    if f.startswith('boundary'): return tab(NBC, lambda q: pair_(add(first, mul(TWO, q))))
    before = lambda b: ssum(b, lambda q: at('batch_size', q))
    b = fresh('b'); BOUND[b] = NB
    return mk('flat', NB, close(b, tab(at('batch_size', b), lambda j: pair_(add(first, mul(TWO, add(before(b), j)))))))
def check(c):
    c.rule('ALIInstance::calculate_g and Verifier::calculate_g_at_z_from_f_at_z are brought into closed form for an arbitrary instance (any number of batches, constraints, terms, factors and boundary constraints). Both must be one formula: the sum over batches of the inverse divisor times '
           'the sum over constraints of (constant + terms) times (alpha x^adjustment + beta), plus the boundary terms; evaluated on the coset by the prover and at the out-of-domain point by the verifier. The values of terms, the cache of powers, the boundary divisors and the order of the challenges are separate obligations.')
    c.assume('Interpolation and extension are exact (C29); the inverse divisors of densities are decided by C16; both sides hold the same instance data (C15)', 'No constraint degree exceeds the maximum, boundary constraints carry a value, products have at least one factor')
    K = Compare(c)
    for what, f in (('the prover\'s terms', prover_terms), ('the prover\'s composition', prover_sum), ('the prover\'s boundary divisors', divisors), ('the verifier\'s terms', verifier_terms), ('the verifier\'s composition', verifier_sum), ('the challenges', challenges)):
        try: f(c, K)
        except Unsupported as e: K.undecided += 1; c.undecided(what, str(e)[:300])
    c.floor('value equations', c.counts.get('value equations', 0), 20 if not K.undecided else 0)
