"""C20: parallel computations are independent of the number of worker threads."""
from .drivers import *
from engine.mir import cname

WK = 'crate::fft::multicore::Worker::'
SER = {'crate::fft::fft::serial_fft': True, 'crate::fft::lde::serial_lde': True}

def has_split(t):
    for x in subterms(t):
        if x.op == 'chunk': return True
        if x.op == 'fld' and x.args[1] in ('cpus', 'pool') : return True
    return False
def check(c):
    c.rule('Every function that hands work to Worker::scope is brought into closed form with the chunk size as an unknown function of the element count; the results and all written buffers must not mention it. '
           'A closed form that still mentions it is a violation when two CPU counts are found for which the formula gives different values. '
           'Worker itself: the chunk size is at least one, every scope passes exactly it, and the announced number of pieces is the number of chunks.')
    c.assume('callees summarised by their definitions: batch_inversion (C26), in-place transforms (C28), low-degree extension (C29), tree hashing as functions of their arguments (C10)',
             'a scope joins every task it spawned and tasks write disjoint slices (C21, type system)')
    P = mir.Program()
    K = Compare(c, P)
    worker(c, K, P)
    scopes = {}
    for nm, b in P.bodies.items():
        for _, t in b.calls():
            if cname(t) == WK + 'scope': scopes.setdefault(nm, []).append(t.get('ln'))
    seen = set()
    def run(nm, init={}, summ=SUMMARIES, known=None, **kw):
        short = nm.replace('crate::', '')
        if nm not in P.bodies: c.undecided(short, 'function is gone'); return
        try: r, m, ex = K.value(nm, init, opaque=summ, **kw)
        except Unsupported as e: c.undecided(short, str(e)[:200]); return
        seen.update(ex.calls_seen)
        b = P.bodies[nm]
        for what, v in [('result', r)] + sorted(m.items()):
            if v is None: continue
            c.count('values whose dependence on the split was decided')
            if not has_split(v):
                c.ob('%s (%s)' % (short, what), True, sample='%d subterms, none mentions the chunk size' % len(subterms(v))); continue
            foreign = {x.args[0] for x in subterms(v) if x.op in ('app', 'appm') and '::' in x.args[0] and not x.args[0].startswith('crate::') and has_split(x)}
            if foreign or any(x.op == 'undef' for x in subterms(v)):
                c.undecided('%s (%s)' % (short, what), 'the chunk size reaches %s: %s' % (', '.join(sorted(foreign)) or 'an unknown value', show(v)[:200])); continue
            d = evalt.cpu_dependence(v, **K.ctx)
            if d[0] != 'differ':
                c.undecided('%s (%s)' % (short, what), 'mentions the chunk size, but no two CPU counts with different results were found (%s): %s' % (d, show(v)[:200])); continue
            c.ob('%s (%s)' % (short, what), False, '%s:%s: %s computes %s, which depends on the number of CPUs, for example at %s' % (b.file, b.line, short, show(v)[:400],
                 ', '.join('%s=%s' % z for z in sorted(d[1].items()) if 'root' not in z[0] and 'generator' not in z[0])[:200]), key=known or '%s (%s) depends on the thread count' % (short, what))
    n, m, g, e, ds, k = sym('n'), sym('m'), sym('g'), sym('exp'), sym('domain_size'), sym('len')
    A = lambda: polynomial(vec('c', n), n)
    B = lambda: polynomial(vec('d', n), n)
    B2 = lambda: polynomial(vec('d', m), m)
    for f in ('scale', 'negate', 'distribute_powers'): run(PP + f, dict(self=A, g=g), pow2=(n,))
    for f in ('square', 'pow', 'add_constant', 'ifft', 'icoset_fft'): run(PV + f, dict(self=A, exp=e, constant=g), pow2=(n,))
    run(PV + 'batch_inversion', dict(self=A), summ=TRANSFORMS, pow2=(n,))
    for f in ('add_assign', 'sub_assign', 'mul_assign', 'add_assign_scaled'): run(PV + f, dict(self=A, other=B, scaling=g), pow2=(n,))
    for f in ('add_assign', 'sub_assign', 'add_assign_scaled'): run(PC + f, dict(self=A, other=B2, scaling=g), pow2=(n, m), facts=[le(m, n)])
    for f in ('fft', 'coset_fft'): run(PC + f, dict(self=A), pow2=(n,))
    run(PC + 'evaluate_at', dict(self=A, g=g), pow2=(n,))
    for f in ('evaluate_at_domain_for_degree_one', 'coset_evaluate_at_domain_for_degree_one'):
        run(PC + f, dict(self=lambda: polynomial(lit(ci(ZERO), ci(ONE)), TWO), domain_size=ds), pow2=(ds,), facts=[le(log2(ds), S)])
    for f in LDES:
        run(PC + f, dict(self=P_in, factor=sym('factor')), pow2=(n, sym('factor')), facts=FACTS_LDE, known=KNOWN_KEY if f in ('lde', 'lde_using_multiple_cosets') and K_known(K, f) else None)
    U = 'crate::utils::poly::'
    sl = lambda nm: (lambda: tab(k, lambda i: mk('get', sym(nm), i)))
    run('crate::fft::distribute_powers', dict(coeffs=sl('c'), g=g))
    run(U + 'mul_polynomial_by_scalar', dict(a=sl('c'), b=g))
    run(U + 'mul_add_polynomials', dict(a=sl('c'), b=sl('d'), c=g))
    run(U + 'evaluate_at_consequitive_powers', dict(coeffs=sl('c'), first_power=sym('first_power'), base=g))
    size, lg, w = sym('size'), sym('lg'), sym('w')
    run('crate::precomputations::PrecomputedOmegas::<F>::new_for_domain', dict(domain=lambda: agg('crate::domains::Domain', '', [('size', size), ('power_of_two', lg), ('generator', w)])), pow2=(size,))
    for nm in ends(P, 'inverse_divisor_for_dense_constraint_in_coset'): run(nm)
    run('crate::arp::per_register::make_witness_polymonials')
    for nm in ('fft::lde::parallel_lde', 'fft::fft::parallel_fft'): run('crate::' + nm, summ=SER)
    for nm in ends(P, 'radix4_fft::parallel_fft_radix_4') + ends(P, 'dit_fft::parallel_DIT_fft'): run(nm, summ={})
    run(BYVAL, fri_init(), summ=dict(SUMMARIES, **FRI_OP), **FRI)
    run(BYCOEF, fri_init(), summ=dict(SUMMARIES, **FRI_OP), **FRI)
    run(CREATE, dict(leafs=lambda: vec('c', mul(TWO, h))), summ=hasher_h(P), pow2=(h,))
    for nm in sorted(set(scopes) - seen - {n for n in scopes if any(n.startswith(x + '::{') for x in seen)}):
        if 'from_roots' in nm:
            c.undecided(nm.replace('crate::', ''), 'the tree-shaped product of from_roots has no closed form here (it is not used by the protocol)'); continue
        run(nm)
    c.count('Worker::scope call sites', sum(len(v) for v in scopes.values()))
    c.floor('functions using Worker::scope that were analysed', len(set(scopes) & seen), 30 if not c.open else 0)
    c.floor('Worker::scope call sites found', sum(len(v) for v in scopes.values()), 20)

def K_known(K, f):
    """the recorded defect of the coset extension is present"""
    try: r, m, ex = K.value(PC + f, dict(self=P_in, factor=sym('factor')), opaque=TRANSFORMS, pow2=(sym('n'), sym('factor')), facts=FACTS_LDE)
    except Unsupported: return False
    return not same(r, lde_spec(ONE)) and same(r, lde_known())

def worker(c, K, P):
    cpus, e = sym('cpus'), sym('elements')
    W = lambda: agg('crate::fft::multicore::Worker', '', [('cpus', cpus), ('pool', sym('pool'))])
    real = {WK + 'get_chunk_size': lambda ex, a, st, t: ex.call_body(P.bodies[WK + 'get_chunk_size'], a, st)}
    try: r, m, ex = K.value(WK + 'get_chunk_size', dict(self=W, elements=e), ints=(cpus, e), facts=[le(ONE, cpus)])
    except Unsupported as x: c.undecided('Worker::get_chunk_size', str(x)); return
    def least_one(t, d=0):
        """t >= 1 in every case"""
        if t.op == 'ite' or t.hc:
            q = t.args[0] if t.op == 'ite' else find_ind(t)
            if q is not None and d < 6:
                out = []
                for v in (True, False):
                    qq = q if v else NOT(q)
                    with seqs.given(qq): out.append(least_one(assume1(t, q, v), d + 1))
                return all(x is True for x in out) if None not in out and False not in out else (False if False in out else None)
        if seqs.prove_le(ONE, t): return True
        if t.op == 'max': return True if any(least_one(x) for x in t.args[0]) else None
        if t.op == 'div' and seqs.prove_le(t.args[1], t.args[0]): return True
        if t is ZERO: return False
        if t.op == 'div': return False
        return None
    k = least_one(r)
    if k is None: c.undecided('chunk size is at least one', show(r))
    else: c.ob('chunk size is at least one', k, 'src/fft/multicore.rs: get_chunk_size can return 0: %s' % show(r), sample=show(r))
    try: r2, m, ex = K.value(WK + 'get_num_spawned_threads', dict(self=W, elements=e), opaque=real, ints=(cpus, e), facts=[le(ONE, cpus)])
    except Unsupported as x: c.undecided('Worker::get_num_spawned_threads', str(x))
    else:
        want = split_on(r, lambda x: ceildiv(e, x)) if r.hc else ceildiv(e, r)
        K.same('get_num_spawned_threads is the number of chunks', norm_ceil(r2), norm_ceil(want), where='src/fft/multicore.rs: ')
    try: r3, m, ex = K.value(WK + 'scope', dict(self=W, elements=e, f=sym('f')), ints=(cpus, e))
    except Unsupported as x: c.undecided('Worker::scope', str(x))
    else:
        a = [x for x in subterms(r3) if x.op == 'app' and x.args[0].startswith('call:')]
        if len(a) != 1 or len(a[0].args[1]) != 3: c.undecided('Worker::scope', 'the body is not recognised: %s' % show(r3)[:200])
        else: c.ob('scope passes the chunk size of its element count', same(a[0].args[1][2], MD.chunk_term(e)), 'src/fft/multicore.rs: scope passes %s' % show(a[0].args[1][2]))

def norm_ceil(t):
    """x div y + [x mod y != 0] is the ceiling of x / y"""
    def f(n):
        if n.op == 'ceildiv':
            x, y = n.args
            return add(idiv(x, y), mkind(NOT(eq0(imod(x, y)))))
        return None
    return transform(t, f)
