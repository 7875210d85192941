"""C33: forward and inverse transforms undo each other; the kernels for padded inputs agree with the full ones."""
from .fftnet import *

SERIAL, PARALLEL, BEST = 'crate::fft::lde::serial_lde', 'crate::fft::lde::parallel_lde', 'crate::fft::lde::best_lde'
FULL = {'crate::fft::fft::serial_fft': fft_handler(), 'crate::fft::fft::parallel_fft': fft_handler()}
def padded(i): return mkite(lt(i, idiv(N, F_)), el(i), ZERO)
def where_true(c): return mkite(c, ONE, ZERO)
def check(c):
    c.rule('Applying a transform and then its inverse is brought into one closed form, for vectors of every power-of-two length; it must be the double sum that the orthogonality of the roots of unity collapses to the input. For the kernels that skip known zeros, the stage of the serial kernel must give, '
           'on every vector whose elements at positions not below 2^stage modulo the factor are zero, the butterflies of the full kernel; the parallel kernel must give the strided sum of the padded input and hand its parts to a kernel that treats them as padded by the remaining factor.')
    c.assume('Orthogonality of roots of unity; butterflies keep the zeros that the pruned stages rely on: after bit reversal of a vector that is zero from n / factor on, only multiples of the factor are non-zero, and one stage doubles the run (positions below 2^stage modulo the factor); the full kernels are decided by C28')
    K = Compare(c); P = K.P
    def run(name, what, init, opaque=None, **kw):
        b = P.bodies.get(name)
        if b is None: c.undecided(what, 'function %s is gone' % name); return None
        where_ = '%s:%s: ' % (b.file, b.line)
        try: r, m, ex = K.value(name, init, opaque=opaque, ints=(LG, LC, LF), **kw)
        except Unsupported as e: c.undecided(what, str(e)[:300]); return None
        if r is None: c.ob(what, False, where_ + 'never returns'); return None
        return r, m, where_
    # ---- inversion
    w, g, n = W(), MD.GEN, N
    def twice(sign, shift_in, shift_out):
        return tab(n, lambda k: mul(mul(inv(n), shift_out(k)), ssum(n, lambda x: mul(power(w, mul(num(-sign), mul(x, k))), ssum(n, lambda t: mul(mul(shift_in(t), power(w, mul(num(sign), mul(x, t)))), el(t)))))))
    one = lambda i: ONE
    pairs = ((PC + 'fft', PV + 'ifft', 1, one, one), (PV + 'ifft', PC + 'fft', -1, one, one), (PC + 'coset_fft', PV + 'icoset_fft', 1, lambda t: power(g, t), lambda k: power(g, neg(k))), (PV + 'icoset_fft', PC + 'coset_fft', -1, one, one))
    for f1, f2, sign, si, so in pairs:
        what = '%s after %s' % (f2.split('::')[-1], f1.split('::')[-1])
        x = run(f1, what, dict(self=lambda: polynomial(vec('a', power(TWO, sym('log_n'))), power(TWO, sym('log_n')))), opaque=TRANSFORMS)
        if not x: continue
        y = run(f2, what, dict(self=lambda: x[0]), opaque=TRANSFORMS)
        if not y: continue
        try: co = fld(y[0], 'coeffs')
        except Unsupported as e: c.undecided(what, str(e)[:200]); continue
        c.count('transform pairs')
        K.same('%s: domain data' % what, setf(y[0], 'coeffs', sym('a')), setf(polynomial(vec('a', N), N), 'coeffs', sym('a')), where=y[2])
        K.small = [lt(LG, num(5))]
        got = norm(co)
        if eqs(got, twice(sign, si, so)): c.ob(what, True, sample=show(got)[:200])
        else: K.same(what, co, vec('a', N), where=y[2])
        K.given = []; K.small = []
    # ---- the serial kernel for padded inputs
    def inputs(a, **kw): return dict(dict(a=a, omega=W, log_n=lambda: LG, lde_factor=lambda: F_), **kw)
    facts = [lambda: le(LF, LG)]
    x = run(SERIAL, 'padded serial kernel', inputs(lambda: vec('a', N)), facts=facts)
    if x:
        got, where_ = x[1]['a'], x[2]
        l = []
        def ob(nm, okay, msg, pair=None): l.append((nm, okay, msg))
        def branch(what, b, s, A, invariant):
            g_, w_, (s_, q, j) = butterflies(b, s, A, ob, what)
            m = power(TWO, s); u = add(j, mul(mul(TWO, m), q)); v = add(u, m); X = sym('X')
            if invariant:
                z = lambda i: mul(get(X, i), where_true(lt(imod(i, F_), m)))
                mp = {norm(get(X, i)): z(i) for i in (u, v)}
                g_, w_ = [[transform(norm(t), lambda y: mp.get(y)) for t in ts] for ts in (g_, w_)]
            ob('%s: values of a pair' % what, all(eqs(a, b) for a, b in zip(g_, w_)), ' and '.join(show(norm(t))[:300] for t in g_) + ' instead of ' + ' and '.join(show(norm(t))[:300] for t in w_))
        try:
            s, A, b = network(got, None, ob)
            if b.op == 'ite':
                # the invariant may be used while the run of known zeros is shorter than the factor
                dense = norm(b.args[0]); more = norm(lt(power(TWO, s), F_))
                for k, val in ((1, True), (2, False)):
                    strict = b.args[0] if val else NOT(b.args[0])
                    sparse = any(norm(strict) is norm(z) or eqs(strict, z) for z in (lt(ONE, power(TWO, sub(LF, s))), NOT(lt(power(TWO, sub(LF, s)), TWO))))
                    branch('stage (%s)' % ('sparse' if sparse else 'dense'), b.args[k], s, A, sparse)
            else: branch('stage', b, s, A, False)
        except (Shape, Unsupported) as e: l.append(('shape', False, str(e)))
        bad = [z for z in l if not z[1]]
        c.count('structural parts', len(l))
        if not bad:
            for z in l: c.ob('padded serial kernel: ' + z[0], True)
        else:
            print('NOTE padded serial kernel: %s' % '; '.join('%s: %s' % (z[0], z[2]) for z in bad)[:700])
            x = run(SERIAL, 'padded serial kernel', inputs(lambda: tab(N, padded)), facts=facts)
            if x:
                K.small = [lt(LG, num(5))]; K.given = [NOT(lt(LF, ZERO))]
                K.same('padded serial kernel computes the transform', x[1]['a'], dft_of(padded), where=where_)
                K.given = []; K.small = []
    # ---- the parallel kernel for padded inputs
    K.inputs.add('transform of another size')
    def callee(pruned):
        def h(ex, a, st, t):
            st = dict(st); m = ex.target(st, a[0]); v = ex.load(st, m); r = [ex.full(st, y) for y in a[1:]]
            if r[0].op == 'sym' and 'worker' in show(r[0]): r = r[1:]
            L = length(v)
            ex.store(st, m, dft(tab(L, lambda i: mkite(lt(i, idiv(L, r[-1])), get(v, i), ZERO)), r[0]) if pruned else dft(v, r[0]))
            return UNIT, st
        return h
    n1 = power(TWO, sub(LG, LC))
    x = run(PARALLEL, 'padded parallel kernel', inputs(lambda: tab(N, padded), log_cpus=lambda: LC), opaque=dict(FULL, **{SERIAL: callee(True)}), facts=[lambda: le(LC, LG), lambda: le(LF, LG)])
    if x:
        got = x[1]['a']; where_ = x[2]
        def at_(x_, extra):
            j, h = imod(x_, C), idiv(x_, C)
            # the first condition follows from the second: i + s n' < n / factor
            return ssum(n1, lambda i: mul(where_true(lt(i, idiv(N, F_))) if extra else ONE, ssum(C, lambda s: mul(padded(add(i, mul(s, n1))), mul(power(w, mul(i, x_)), power(w, mul(mul(s, n1), j)))))))
        def leaves(t): return leaves(t.args[1]) + leaves(t.args[2]) if t.op == 'ite' else [t]
        try:
            g_ = unity(norm(got)); pos = var(N)
            okay = eqs(length(g_), N) and all(any(eqs(t, at_(pos, e)) for e in (False, True)) for t in leaves(get(g_, pos)))
        except Unsupported as e: okay = False
        c.count('structural parts')
        if okay: c.ob('padded parallel kernel', True, sample=show(g_)[:300])
        else:
            print('NOTE padded parallel kernel: %s' % show(norm(got))[:500])
            K.small = [lt(LG, num(5))]; K.given = [NOT(lt(LF, ZERO)), NOT(lt(LC, ZERO))]
            K.same('padded parallel kernel', got, dft_of(padded), where=where_); K.given = []; K.small = []
    # ---- dispatch
    def whole(ex, a, st, t):
        st = dict(st); m = ex.target(st, a[0]); v = ex.load(st, m); r = [ex.full(st, y) for y in a[1:]]
        if r[0].op == 'sym' and 'worker' in show(r[0]): r = r[1:]
        good = eqs(r[1], LG) and eqs(r[-1], F_)
        ex.store(st, m, dft(v, r[0]) if good else tab(N, lambda i: mk('app', 'transform of another size', (i,))))
        return UNIT, st
    for b in (BEST, 'crate::fft::best_lde'):
        what = 'dispatch' if b == BEST else b
        x = run(b, what, inputs(lambda: tab(N, padded)), opaque=dict(FULL, **{SERIAL: whole, PARALLEL: whole}))
        if x: K.same(what, x[1]['a'], dft_of(padded), where=x[2])
    c.floor('structural parts', c.counts.get('structural parts', 0), 2)
    c.floor('transform pairs', c.counts.get('transform pairs', 0), 3 if not c.open else 0)
