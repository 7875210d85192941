"""C28: the transform kernels compute the defining transform."""
from .fftnet import *

SERIAL, PARALLEL, BEST = 'crate::fft::fft::serial_fft', 'crate::fft::fft::parallel_fft', 'crate::fft::fft::best_fft'
def inputs(**kw):
    d = dict(a=lambda: vec('a', power(TWO, sym('log_n'))), omega=W, log_n=lambda: sym('log_n')); d.update(kw); return d
def check(c):
    c.rule('Each kernel is brought into closed form for a vector of any power-of-two length and any number of CPUs. The serial kernel must be bit reversal followed by one loop of butterfly stages with the stage\'s twiddle factors (loop summaries keep the in-place updates as a recurrence, '
           'which is compared part by part); the parallel kernel must be the sum over strided sub-transforms with their twiddle factors; the dispatching function must give the transform on every branch. Where a form is different, it is compared with the defining sum.')
    c.assume('A radix-2 network of log n butterfly stages after bit reversal is the discrete Fourier transform (Cooley-Tukey); omega generates the subgroup of order n; sizes below 2^32')
    K = Compare(c); P = K.P
    ints = (LG,)
    def run(name, what, P_opaque=None, **kw):
        b = P.bodies.get(name)
        if b is None: c.undecided(what, 'function %s is gone' % name); return None
        where_ = '%s:%s: ' % (b.file, b.line)
        extra = kw.pop('init', {})
        try: r, m, ex = K.value(name, inputs(**extra), opaque=P_opaque, ints=(LG, LC), **kw)
        except Unsupported as e: c.undecided(what, str(e)[:300]); return None
        if r is None: c.ob(what, False, where_ + 'never returns'); return None
        return m['a'], where_
    def defining(what, got, where_):
        """the form is not the expected one: is it still the transform?"""
        K.small = [lt(LG, num(5))]
        K.same(what, got, dft_of(), where=where_)
        K.given = []; K.small = []
    def parts(what, got, where_, f):
        """structural obligations; when one fails the whole value decides"""
        l = []
        try: f(lambda n, okay, msg, pair=None: l.append((n, okay, msg, pair)))
        except (Shape, Unsupported) as e: l.append(('shape', False, str(e), None))
        c.count('structural parts', len(l))
        bad = [x for x in l if not x[1]]
        for n, okay, _, _ in l:
            if okay: c.ob('%s: %s' % (what, n), True)
        if not bad: return
        if len(bad) == 1 and bad[0][3]:
            # everything else is the network: with a different number of butterflies or other factors it is another map
            e = at_sizes(K, *bad[0][3])
            if e: c.ob('%s: %s' % (what, bad[0][0]), False, '%s%s: %s: %s; everything else is the radix-2 network, so the result is not the transform, for example for %s' % (where_, what, bad[0][0], bad[0][2], e)); return
        print('NOTE %s: %s' % (what, '; '.join('%s: %s' % (x[0], x[2]) for x in bad)[:600]))
        defining('%s computes the transform' % what, got, where_)
    # serial
    x = run(SERIAL, 'serial transform')
    if x:
        got, where_ = x
        def f(ob):
            s, A, b = network(got, None, ob)
            g, w, vs = butterflies(b, s, A, ob)
            ob('stage: values of a pair', all(eqs(x, y) for x, y in zip(g, w)), ' and '.join(show(norm(x))[:300] for x in g) + ' instead of ' + ' and '.join(show(norm(x))[:300] for x in w), (tup(*g), tup(*w)) + vs)
        parts('serial transform', got, where_, f)
    # parallel
    x = run(PARALLEL, 'parallel transform', P_opaque={SERIAL: fft_handler()}, init=dict(log_cpus=lambda: LC), facts=[lambda: le(LC, LG)])
    if x:
        got, where_ = x
        def f(ob):
            n1 = power(TWO, sub(LG, LC)); w = W()
            def at_(x):
                j, h = imod(x, C), idiv(x, C)
                # t = i + s n', x = j + h C: w^(t x) without the multiples of n
                return ssum(n1, lambda i: ssum(C, lambda s: mul(el(add(i, mul(s, n1))), mul(power(w, mul(i, x)), power(w, mul(mul(s, n1), j))))))
            want = tab(N, at_)
            ob('strided sub-transforms', eqs(unity(norm(got)), want), show(norm(got))[:400] + ' instead of ' + show(norm(want))[:400])
        parts('parallel transform', got, where_, f)
    # dispatch
    for b in (BEST, 'crate::fft::best_fft'):
        K.inputs.add('transform of another size')
        h0 = fft_handler()
        def h(ex, a, st, t):
            r, st2 = h0(ex, a, st, t)
            rest = [ex.full(st, x) for x in a[1:]]
            if not any(eqs(x, LG) for x in rest):
                m = ex.target(st, a[0]); ex.store(st2, m, tab(N, lambda i: mk('app', 'transform of another size', (i,))))
            return r, st2
        for what, hint in (('with the worker\'s CPUs', lambda: NONE), ('with a hint', lambda: some(sym('hint')))):
            what = '%s %s' % ('dispatch' if b == BEST else b, what)
            x = run(b, what, P_opaque={SERIAL: h, PARALLEL: h}, init=dict(use_cpus_hint=hint))
            if x: K.same(what, x[0], dft_of(), where=x[1])
    x = run('crate::fft::serial_fft', 'crate::fft::serial_fft', P_opaque={SERIAL: h, PARALLEL: h})
    if x: K.same('crate::fft::serial_fft', x[0], dft_of(), where=x[1])
    c.floor('kernels', c.counts.get('structural parts', 0), 2)
