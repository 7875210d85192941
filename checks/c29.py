"""C29: transforms use the right domain, low-degree extensions place coset values in natural order."""
from .lde import *
def check(c):
    c.rule('Every transform and extension of a polynomial is brought into closed form (chunk size symbolic, recurrences of the spawned workers solved); the underlying in-place kernel is represented '
           'by its defining sum (C28 covers the kernels).  The result must be the table k -> sum_i c[i] shift^i w^(i k) with w the generator of the target domain, with matching domain data.')
    c.assume('the in-place kernels compute the transform they are named after (decided separately, C28)')
    log = []
    h = {k: fft_handler(log) for k in TRANSFORMS if 'lde' not in k}
    h.update({k: lde_handler(log) for k in TRANSFORMS if 'lde' in k})
    K = Compare(c, opaque=h)
    run_all(c, K)
    for ln, lg in log:
        d = norm(sub(log2(ln), lg))
        c.ob('kernel size', d is ZERO or bool(marks(d)), 'a kernel is told log size %s for %s elements' % (show(lg), show(ln)), key='kernel size %s %s' % (show(lg)[:60], show(ln)[:60]))
    c.floor('value equations', c.counts.get('value equations', 0), 12 if not c.open else 0)
