"""C05: the code that FRI verification tests proximity to is fixed by the verifier's instance."""
from .friproof import *

def check(c):
    c.rule('The acceptance condition of Verifier::verify, for an arbitrary proof and instance, must imply that the expansion factor each low-degree proof declares is the verifier\'s own and that its declared degree bound is the size of the '
           'column domain (first proof) and of the constraint domain (second proof). The acceptance condition of FRI verification must imply that bound, factor and declared final size are powers of two with the final size at most the bound, that there is one '
           'root per halving and one more, and exactly the declared number of final coefficients and two openings per root.')
    K = Compare(c)
    try: q = Claim(K)
    except Unsupported as e: c.undecided('Verifier::verify', str(e)[:300]); return
    for k, (p, nm, size) in enumerate(((PROOF1, 'p1', CD), (PROOF2, 'p2', GD))):
        real = 4 if k == 0 else 8
        q.require('expansion factor of low-degree proof %d' % (k + 1), eq(app('get_lde_factor', p), FAC), 'factor %d' % (k + 1), *[('expansion factor %d instead of 2' % v, dict(factor={nm: v})) for v in (1, 3, 4, 8)])
        q.require('degree bound of low-degree proof %d' % (k + 1), eq(app('get_initial_degree_plus_one', p), size), 'degree %d' % (k + 1),
                  *[('degree bound %d instead of %d' % (v, real), dict(degree={nm: v})) for v in (2 * real, real // 2, 4 * real, 1, real - 1, real + 1, 12 - real)])
        q.require('both of proof %d' % (k + 1), AND(eq(app('get_lde_factor', p), FAC), eq(app('get_initial_degree_plus_one', p), size)), 'both %d' % (k + 1),
                  ('twice the degree bound and half the factor', dict(factor={nm: 1}, degree={nm: 2 * real})), ('half the degree bound and twice the factor', dict(factor={nm: 4}, degree={nm: real // 2})))
    try: f = FriClaim(K, shaped=False)
    except Unsupported as e: c.undecided('FRI verification', str(e)[:300]); return
    sizes = lambda **m: dict(adapt=True, **m)
    f.require('the declared degree bound is a power of two', ispow2(D0), 'power of two: degree', *[('degree bound %d' % d, sizes(D=d, out=o, steps=t, size=n)) for d, o, t, n in ((6, 2, 1, 16), (6, 1, 2, 16), (3, 1, 1, 8), (5, 1, 2, 16), (12, 4, 1, 32), (12, 2, 2, 32))])
    f.require('the declared final size is a power of two', ispow2(OUT), 'power of two: final', *[('%d final coefficients for degree bound %d' % (o, d), sizes(D=d, out=o, steps=t)) for d, o, t in ((8, 3, 1), (4, 3, 0), (16, 3, 2), (8, 0, 0), (8, 5, 0), (16, 5, 1), (16, 6, 1))])
    f.require('the declared expansion factor is a power of two', ispow2(LF), 'power of two: factor', *[('expansion factor %d' % l, sizes(D=4, out=1, steps=2, lf=l, size=n)) for l, n in ((3, 16), (5, 32), (6, 32), (7, 32))])
    f.require('the declared final size is at most the degree bound', le(OUT, D0), 'final size', *[('%d final coefficients for degree bound %d' % (o, d), sizes(D=d, out=o, steps=t)) for d, o in ((4, 8), (4, 16), (2, 4), (1, 2)) for t in (0, 1, 2)])
    g = FriClaim(K)
    g.require('one root for each halving and one more', eq(length(sym('roots')), g.rounds), 'roots', *[('%d roots for %d halvings' % (r, st), dict(roots=r, steps=st, queries=x, adapt=True)) for st in (1, 2, 3) for r in range(1, st + 4) if r != st + 1 for x in (2 * r, 2 * st + 2)])
    g.require('two openings for each root', eq(length(sym('queries')), mul(TWO, g.rounds)), 'openings', *[('%d openings for 3 roots' % x, dict(queries=x, adapt=True)) for x in (2, 3, 4, 5, 7, 8, 10)])
    g.require('as many final coefficients as declared', eq(length(sym('final_coefficients')), OUT), 'final coefficients', *[('%d final coefficients instead of 2' % r, dict(out=2, final=r, adapt=True)) for r in (1, 3, 4, 8)])
    c.floor('requirements', c.counts.get('requirements', 0), 13)
