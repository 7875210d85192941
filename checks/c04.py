"""C04: FRI acceptance authenticates and chains every folding round."""
from .friproof import *

def check(c):
    c.rule('FRI verification is brought into closed form for an arbitrary proof. Its acceptance condition must imply, for every round: both openings authenticated under the round\'s root, with the path of the round\'s tree, at the two coset '
           'positions of the current index; the opening at the current index carrying the value supplied by the caller (first round) or folded from the round before; and the folded value of the last step equal to the evaluation of the final coefficients.')
    c.assume('IOP::verify_query authenticates the value and position it reports (C08, C09)')
    K = Compare(c)
    try: q = FriClaim(K)
    except Unsupported as e: c.undecided('FRI verification', str(e)[:300]); return
    n = q.size; pos = lambda k: imod(IDX, n(k)); other = lambda k: imod(add(IDX, idiv(n(k), TWO)), n(k))
    root = lambda k: get(sym('roots'), k); Q = lambda k, j: q.q(add(mul(TWO, k), num(j)))
    a = lambda f, *x: app(f, *x)
    swapped = lambda k: lt0(sub(other(k), pos(k)))
    at = lambda k, j: mkite(swapped(k), other(k) if j == 0 else pos(k), pos(k) if j == 0 else other(k))
    every = lambda f: forall(q.rounds, f)
    W = power(MD.ROOT, power(TWO, MD.monus(S, add(log2(D0), log2(LF)))))
    def fold(k):
        x, y = a('value', Q(k, 0)), a('value', Q(k, 1))
        odd = mul(sub(x, y), inv(power(W, mul(power(TWO, k), at(k, 0)))))
        return mul(add(add(x, y), mul(a('encode_root_into_challenge', root(k)), odd)), mkP({(): Fraction(1, 2)}))
    expected = lambda k: mkite(eq0(k), V0, fold(sub(k, ONE)))
    jj = range(6); deep = q.thresholds()
    at_depth = lambda j: [(st, i) for st in deep for i in range(j, 2 * st + 2, 2)]
    completed = [('the values that the verifier itself expects (index %d, %d folding steps, %d final coefficients)' % (i, st, o), dict(adapt=True, index=i, steps=st, out=o)) for st in [1, 2, 3, 4] + deep for o in (1, 2, 4) for i in (1, 3, 5, 7) if i < o * 2 << st]
    q.require('one root for each round and the last oracle', eq(length(sym('roots')), q.rounds), 'roots', *[('%d roots for 2 folding steps' % r, dict(roots=r)) for r in (1, 2, 4, 5)])
    q.require('two openings for each root', eq(length(sym('queries')), mul(TWO, q.rounds)), 'queries', *[('%d openings for 3 roots' % r, dict(queries=r)) for r in (2, 4, 7, 8, 10)])
    q.require('as many final coefficients as declared', eq(length(sym('final_coefficients')), OUT), 'final coefficients', *[('%d final coefficients instead of 2' % r, dict(out=2, final=r, adapt=True)) for r in (1, 3, 4, 8)])
    q.require('the index is in the domain', lt(IDX, mul(D0, LF)), 'index', *[('index %d in a domain of 8' % i, dict(out=1, index=i)) for i in (8, 9, 11, 15)])
    for j in (0, 1):
        w = 'opening %d of every round ' % j
        mine = lambda f: [('opening %d %s' % (i, f[0]), f[1](i)) for i in jj if i % 2 == j]
        q.require(w + 'is authenticated', every(lambda k: a('verify_query', Q(k, j), root(k))), 'authenticated %d' % j,
                  *mine(('not authenticated', lambda i: dict(verify=lambda x, r: x != i and r == x // 2))),
                  *[('all openings authenticated under root %d only' % r, dict(verify=lambda x, y, r=r: y == r)) for r in (0, 1, 2)], ('openings authenticated under the roots of other rounds', dict(verify=lambda x, r: r != x // 2)),
                  *[('opening %d of %d not authenticated' % (i, 2 * st + 2), dict(steps=st, verify=lambda x, r, i=i: x != i and r == x // 2)) for st, i in at_depth(j)])
        q.require(w + 'is at its coset position', every(lambda k: eq(a('natural_index', Q(k, j)), at(k, j))), 'position %d' % j,
                  *mine(('at the position of the other one', lambda i: dict(natural=lambda x, v, n: (v + n // 2) % n if x == i else v))), *mine(('one position off', lambda i: dict(natural=lambda x, v, n: v ^ 1 if x == i else v))),
                  *mine(('half the domain away from its pair', lambda i: dict(natural=lambda x, v, n: (v + n // 4) % n if x == i else v))), *[('opening %d of %d at a position in the other half' % (i, 2 * st + 2), dict(steps=st, natural=lambda x, v, n, i=i: (v + n // 2) % n if x == i else v)) for st, i in at_depth(j)],
                  *mine(('beyond the domain', lambda i: dict(natural=lambda x, v, n: v + n if x == i else v))))
        q.require(w + 'is at its tree position', every(lambda k: eq(a('tree_index', Q(k, j)), at(k, j))), 'tree position %d' % j,
                  *mine(('authenticated at the position of the other one', lambda i: dict(tree=lambda x, v, n: (v + n // 2) % n if x == i else v))), *mine(('authenticated one position off', lambda i: dict(tree=lambda x, v, n: v ^ 1 if x == i else v))),
                  *[('opening %d of %d authenticated at a position in the other half' % (i, 2 * st + 2), dict(steps=st, tree=lambda x, v, n, i=i: (v + n // 2) % n if x == i else v)) for st, i in at_depth(j)],
                  *mine(('authenticated beyond the domain', lambda i: dict(tree=lambda x, v, n: v + n if x == i else v))))
        q.require(w + 'has the path of its tree', every(lambda k: eq(length(a('path', Q(k, j))), log2(n(k)))), 'path %d' % j,
                  *[x for d, t in ((-1, 'shortened'), (1, 'extended')) for x in mine(('with a %s path' % t, lambda i, d=d: dict(path=lambda x: d if x == i else 0)))],
                  *[('opening %d of %d with an extended path' % (i, 2 * st + 2), dict(steps=st, path=lambda x, i=i: 1 if x == i else 0)) for st, i in at_depth(j)])
    for j in (0, 1):
        w = 'opening %d of every round ' % j
        mine = lambda f: [('opening %d %s' % (i, f[0]), f[1](i)) for i in jj if i % 2 == j]
        q.require(w + 'carries the expected value when it is the current one', every(lambda k: OR(NOT(eq(a('natural_index', Q(k, j)), pos(k))), eq(a('value', Q(k, j)), expected(k)))), 'value %d' % j,
                  *mine(('carrying another value', lambda i: dict(value=i, index=i_at(i)))), *[('opening %d of %d carrying another value' % (i, 2 * st + 2), dict(value=i, index=x, steps=st)) for st in [0, 1, 3, 4] + deep for i in range(j, 2 * st + 2, 2) for x in (1, 2 * 2 ** st - 1)], ('another value at the queried position than the oracle\'s', dict(oracle=1)), ('another value at the queried position than the oracle\'s (upper half)', dict(oracle=1, index=5)),
                  *[('layer %d not folded from the layer before' % r, {'break': r, 'index': i}) for r in (1, 2) for i in (1, 3, 5, 7)], *completed)
    last = mkite(eq0(q.steps), V0, fold(sub(q.steps, ONE)))
    point = power(W, mul(power(TWO, q.steps), pos(q.steps)))
    q.require('the last value is the evaluation of the final coefficients', eq(last, ssum(OUT, lambda i: mul(get(sym('final_coefficients'), i), power(point, i)))), 'final value',
              *[('final coefficient %d changed' % i, dict(coefficient=i, out=o)) for o in (1, 2, 4) for i in range(o)], *completed)
    c.floor('requirements', c.counts.get('requirements', 0), 15)
def i_at(j):
    """an index (in a domain of 8, two folding steps) whose current opening is number j"""
    k, side = divmod(j, 2)
    n = 8 >> k
    return next(i for i in (1, 3, 5, 7, 0, 2, 4, 6) if (i % n >= n // 2) == (side == 1))
