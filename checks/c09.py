"""C09: a Merkle opening binds value, position and the full tree depth."""
from .merkle import *
from . import c10
from .claim import Claim, CD, GD, FAC
from .friproof import *
from .c03 import FQ, GQ

def check(c):
    c.rule('Verification of an opening, in closed form for an arbitrary leaf, path, position and root, must be the comparison of the whole root with the fold of every path element onto the hash of the leaf, on the side given by each bit of the position; leaf and node hashing must absorb '
           'their complete input. The opening must be verified at the position it reports. The acceptance conditions of Verifier::verify and of FRI verification must imply that every path is as long as its tree is deep.')
    c.assume('Blake2s is collision resistant; equal digests of equal-length encodings come from equal inputs')
    K = Compare(c, opaque=tree_models())
    verification(c, K)
    b = None
    try:
        q = lambda: agg('crate::iop::blake2s_trivial_iop::TrivialBlake2sIopQuery', '', [('index', sym('index')), ('value', sym('leaf')), ('path', vec('path', sym('d')))])
        p = lambda f: {K.body(QRY + f).locals[1].get('n') or 'arg1': q}
        nat, _, _ = K.value(QRY + 'natural_index', p('natural_index'), ints=(sym('index'), sym('d')))
        tr, _, _ = K.value(QRY + 'tree_index', p('tree_index'), ints=(sym('index'), sym('d')))
        K.same('the position that is authenticated is the position that is reported', tr, nat)
    except (Unsupported, KeyError) as e: c.undecided('positions of an opening', str(e)[:300]); K.undecided += 1
    H = Compare(c, P=K.P, opaque=hash_models(), consts=CONSTS)
    try: c10.tree_hashing(c, H, K.P)
    except (Unsupported, KeyError) as e: c.undecided('hashing', str(e)[:300]); K.undecided += 1
    try: q = Claim(Compare(c, P=K.P))
    except Unsupported as e: c.undecided('Verifier::verify', str(e)[:300]); q = None
    if q:
        c.count('acceptance conditions')
        q.require('every witness path has the depth of its tree', forall(length(FQ), lambda i: eq(length(app('path', get(FQ, i))), log2(mul(CD, FAC)))), 'witness path',
                  *[('path of opening %d %s' % (j, w), dict(path=lambda x, j=j, d=d: d if x == Op('q', j) else 0)) for j in (0, 1) for w, d in (('shortened', -1), ('extended', 1), ('shortened by two', -2))])
        q.require('the composition path has the depth of its tree', eq(length(app('path', GQ)), log2(mul(GD, FAC))), 'composition path',
                  *[('its path %s' % w, dict(path=lambda x, d=d: d if x == Op('gq') else 0)) for w, d in (('shortened', -1), ('extended', 1))])
    try: q = FriClaim(Compare(c, P=K.P))
    except Unsupported as e: c.undecided('FRI verification', str(e)[:300]); q = None
    if q:
        c.count('acceptance conditions')
        Q = lambda k, j: q.q(add(mul(TWO, k), num(j)))
        deep = q.thresholds()
        for j in (0, 1):
            q.require('opening %d of every round has the path of its tree' % j, forall(q.rounds, lambda k: eq(length(app('path', Q(k, j))), log2(q.size(k)))), 'path %d' % j,
                      *[('opening %d with a path %d longer' % (i, d), dict(path=lambda x, i=i, d=d: d if x == i else 0)) for i in range(6) if i % 2 == j for d in (-1, 1)],
                      *[('opening %d of %d with an extended path' % (i, 2 * st + 2), dict(steps=st, path=lambda x, i=i: 1 if x == i else 0)) for st in deep for i in range(j, 2 * st + 2, 2)])
    c.floor('requirements', c.counts.get('requirements', 0), 4 if q else 0)
