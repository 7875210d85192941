"""C11: drawing a field challenge is total for every supported field width."""
from .c10 import *

TREE = 'crate::<iop::blake2s_trivial_iop::Blake2sIopTree<F> as iop::IopTree<F>>::'
IOP_ = 'crate::<iop::blake2s_trivial_iop::TrivialBlake2sIOP<F> as iop::IOP<F>>::'
HE = 'crate::<iop::blake2s_trivial_iop::Blake2sLeafEncoder<F> as iop::HashEncoder<F>>::'
FROM = 'ff_ce::PrimeField::from_repr'
def check(c):
    c.rule('The limbs of the representation handed to from_repr are computed from MIR as a function of the limb index, for every field width NUM_BITS and limb count: limb i must keep exactly the low min(64, max(0, NUM_BITS - 1 - 64 i)) bits of the digest\'s limb i. '
           'Such a number is below 2^(NUM_BITS - 1), hence below the modulus, so the conversion cannot fail, and no other bit is discarded. Every function that turns a digest into an element must go through such a conversion.')
    c.assume('PrimeField::CAPACITY is NUM_BITS - 1 and the modulus has NUM_BITS bits (ff)', 'read_be fills all limbs (ff)')
    K = Compare(c, opaque=hash_models(), consts=CONSTS); P = K.P
    n = sym('absorbed')
    tree = lambda: agg('crate::iop::blake2s_trivial_iop::Blake2sIopTree', '', [('size', n), ('nodes', tab(n, lambda i: tab(num(32), lambda j: mk('get', mk('get', sym('node'), i), j)))), ('hasher', sym('hasher'))])
    hash_ = lambda: bytes_('hash', num(32))
    def one(name, init):
        short = name.replace('crate::', '')
        b = P.bodies.get(name)
        if b is None: c.undecided(short, 'function is gone'); K.undecided += 1; return
        try: r, m, ex = K.value(name, init(b))
        except Unsupported as e: c.undecided(short, str(e)[:200]); K.undecided += 1; return
        fr = [x for x in subterms(r) if x.op == 'app' and x.args[0] in (FROM, 'ff_ce::PrimeField::from_raw_repr')]
        if not fr: c.undecided(short, 'no conversion into a field element: %s' % show(r)[:200]); return
        ls = {x for x in subterms(r) if x.op == 'app' and x.args[0] == 'LIMB'}
        src = {x.args[1][0] for x in ls}
        if len(src) != 1: c.undecided(short, 'digest of the challenge: %s' % show(r)[:200]); return
        src = next(iter(src)); kind, dig = src.args[0][0].args[1], src.args[0][1]
        for x in fr:
            c.count('conversions of digests')
            K.same('%s: limbs kept of the digest' % short, x.args[1][0], masked(dig, kind), where='%s:%s: ' % (b.file, b.line))
        K.same('%s returns the converted element' % short, r, fld(fr[0], '0', 'Ok'), where='%s:%s: ' % (b.file, b.line))
    A = lambda b, k: b.locals[k].get('n') or 'arg%d' % k
    one(TR + 'get_challenge', lambda b: {A(b, 1): lambda: S0(bytes_('state', n))})
    one(HE + 'interpret_hash', lambda b: {A(b, 1): hash_})
    for X in (TREE, IOP_): one(X + 'encode_root_into_challenge', lambda b: {A(b, 1): hash_})
    one(TREE + 'get_challenge_scalar_from_root', lambda b: {A(b, 1): tree})
    one(IOP_ + 'get_challenge_scalar_from_root', lambda b: {A(b, 1): lambda: agg('crate::iop::blake2s_trivial_iop::TrivialBlake2sIOP', '', [('tree', tree())])})
    # the two ways of getting a challenge from a root agree
    try:
        a, _, _ = K.value(IOP_ + 'encode_root_into_challenge', {A(K.body(IOP_ + 'encode_root_into_challenge'), 1): lambda: get(fld(tree(), 'nodes'), ONE)})
        b_, _, _ = K.value(TREE + 'get_challenge_scalar_from_root', {A(K.body(TREE + 'get_challenge_scalar_from_root'), 1): tree})
        K.same('the prover\'s and the verifier\'s challenge of a root agree', b_, a)
    except Unsupported as e: c.undecided('challenge of a root', str(e)[:200])
    for nm, b in P.bodies.items():
        for _, t in b.calls():
            f = mir.cname(t) or ''
            if f in ('ff_ce::PrimeFieldRepr::read_be', 'ff_ce::PrimeFieldRepr::read_le') and b.file.startswith('src/') and not b.file.startswith(('src/utils', 'src/fr', 'src/experiments')): c.count('functions reading digests into a representation')
    c.floor('conversions of digests', c.counts.get('conversions of digests', 0), 6 if not K.undecided else 0)

def S0(v): return agg('crate::transcript::Blake2sTranscript', '', [('state', v), ('_marker', PHANTOM)])
