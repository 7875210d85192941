"""C10: hashing and transcript absorb their whole input and ratchet."""
from .hashes import *

TR = 'crate::<transcript::Blake2sTranscript<F> as transcript::Transcript<F>>::'
TH = 'crate::<iop::blake2s_trivial_iop::Blake2sTreeHasher<F> as iop::IopTreeHasher<F>>::'
LE = 'crate::<iop::blake2s_trivial_iop::Blake2sLeafEncoder<F> as iop::LeafEncoder<F>>::'
def bytes_(nm, n): return tab(n, lambda i: mk('get', sym(nm), i))
def arg(K, name, k):
    b = K.body(name)
    return b.locals[k].get('n') or 'arg%d' % k
def static_of(t):
    """the static an initial state is read from"""
    xs = [x for x in subterms(t) if x.op == 'app' and x.args[0] == 'STATIC']
    return xs[0].args[1][0].args[0] if len(xs) == 1 and xs[0].args[1][0].op == 'sym' else None

def check(c):
    c.rule('Hash states are modelled as the byte sequence absorbed so far (State::update appends, finalize is a function of the whole sequence). For each transcript and tree hashing operation the sequence left behind and the digest input are computed from MIR: '
           'they must be the old sequence followed by the complete input; a draw must append its own digest; both kinds of draw must leave the same sequence; leaf encodings must be one-to-one. '
           'All initial states must come from a static whose initialiser is a closed expression with a key and a 32-byte digest.')
    c.assume('Blake2s behaves as a function of the whole byte sequence; write_be / write_le write the complete canonical representation (ff)', 'every supported field representation fits 32 bytes (asserted by the constructors: NUM_BITS < 256)')
    K = Compare(c, opaque=hash_models(), consts=CONSTS); P = K.P
    n, k = sym('absorbed'), sym('len')
    st = lambda: bytes_('state', n)
    S0 = lambda v: agg('crate::transcript::Blake2sTranscript', '', [('state', v), ('_marker', PHANTOM)])
    self_ = lambda: S0(st())
    el = sym('element')
    try:
        K.fn(TR + 'commit_bytes', {'self': self_, arg(K, TR + 'commit_bytes', 2): lambda: bytes_('bytes', k)}, muts={'self': lambda: S0(concat(st(), bytes_('bytes', k)))})
        r, m, ex = K.value(TR + 'commit_field_element', {'self': self_, arg(K, TR + 'commit_field_element', 2): el})
        v = fld(m['self'], 'state')
        c.ob('commit_field_element keeps the fields of the transcript', m['self'].op == 'agg', show(m['self'])[:200])
        absorbed_element(c, K, P, v, st(), n, el)
        for f in ('get_challenge_bytes', 'get_challenge'):
            K.fn(TR + f, {'self': self_}, muts={'self': lambda: S0(concat(st(), digest(st())))})
        r, m, ex = K.value(TR + 'get_challenge_bytes', {'self': self_})
        K.same('get_challenge_bytes returns the digest of everything absorbed', r, digest(st()))
        r, m, ex = K.value(TR + 'get_challenge', {'self': self_})
        d = digest(st())
        c.ob('get_challenge is derived from the digest of everything absorbed', any(x is d or (x.op == 'app' and x.args[0] == 'DIGEST' and x.args[1][0] is st()) for x in subterms(r)) and not any(x.op == 'app' and x.args[0] == 'DIGEST' and x.args[1][0] is not st() for x in subterms(r)),
             'src/transcript/mod.rs: get_challenge is computed from %s' % show(r)[:300])
        tree_hashing(c, K, P)
        r, m, ex = K.value(TR + 'new', {})
        initial(c, K, P, 'Transcript::new', r)
        b = K.body(TR + 'new')
        c.ob('Transcript::new has no inputs', b.argc == 0, '')
    except (Unsupported, KeyError) as e: c.undecided('hashing', str(e)[:300]); K.undecided += 1
    c.floor('value equations', c.counts.get('value equations', 0), 7 if not K.undecided else 0)

def tree_hashing(c, K, P):
    """leaf and node hashing absorb their complete input"""
    base = None
    a = arg(K, TH + 'hash_encoded_leaf', 1)
    r, m, ex = K.value(TH + 'hash_encoded_leaf', {a: lambda: bytes_('leaf', num(32))})
    base = initial(c, K, P, 'hash_encoded_leaf', r)
    if base is not None:
        K.same('hash_encoded_leaf hashes the whole encoding', r, digest(concat(lit(base), bytes_('leaf', num(32)))))
        for two in ((ZERO, ONE),):
            a = arg(K, TH + 'hash_node', 1)
            r, m, ex = K.value(TH + 'hash_node', {a: lambda: lit(bytes_('left', num(32)), bytes_('right', num(32)))})
            K.same('hash_node hashes its left and then its right input', r, digest(concat(lit(base), bytes_('left', num(32)), bytes_('right', num(32)))))
        v = sym('value')
        r0, _, _ = K.value(LE + 'encode_leaf', {arg(K, LE + 'encode_leaf', 1): v})
        complete(c, 'encode_leaf', P, r0, v, num(32))
        r, m, ex = K.value(TH + 'hash_leaf', {arg(K, TH + 'hash_leaf', 1): v})
        K.same('hash_leaf hashes the encoding of its value', r, digest(concat(lit(base), r0)))

def absorbed_element(c, K, P, v, st, n, el):
    """state ++ complete encoding of the element"""
    if not (v.op == 'concat' and v.args[0][0] is st): 
        e = evalt.compare(v, concat(st, bytes_('?', ONE)))
        c.ob('commit_field_element appends to the state', not _drops(v, st), 'src/transcript/mod.rs: commit_field_element leaves %s' % show(v)[:300]); return
    rest = concat(*v.args[0][1:])
    complete(c, 'commit_field_element', P, rest, el, None)
def _drops(v, st): return not any(x is st or x in st.fs for x in subterms(v))

def complete(c, what, P, seq, el, room):
    """the bytes are the complete representation of el: every byte written, nothing dropped"""
    c.count('element encodings')
    L = length(seq)
    enc = [x for x in subterms(seq) if x.op == 'app' and x.args[0] in ('BE', 'LE')]
    if not enc: c.ob('%s encodes its element' % what, el in seq.fs, '%s does not depend on the element: %s' % (what, show(seq)[:200])); return
    a = {(x.args[1][0], x.args[1][1]) for x in enc}
    if len(a) != 1: c.undecided('%s encodes its element' % what, show(seq)[:200]); return
    r, n = next(iter(a))
    src = r
    while src.op == 'app' and src.args[0] in ('ff_ce::PrimeField::into_repr', 'ff_ce::PrimeField::into_raw_repr') and src.args[1]: src = src.args[1][0]
    c.ob('%s encodes exactly its element' % what, src is el, '%s encodes %s' % (what, show(r)[:200]))
    whole = encoded(enc[0].args[0], r, n)
    if same(seq, whole): c.ob('%s absorbs the whole encoding' % what, True, sample=show(seq)[:150])
    else:
        lo = seqs.prove_lt(length(seq), n)
        if lo: c.ob('%s absorbs the whole encoding' % what, False, '%s uses only %s of the %s bytes written' % (what, show(L), show(n)))
        else: 
            e = evalt.compare(seq, whole)
            if e[0] == 'differ': c.ob('%s absorbs the whole encoding' % what, False, '%s uses %s instead of the complete encoding %s' % (what, show(seq)[:200], show(whole)[:200]))
            else: c.undecided('%s absorbs the whole encoding' % what, show(seq)[:200])
    full = n.op == 'sym' and 'size_of' in str(n.args[0]) and 'Repr' in str(n.args[1])
    k = as_num(n)
    if full or (k is not None and k >= 32): c.ob('%s has room for every representation' % what, True, sample=show(n))
    elif k is not None: c.ob('%s has room for every representation' % what, False, '%s provides %s bytes, representations have up to 32' % (what, k))
    else: c.undecided('%s has room for every representation' % what, show(n))

def initial(c, K, P, what, r):
    """the static an operation starts from; its initialiser must be closed and keyed"""
    xs = [x for x in subterms(r) if x.op == 'app' and x.args[0] == 'STATIC']
    if len(xs) != 1: c.undecided('%s: initial state' % what, show(r)[:200]); return None
    nm = xs[0].args[1][0]
    s_ = str(nm.args[1] if len(nm.args) > 1 and nm.args[0] == 'static' else nm.args[0])
    owner = s_.split('::deref')[0]
    ini = [n for n in P.bodies if n.startswith(owner) and n.endswith('__static_ref_initialize')]
    if len(ini) != 1: c.undecided('%s: initialiser of its initial state' % what, s_); return xs[0]
    r, m, ex = K.value(ini[0], {})
    calls = {x.args[0].split('::')[-1]: x for x in subterms(r) if x.op == 'app'}
    free = [x for x in r.fs if x.op in ('sym', 'var') and x.args[0] not in ('lit', 'const')] 
    c.ob('%s: the initial state is a constant' % what, not free, '%s depends on %s' % (ini[0], ', '.join(map(show, free))))
    for f in ('key',):
        c.ob('%s: the initial state has a %s' % (what, f), f in calls, '%s: %s' % (ini[0], show(r)[:200]))
    hl = calls.get('hash_length')
    c.ob('%s: digests have 32 bytes' % what, hl is not None and as_num(hl.args[1][-1]) == 32 or hl is None, show(r)[:200])
    return xs[0]
