"""C12: query indices are in range, odd, and derived alike on both sides."""
from .session import *

def index(c, K):
    P = K.P
    l = [n for n in P.bodies if n.endswith('::bytes_to_challenge_index')]
    if len(l) != 1: raise Unsupported('%d functions named bytes_to_challenge_index' % len(l))
    b = P.bodies[l[0]]; A = [x.get('n') or 'arg%d' % i for i, x in enumerate(b.locals) if 1 <= i <= b.argc]
    if len(A) != 3: raise Unsupported('bytes_to_challenge_index has %d parameters' % len(A))
    where = '%s:%s: ' % (b.file, b.line)
    W, half, k = sym('word'), sym('half_size'), sym('lde_factor'); size = mul(TWO, half)
    read = []
    for bit in (0, 1):
        word = add(mul(TWO, W), num(bit))
        def rd(ex, a, st, t): read.append(ex.full(st, a[0])); return word
        h = {'byteorder::ByteOrder::read_u64': rd, 'byteorder::BigEndian::read_u64': rd, 'byteorder::LittleEndian::read_u64': rd}
        F = (lambda: le(ONE, half), lambda: le(TWO, k), lambda: le(k, size), lambda: eq(imod(size, k), ZERO))
        r, m, ex = K.value(l[0], {A[0]: vec('b', num(32)), A[1]: lambda: size, A[2]: lambda: k}, opaque=h, pow2=(half, k), ints=(W, half, k), facts=F)
        terms.DEADLINE[0] = None
        if r is None: c.ob('an index is derived', False, where + 'never returns', key='no index'); return
        which = 'an %s word' % ('odd' if bit else 'even')
        if any(x.op in UNRESOLVED or (x.op == 'app') for x in subterms(r)): K.undecided += 1; c.undecided('index of ' + which, 'no closed form: ' + show(r)[:200]); continue
        for i, leaf in enumerate(leaves(r)): c.count('outcomes of the derivation')
        for what, f in (('the index of %s is inside the domain' % which, lt(r, size)), ('the index of %s is odd' % which, eq(imod(r, TWO), ONE)), ('the index of %s is not a multiple of the expansion factor' % which, NOT(eq(imod(r, k), ZERO)))):
            # a word with a given parity covers all words; the condition is split over the outcomes
            fs = split(r, what, size, k)
            if fs: c.count('conditions'); c.ob(what, True, sample=show(r)[:200])
            else: K.holds(what, f, key=what, where=where)
    # the eight bytes are all read from the challenge
    l = [x for x in read if x.op != 'tab' or length(x) is not num(8)]
    c.ob('eight challenge bytes decide the index', bool(read) and not l, where + 'reads %s' % show(l[0])[:100] if l else '', key='bytes read') if read else c.undecided('bytes read', 'no 64-bit word is read from the challenge')
def leaves(t): return [x for y in t.args[1:] for x in leaves(y)] if t.op == 'ite' else [t]
def split(r, what, size, k):
    """every outcome satisfies the condition by itself"""
    for x in leaves(r):
        if 'inside' in what: ok_ = known(lt(x, size))
        else: ok_ = imod(x, TWO) is ONE          # an odd number is not a multiple of an even one
        if not ok_: return False
    return True
def known(f): return f is TRUE
def sides(c, K):
    s = Session(K, composition=True)
    K.given = [x for x in s.given if not any(y.op == 'app' and y.args[0] in ('fri fails', 'opening fails') for y in subterms(x))]
    for k, n in enumerate(('fri_proof_h1', 'fri_proof_h2')):
        try: proto, values, idx = s.friproof(n); vi, vv = s.checked(n)
        except Unsupported as e: K.undecided += 1; c.undecided(n, str(e)); continue
        if k >= len(s.plogs) or k >= len(s.vlogs): c.undecided(n, 'no challenge is drawn for it'); continue
        size = length(values)
        K.same('the prover derives the index of %s from the challenge after everything it sent, with the size of the vector opened' % n, idx, app('INDEX', app('CHB', length(s.plogs[k])), size, FAC), key='prover index of %s' % n, where=s.where_p)
        K.same('the verifier derives the index of %s from the same challenge and parameters' % n, vi, app('INDEX', app('CHB', length(s.vlogs[k])), size, FAC), key='verifier index of %s' % n, where=s.where_v)
        K.same('both sides derive the same index of %s' % n, vi, idx, key='index of %s' % n, where=s.where_v)
        K.same('the vector of %s is as long as the domain' % n, size, mul((CD, GD)[k], FAC), key='domain of %s' % n, where=s.where_p)
    # the openings of the oracles are at these positions
    i = sym('register'); BOUND[i] = NREG; seqs.INTS.add(i); K.ctx['ints'] = tuple(K.ctx['ints']) + (i,); K.given = K.given + [lt(i, NREG)]
    for what, q, n in (('the witness openings', get(s.part('f_queries'), i), 'fri_proof_h1'), ('the composition opening', s.part('g_query'), 'fri_proof_h2')):
        if q.op != 'agg' or q.args[0] != 'opening': K.undecided += 1; c.undecided(what, 'not an opening of one oracle'); continue
        K.same('%s are at the index of %s' % (what, n), fld(q, 'index'), s.friproof(n)[2], key='%s position' % what, where=s.where_p)
        K.same('%s are of a vector as long as the domain of %s' % (what, n), length(fld(q, 'values')), length(s.friproof(n)[1]), key='%s domain' % what, where=s.where_p)
def check(c):
    c.rule('bytes_to_challenge_index is brought into closed form for an arbitrary 64-bit challenge word (split by parity) and arbitrary power-of-two size and factor; every outcome must be odd and below the size. In Prover::prove and Verifier::verify (applied to the proof) '
           'the index of each low-degree part must be that function of the challenge drawn after all earlier messages, the size of the opened vector and the expansion factor.')
    c.assume('lde_factor is a power of two, at least 2 and at most the domain size (precondition of the statement)')
    K = Compare(c)
    for what, f in (('bytes_to_challenge_index', index), ('Prover::prove and Verifier::verify', sides)):
        try: f(c, K)
        except Unsupported as e: K.undecided += 1; c.undecided(what, str(e)[:300])
    c.floor('value equations', c.counts.get('value equations', 0), 12 if not K.undecided else 0)
