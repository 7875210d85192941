"""C01: prover and verifier drive the transcript in lockstep."""
from .session import *

def drawn(t):
    """the positions of the challenges occurring in t; bound variables by order of nesting"""
    out = set()
    for x in subterms(t):
        if x.op == 'app' and x.args[0] in ('CH', 'CHB'):
            x = norm(x); vs = sorted(terms.bvs(x), key=lambda b: -b.args[0])
            out.add(norm(replace(x, {v: sym('i%d' % k) for k, v in enumerate(vs)})))
    return out
def check(c):
    c.rule('The transcript is modelled as the sequence of absorbed messages and drawn challenges, a challenge as a function of its position. Prover::prove is brought into closed form for an arbitrary instance and witness, '
           'Verifier::verify is applied to the proof it returns, and the two sequences before every query index are compared as symbolic sequences; so are the challenge positions that enter indices and quotients on both sides.')
    c.assume('Openings of a committed vector verify against its root (C08); the FRI proof carries roots and coefficients of its prototype (C30)')
    K = Compare(c)
    try: s = Session(K)
    except Unsupported as e: c.undecided('Prover::prove and Verifier::verify', str(e)[:300]); return
    K.given = [x for x in s.given if not any(y.op == 'app' and y.args[0] in ('fri fails', 'opening fails') for y in subterms(x))]
    c.ob('both draw the same number of query challenges', len(s.plogs) == len(s.vlogs), '%sthe prover draws %d challenge byte strings, the verifier %d' % (s.where_v, len(s.plogs), len(s.vlogs)), key='number of query challenges')
    for k, (a, b) in enumerate(zip(s.plogs, s.vlogs)):
        K.same('messages and challenges before query challenge %d' % (k + 1), b, a, key='transcript before query challenge %d' % (k + 1), where=s.where_v)
    for n in ('fri_proof_h1', 'fri_proof_h2'):
        try: proto, values, idx = s.friproof(n); vi, vv = s.checked(n)
        except Unsupported as e: K.undecided += 1; c.undecided(n, str(e)); continue
        K.same('query index of %s' % n, vi, idx, key='query index of %s' % n, where=s.where_v)
        mine, its = drawn(get(values, idx)), drawn(vv)
        skip = drawn(idx) | drawn(vi)
        what = 'challenges entering the quotient checked by %s' % n
        c.count('challenge sets')
        if mine - skip == its - skip: c.ob(what, True, sample=', '.join(sorted(show(x)[:80] for x in its - skip))[:300]); continue
        e = K.differ(get(values, idx), vv)
        if e[0] == 'differ' and not any(x.op in UNRESOLVED for x in subterms(vv)):
            c.ob(what, False, '%sthe prover uses %s, the verifier %s' % (s.where_v, ', '.join(sorted(show(x) for x in mine - its))[:300], ', '.join(sorted(show(x) for x in its - mine))[:300]), key=what)
        else: K.undecided += 1; c.undecided(what, 'not compared (%s)' % e[0])
    c.floor('value equations', c.counts.get('value equations', 0), 4 if not K.undecided else 0)
