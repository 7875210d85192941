"""C14: prover and verifier form the same DEEP quotients."""
from .session import *

def check(c):
    c.rule('Prover::prove is brought into closed form for an arbitrary instance, witness and challenges, and Verifier::verify is applied to the proof. At an arbitrary index the value of each evaluation vector submitted to the low-degree test is compared with the value '
           'the verifier recomputes from the openings, and both with the definition: the weighted sum over all masks of (f(x) - f(mask z))/(x - mask z), and (g(x) - g(z))/(x - z); the claimed values with the evaluations of the witness polynomials at mask z.')
    c.assume('Openings of a committed vector carry its values (C08, C30); the composition value at z that the verifier derives is that of the committed polynomial (C13)')
    K = Compare(c)
    try: s = Session(K, composition=True)
    except Unsupported as e: c.undecided('Prover::prove and Verifier::verify', str(e)[:300]); return
    K.given = [x for x in s.given if not any(y.op == 'app' and y.args[0] in ('fri fails', 'opening fails') for y in subterms(x))]
    batches = ssum(NB, lambda b: at('batch_size', b))
    pos = add(add(add(NREG, mul(TWO, batches)), mul(TWO, NBC)), ONE)          # messages and challenges before the out-of-domain point
    z = app('CH', pos)
    W = lambda r: tab(CD, lambda i: at('w', r, i))
    weight = lambda i: app('CH', add(add(add(pos, ONE), NM), i))
    def point(n, k): return power(MD.ROOT, mul(power(TWO, sub(S, log2(n))), k))
    def f(i): return app('EVAL', W(at('mask_reg', i)), mul(at('mask', i), z))
    n1, n2 = mul(CD, FAC), mul(GD, FAC)
    K.same('claimed values', s.part('f_at_z_m'), tab(NM, f), key='claimed values', where=s.where_p)
    def h1(k): return ssum(NM, lambda i: mul(weight(i), mul(sub(app('LDE', W(at('mask_reg', i)), FAC, k), f(i)), inv(sub(point(n1, k), mul(at('mask', i), z))))))
    for n, size in (('fri_proof_h1', n1), ('fri_proof_h2', n2)):
        try: proto, values, idx = s.friproof(n); vi, vv = s.checked(n)
        except Unsupported as e: K.undecided += 1; c.undecided(n, str(e)); continue
        g = None
        if n == 'fri_proof_h2':
            # the composition polynomial: its extension is the vector behind the composition root
            q = s.part('g_query')
            lde = fld(q, 'values')
            gs = {x.args[1][0] for x in subterms(get(lde, idx)) if x.op == 'app' and x.args[0] == 'LDE' and x.args[1][1] is FAC and length(x.args[1][0]) is GD}
            if len(gs) != 1: K.undecided += 1; c.undecided(n, 'the composition polynomial was not recognised'); continue
            g = gs.pop(); gz = app('EVAL', g, z)
            d = lambda t: transform(t, lambda x: gz if x.op == 'app' and x.args[0] == 'COMPOSITION' else None)
            spec = lambda k: mul(sub(app('LDE', g, FAC, k), gz), inv(sub(point(n2, k), z)))
        else: d = lambda t: t; spec = h1
        K.same('%s: values submitted to the low-degree test' % n, fld(proto, 'values'), tab(size, spec), key='%s submitted' % n, where=s.where_p)
        K.same('%s: values opened' % n, values, tab(size, spec), key='%s opened' % n, where=s.where_p)
        K.same('%s: value recomputed by the verifier' % n, d(vv), spec(idx), key='%s recomputed' % n, where=s.where_v)
    c.floor('value equations', c.counts.get('value equations', 0), 7 if not K.undecided else 0)
