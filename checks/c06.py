"""C06: all FRI folding implementations compute the same fold."""
from .friprover import *
from .friproof import FriClaim
from .claim import Accept, accepted
from .hashes import *
from . import entail
from engine.evalt import Ev, Op, Fe, Skip

PR = evalt.p
class ProtoClaim(Accept):
    """acceptance of a prototype with arbitrary layers"""
    def __init__(s, K):
        P = K.P; s.K = K; s.c = K.c
        l = [n for n in P.bodies if n.endswith('::verify_prototype')]
        if len(l) != 1: raise Unsupported('%d functions named verify_prototype' % len(l))
        b = P.bodies[l[0]]; A = [x.get('n') or 'arg%d' % i for i, x in enumerate(b.locals) if 1 <= i <= b.argc]
        s.where = '%s:%s: ' % (b.file, b.line)
        terms.POW2.update((D0, LF, OUT))
        s.steps = steps = sub(log2(D0), log2(OUT)); s.size = lambda k: mul(N0, power(mkP({(): Fraction(1, 2)}), k))
        s.layer = lambda k, j: mkite(eq0(k), mk('get', sym('v'), j), mk('get', mk('get', sym('layers'), sub(k, ONE)), j))
        def proto():
            return struct(P, next(x for x in P.adts if x.endswith(PROTO)), l0_commitment=sym('l0'), intermediate_commitments=vec('coms', steps),
                intermediate_values=tab(steps, lambda i: polynomial(tab(s.size(add(i, ONE)), lambda k: mk('get', mk('get', sym('layers'), i), k)))),
                initial_degree_plus_one=D0, output_coeffs_at_degree_plus_one=OUT, lde_factor=LF, final_coefficients=tab(OUT, lambda i: mk('get', sym('fc'), i)), challenges=vec('chs', steps))
        h = iop_models(); h.update(poly_models(P))
        F = [lambda: le(TWO, LF), lambda: le(mul(TWO, OUT), D0), lambda: le(add(IDX, ONE), N0)]
        r, m, s.ex = K.value(l[0], {A[0]: proto, A[1]: lambda: polynomial(vec('v', N0)), A[2]: IDX}, opaque=h, pow2=(D0, LF, OUT), facts=F, ints=(IDX,), **COMBINER)
        terms.DEADLINE[0] = None
        s.acc = accepted(r); s.unresolved = {x.op for x in subterms(s.acc) if x.op in UNRESOLVED} | set(s.ex.unknown)
    def implied(s, r):
        terms.DEADLINE[0] = None
        return entail.holds(OR(NOT(s.acc), r))
    def world(s, salt=0, **mod):
        """a prototype whose layers are folded by the definition"""
        out, st, lf = mod['out'], mod['steps'], mod['lf']; D = out << st; N = D * lf; H = lambda *x: evalt.hnum(x, salt) % PR
        g = pow(evalt.GEN, (PR - 1) >> evalt.TWO_ADICITY, PR); gen = lambda n: pow(g, (1 << evalt.TWO_ADICITY) // n, PR)
        f = [H('c', i) for i in range(D)]; layers = []; chs = [H('a', i) for i in range(st)]
        def at_(f, x):
            r = 0
            for c in reversed(f): r = (r * x + c) % PR
            return r
        for k in range(st + 1):
            layers.append(tuple(Fe(at_(f, pow(gen(N >> k), j, PR))) for j in range(N >> k)))
            if k < st: f = [(f[2 * i] + chs[k] * f[2 * i + 1]) % PR for i in range(len(f) // 2)]
        asg = {D0: D, OUT: out, LF: lf, IDX: mod['index'], S: evalt.TWO_ADICITY, evalt.ROOT: Fe(g), evalt.GENS: Fe(evalt.GEN), sym('v'): layers[0], sym('layers'): tuple(layers[1:]), sym('fc'): tuple(Fe(x) for x in f), sym('chs'): tuple(Fe(x) for x in chs)}
        e = Ev(asg, evalt.int_atoms([s.acc]), salt, 1); e.world = {'overflows': lambda ev, *a: False}
        return e
def prototype(c, K):
    q = ProtoClaim(K)
    W = power(MD.ROOT, power(TWO, MD.monus(S, log2(N0))))
    lo = lambda k: imod(IDX, q.size(add(k, ONE)))
    def fold(k):
        a, b = lo(k), add(lo(k), q.size(add(k, ONE)))
        x, y = q.layer(k, a), q.layer(k, b)
        return half(add(add(x, y), mul(mk('get', sym('chs'), k), mul(sub(x, y), inv(power(W, mul(power(TWO, k), a)))))))
    c.count('requirements')
    last = sub(q.steps, ONE)
    point = power(W, mul(power(TWO, q.steps), imod(IDX, q.size(q.steps))))
    for what, r in (('verify_prototype: each layer is compared with the fold of the one before', forall(last, lambda k: eq(q.layer(add(k, ONE), imod(IDX, q.size(add(k, ONE)))), fold(k)))),
                    ('verify_prototype: the final coefficients are compared with the last fold', eq(fold(last), ssum(OUT, lambda i: mul(mk('get', sym('fc'), i), power(point, i)))))):
        if q.implied(r): c.ob(what, True, sample=show(r)[:150]); continue
        bad = None
        for out, st, lf in ((1, 1, 2), (2, 1, 2), (1, 2, 2), (2, 2, 2), (1, 3, 4)):
            for i in range(1, (out << st) * lf, 2):
                if q.accepts(out=out, steps=st, lf=lf, index=i) is False and bad is None: bad = (out, st, lf, i)
        if bad: c.ob(what, False, '%sthe derived acceptance condition is false for a prototype folded by the definition (%d final coefficients, %d foldings, factor %d, index %d)' % ((q.where,) + bad), key=what)
        else: K.undecided += 1; c.undecided(what, 'acceptance was not shown to imply it (%s)' % ', '.join(sorted(q.unresolved)))
def queries(c, K):
    q = FriClaim(K)
    n = q.size; pos = lambda k: imod(IDX, n(k)); other = lambda k: imod(add(IDX, idiv(n(k), TWO)), n(k))
    Q = lambda k, j: q.q(add(mul(TWO, k), num(j))); lower = lambda k: mkite(lt0(sub(other(k), pos(k))), other(k), pos(k))
    W = power(MD.ROOT, power(TWO, MD.monus(S, add(log2(D0), log2(LF)))))
    def fold(k):
        x, y = app('value', Q(k, 0)), app('value', Q(k, 1))
        return half(add(add(x, y), mul(app('encode_root_into_challenge', get(sym('roots'), k)), mul(sub(x, y), inv(power(W, mul(power(TWO, k), lower(k))))))))
    deep = q.thresholds()
    completed = [('the values that the verifier itself expects (index %d, %d folding steps, %d final coefficients)' % (i, st, o), dict(adapt=True, index=i, steps=st, out=o)) for st in [1, 2, 3, 4] + deep for o in (1, 2, 4) for i in (1, 3, 5, 7) if i < o * 2 << st]
    for j in (0, 1):
        q.require('verify_proof: opening %d of a folded layer is compared with the fold of the layer before' % j, forall(q.rounds, lambda k: OR(eq0(k), NOT(eq(app('natural_index', Q(k, j)), pos(k))), eq(app('value', Q(k, j)), fold(sub(k, ONE))))), 'verifier fold %d' % j, *completed)
    last = mkite(eq0(q.steps), sym('oracle_value'), fold(sub(q.steps, ONE)))
    point = power(W, mul(power(TWO, q.steps), pos(q.steps)))
    q.require('verify_proof: the final coefficients are compared with the last fold', eq(last, ssum(OUT, lambda i: mul(get(sym('final_coefficients'), i), power(point, i)))), 'verifier last fold', *completed)
def challenges(c, K):
    P = K.P
    for own in sorted({n[:-len('get_challenge_scalar_from_root')] for n in P.bodies if n.endswith('::get_challenge_scalar_from_root')}):
        a = {}
        for f in ('get_challenge_scalar_from_root', 'get_root', 'encode_root_into_challenge'):
            b = K.body(own + f); a[f] = b.locals[1].get('n') or 'arg1'
        op = hash_models()
        r, m, ex = K.value(own + 'get_root', {a['get_root']: sym('oracle')}, opaque=op, consts=CONSTS)
        w, m, ex = K.value(own + 'encode_root_into_challenge', {a['encode_root_into_challenge']: r}, opaque=op, consts=CONSTS)
        b = K.body(own + 'get_challenge_scalar_from_root')
        g, m, ex = K.value(own + 'get_challenge_scalar_from_root', {a['get_challenge_scalar_from_root']: sym('oracle')}, opaque=op, consts=CONSTS)
        K.same('%s: the prover\'s challenge is the one the verifier derives from the root' % own.replace('crate::', '').rstrip(':'), g, w, key='challenge of %s' % own, where='%s:%s: ' % (b.file, b.line))

def check(c):
    c.rule('Each FRI proving function is brought into closed form as a recurrence over its layers; the initial state and one round from an arbitrary state are compared with the fold (f(x)+f(-x))/2 + a (f(x)-f(-x))/(2x), x the element of the pair '
           'in that round\'s domain, respectively a_even + a a_odd, with a the challenge of that round\'s root; the verifying functions must imply the same equations, and the challenge the prover takes from an oracle must be the verifier\'s function of its root.')
    K = Compare(c)
    for nm, kind in (('::proof_from_lde_by_values', 'values'), ('::proof_from_lde_through_coefficients', 'coefficients')):
        try:
            q = Layers(K, nm); opened(q, K, nm[2:], kind)
        except Unsupported as e: K.undecided += 1; c.undecided(nm[2:], str(e)[:300])
    for what, f in (('verify_prototype', prototype), ('verify_proof', queries), ('challenge of a root', challenges)):
        try: K.given = []; f(c, K)
        except Unsupported as e: K.undecided += 1; c.undecided(what, str(e)[:300])
    c.floor('value equations', c.counts.get('value equations', 0), 8 if not K.undecided else 0)
