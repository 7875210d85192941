"""FRI provers: the recursion over layers that a proving function performs, as step and initial values."""
from .protocol import *
from engine.seqs import simp_cond
from .friproof import COMBINER

LF, OUT, D0, IDX = sym('LF'), sym('OUT'), sym('D0'), sym('index')
IOP_ = 'crate::iop::IOP::'
N0 = mul(D0, LF)
FOLDS = sym('FOLDS')        # the number of folds as a power of two: degree / output degree
DEG = mul(OUT, FOLDS); NV = mul(DEG, LF)
half = lambda x: mul(x, mkP({(): Fraction(1, 2)}))
PROTO = '::FRIProofPrototype'
def app(nm, *a): return mk('app', nm, tuple(a))
def iop_models():
    h = {IOP_ + x: opaque(x) for x in ('create', 'get_root', 'query', 'encode_root_into_challenge', 'verify_query')}
    # the challenge of an oracle is that of its root (decided for the concrete scheme by C06)
    h[IOP_ + 'get_challenge_scalar_from_root'] = lambda ex, a, st, t: app('encode_root_into_challenge', app('get_root', ex.full(st, a[0])))
    h[IOP_ + 'get_for_natural_index'] = lambda ex, a, st, t: get(ex.full(st, a[0]), ex.full(st, a[1]))
    return h
def chal(values): return app('encode_root_into_challenge', app('get_root', app('create', values)))
class Layers:
    """a proving function applied to values of length OUT*FOLDS*LF: s.out is the prototype it returns"""
    def __init__(s, K, suffix):
        P = K.P; s.K = K
        l = [n for n in P.bodies if n.endswith(suffix)]
        if len(l) != 1: raise Unsupported('%d functions named %s' % (len(l), suffix))
        s.body = b = P.bodies[l[0]]; s.name = l[0].split('::')[-1]
        A = [x.get('n') or 'arg%d' % i for i, x in enumerate(b.locals) if 1 <= i <= b.argc]
        terms.POW2.update((FOLDS, LF, OUT))
        h = iop_models(); h.update(poly_models(P))
        s.input = tab(NV, lambda i: mk('get', sym('v'), i))
        r, m, s.ex = K.value(l[0], {A[0]: lambda: polynomial(vec('v', NV)), A[1]: LF, A[2]: OUT}, opaque=h, pow2=(FOLDS, LF, OUT), ints=(), **COMBINER)
        terms.DEADLINE[0] = None
        s.where = '%s:%s: ' % (b.file, b.line)
        RES = 'core::result::Result'
        p = isvar(r, RES, 'Ok')
        s.given = list(p.args[0]) if p.op == 'and' else [p]
        d = {x: TRUE for x in s.given}; d.update({NOT(x): FALSE for x in s.given})
        s.out = transform(fld(r, '0', 'Ok'), lambda x: d.get(x) or (simp_cond(x) if x.op in ('lt0', 'eq0') else None))
        if s.out.op != 'agg': raise Unsupported('%s returns no single closed form' % s.name)
    def steps(s): return log2(FOLDS)
    def field(s, n):
        fs = [x for x, _ in s.out.args[2]]
        if n not in fs: raise Unsupported('field %s is gone' % n)
        return fld(s.out, n)
    def values(s, i): return coeffs(get(s.field('intermediate_values'), i))
    def family(s, ts):
        """the recurrence the terms are computed from: (initial values, step as a function of the round and the state)"""
        recs = {(x.args[2], x.args[3]) for t in ts for x in subterms(t) if x.op == 'rec'}
        if len(recs) != 1: raise Unsupported('%d recurrences over the layers' % len(recs))
        inits, lam = recs.pop(); s.lam = lam
        def step(i, state):
            b = apply(lam, i)
            for x in state: b = apply(b, x)
            return [fld(b, str(j)) if len(inits) > 1 else b for j in range(len(inits))]
        return inits, step
def opened(q, K, what, kind):
    """obligations: the initial state, and one round from an arbitrary state, of the recursion a proving function performs.
    kind 'values': the layer is folded in evaluation form; 'coefficients': in coefficient form and extended"""
    c = K.c
    i = sym('round'); seqs.INTS.add(i); BOUND[i] = q.steps()
    K.ctx['ints'] = tuple(K.ctx['ints']) + (i,)
    K.given = [le(add(i, ONE), q.steps()), le(TWO, LF)]
    size = mul(NV if kind == 'values' else DEG, power(TWO, neg(i)))
    osize = mul(NV, power(TWO, neg(i)))
    V = q.values(i)
    inits, step = q.family([V])
    vec_ = lambda nm, n: tab(n, lambda k: mk('get', app(nm, i), k))
    O = vec_('layer', osize); L = O if kind == 'values' else vec_('coefficients', size)
    first = q.input if kind == 'values' else tab(DEG, lambda k: mk('app', 'IFFT', (q.input, k)))
    main = [j for j, x in enumerate(inits) if x.op == 'tab' and x.op == first.op and (x is first or len(inits) == 1 or norm(x) is norm(first))]
    if not main: main = [j for j, x in enumerate(inits) if x.op in ('tab', 'concat', 'upd')]
    if len(main) != 1: raise Unsupported('no layer among the state of the loop')
    m = main[0]
    K.same('%s: first layer' % what, inits[m], first, key='%s first layer' % what, where=q.where)
    state = [L if j == m else replace(x, {q.input: O}) for j, x in enumerate(inits)]
    new = step(i, state)
    rs = {x: state[as_num(x.args[0])] for x in subterms(V) if x.op == 'rec' and x.args[1] is i}
    W = replace(V, rs)
    if any(x.op == 'rec' for x in subterms(W)): raise Unsupported('a layer is not computed from the state of its round')
    a = chal(O)
    if kind == 'values':
        w = power(MD.ROOT, power(TWO, sub(S, log2(NV))))
        def f(k):
            x, y = get(O, k), get(O, add(k, half(osize)))
            return half(add(add(x, y), mul(a, mul(sub(x, y), inv(power(w, mul(k, power(TWO, i))))))))
        F = tab(half(size), f); Vspec = F
    else:
        F = tab(half(size), lambda k: add(get(L, mul(TWO, k)), mul(a, get(L, add(ONE, mul(TWO, k))))))
        Vspec = tab(half(osize), lambda k: mk('app', 'LDE', (F, LF, k)))
    K.same('%s: a round folds the layer' % what, W, Vspec, key='%s fold' % what, where=q.where)
    K.same('%s: the next round starts from the folded layer' % what, new[m], F, key='%s next layer' % what, where=q.where)
    for j, x in enumerate(inits):
        if j == m: continue
        if x.fs & {i}: raise Unsupported('initial state depends on the round')
        if q.input not in subterms(x): K.undecided += 1; c.undecided('%s: challenge' % what, 'state %s does not come from the first oracle' % show(x)[:200]); continue
        K.same('%s: challenge of the next round' % what, new[j], replace(x, {q.input: W}), key='%s next challenge' % what, where=q.where)
    ch = q.field('challenges')
    K.same('%s: the challenges of the prototype are those of its layers' % what, tab(length(ch), lambda j: get(ch, j)), tab(q.steps(), lambda j: mkite(eq0(j), chal(q.input), chal(q.values(sub(j, ONE))))), key='%s challenges' % what, where=q.where)
    fc = q.field('final_coefficients'); last = sub(q.steps(), ONE)
    if kind == 'values':
        K.given = K.given[1:] + [le(TWO, FOLDS)]
        Vl = q.values(last); R = [x for x in subterms(fc) if x.op == 'rec' and x.args[1] is q.steps() and as_num(x.args[0]) == m]
        if len(R) == 1 and R[0].args[2:] == (inits, q.lam): Vl = R[0]          # the layer after the last round
        K.same('%s: final coefficients' % what, fc, tab(OUT, lambda k: mk('app', 'IFFT', (Vl, k))), key='%s final coefficients' % what, where=q.where)
    elif fc.op == 'rec' and fc.args[1:] == (q.steps(), inits, q.lam) and as_num(fc.args[0]) == m: c.ob('%s: final coefficients' % what, True, sample='the layer after the last round')
    else: K.undecided += 1; c.undecided('%s: final coefficients' % what, 'not the state after the last round: %s' % show(fc)[:200])
    return inits, state, m
