"""C30: an honest proof assembles matching oracles, roots, openings and layers."""
from .session import *
from . import friprover as FP
from .friprover import Layers, iop_models, COMBINER, PROTO

def proof_parts(c, K):
    s = Session(K, composition=True)
    K.given = [x for x in s.given if not any(y.op == 'app' and y.args[0] in ('fri fails', 'opening fails') for y in subterms(x))]
    fq, fr, gq, gr = (s.part(n) for n in ('f_queries', 'f_iop_roots', 'g_query', 'g_iop_root'))
    root = lambda v: app('ROOT', v)
    idx = {}
    for k, n in ((0, 'fri_proof_h1'), (1, 'fri_proof_h2')):
        proto, values, i = s.friproof(n); idx[n] = i
        K.same('%s opens the layers of its own commitment' % n, values, fld(proto, 'values'), key='%s values' % n, where=s.where_p)
        rn = 'h%d_iop_roots' % (k + 1)
        K.same('%s are the roots of the layers of %s' % (rn, n), s.part(rn), tab(app('num_layers', proto), lambda j: app('LAYERROOT', proto, j)), key=rn, where=s.where_p)
        if k < len(s.plogs):
            size = length(fld(proto, 'values'))
            K.same('%s is opened at the position drawn after everything before it was absorbed' % n, i, app('INDEX', app('CHB', length(s.plogs[k])), size, FAC), key='%s position' % n, where=s.where_p)
    K.same('one opening for every witness root', length(fq), length(fr), key='number of openings', where=s.where_p)
    K.same('one root for every register', length(fr), NREG, key='number of roots', where=s.where_p)
    i = sym('register'); BOUND[i] = NREG; seqs.INTS.add(i)
    K.ctx['ints'] = tuple(K.ctx['ints']) + (i,)
    given = list(K.given); K.given = given + [lt(i, NREG)]
    q, r = get(fq, i), get(fr, i)
    W = lambda r_: tab(CD, lambda k: at('w', r_, k))
    K.same('witness root i commits to the extension of register i', r, root(tab(mul(CD, FAC), lambda k: app('LDE', W(i), FAC, k))), key='witness roots', where=s.where_p)
    for what, q, r, ix in (('witness opening i', q, r, idx['fri_proof_h1']), ('the composition opening', gq, gr, idx['fri_proof_h2'])):
        if q.op != 'agg' or q.args[0] != 'opening': K.undecided += 1; c.undecided(what, 'not an opening of one oracle'); continue
        K.same('%s is of the oracle whose root is carried' % what, root(fld(q, 'values')), r, key='%s oracle' % what, where=s.where_p)
        K.same('%s takes its value from the committed vector' % what, fld(q, 'leafs'), fld(q, 'values'), key='%s values' % what, where=s.where_p)
        K.same('%s is at the queried position' % what, fld(q, 'index'), ix, key='%s position' % what, where=s.where_p)
    K.given = given
    # every test of the verifier on roots, openings and paths is met
    bad = [x for x in s.lits if any(y.op == 'app' and y.args[0] in ('ROOT', 'LAYERROOT', 'PATH', 'FINAL') for y in outside(x))]
    for x in bad: K.holds('a test of the verifier on the parts of the proof', x, key='verifier test', where=s.where_v)
    c.count('tests of the verifier', len(s.lits))
    if s.acc is FALSE: c.ob('the verifier\'s tests on roots and openings are met', False, s.where_v + 'the verifier rejects every proof the prover returns', key='verifier test')
    elif not bad: c.ob('the verifier\'s tests on roots and openings are met', True, sample='%d tests remain, none on roots, openings or paths' % len(s.lits))
def outside(x):
    """subterms that are not arguments of a challenge, an index or a low-degree test"""
    out = []; work = [x]; seen = set()
    while work:
        t = work.pop()
        if t in seen: continue
        seen.add(t); out.append(t)
        if t.op == 'app' and t.args[0] in ('CH', 'CHB', 'INDEX', 'FRI'): continue
        work += list(terms._walk_children(t.args))
    return out
def layers(c, K, suffix):
    q = Layers(K, suffix); nm = suffix[2:]
    i = sym('round'); seqs.INTS.add(i); BOUND[i] = q.steps()
    K.ctx['ints'] = tuple(K.ctx['ints']) + (i,); K.given = [lt(i, q.steps()), le(TWO, FP.FOLDS)]
    create = lambda v: app('create', v)
    cs, vs = q.field('intermediate_commitments'), q.field('intermediate_values')
    K.same('%s: the first commitment is to the submitted values' % nm, q.field('l0_commitment'), create(q.input), key='%s first commitment' % nm, where=q.where)
    K.same('%s: one commitment for every round' % nm, length(cs), q.steps(), key='%s commitments' % nm, where=q.where)
    K.same('%s: one layer for every round' % nm, length(vs), q.steps(), key='%s layers' % nm, where=q.where)
    K.same('%s: commitment i is to layer i' % nm, get(cs, i), create(coeffs(get(vs, i))), key='%s commitment of a layer' % nm, where=q.where)
    K.same('%s: layer i has half the size of the one before' % nm, length(coeffs(get(vs, i))), mul(FP.half(FP.NV), power(TWO, neg(i))), key='%s layer size' % nm, where=q.where)
    K.same('%s: the final root is that of the last layer' % nm, q.field('final_root'), app('get_root', create(q.values(sub(q.steps(), ONE)))), key='%s final root' % nm, where=q.where)
    for f, v in (('initial_degree_plus_one', FP.DEG), ('output_coeffs_at_degree_plus_one', FP.OUT), ('lde_factor', FP.LF)):
        K.same('%s: %s' % (nm, f), q.field(f), v, key='%s %s' % (nm, f), where=q.where)
def entry(c, K):
    """the FRI entry point hands its arguments to one of the two provers"""
    P = K.P
    l = [n for n in P.bodies if n.endswith('NaiveFriIop<F, I> as fri::FriIop<F>>::proof_from_lde')]
    if len(l) != 1: raise Unsupported('%d implementations of proof_from_lde' % len(l))
    b = P.bodies[l[0]]; A = [x.get('n') or 'arg%d' % i for i, x in enumerate(b.locals) if 1 <= i <= b.argc]
    run = lambda ex, a, st, t: mk('app', 'FRI proof', tuple(ex.full(st, x) for x in a[:3]))
    h = {n: run for n in P.bodies if n.endswith('::proof_from_lde_by_values') or n.endswith('::proof_from_lde_through_coefficients')}
    K.given = []
    K.fn(l[0], {A[0]: lambda: polynomial(vec('v', FP.NV)), A[1]: FP.LF, A[2]: FP.OUT}, ret=lambda: mk('app', 'FRI proof', (polynomial(vec('v', FP.NV)), FP.LF, FP.OUT)), opaque=h, key='entry point', **({'pow2': (FP.LF, FP.OUT)}))
def openings(c, K):
    """the openings of a prototype, layer by layer"""
    P = K.P; K.given = []
    l = [n for n in P.bodies if n.endswith('NaiveFriIop<F, I> as fri::FriIop<F>>::prototype_into_proof')]
    if len(l) != 1: raise Unsupported('%d implementations of prototype_into_proof' % len(l))
    b = P.bodies[l[0]]; A = [x.get('n') or 'arg%d' % i for i, x in enumerate(b.locals) if 1 <= i <= b.argc]
    where = '%s: ' % b.file
    LF, OUT, FOLDS, IDX, NV = FP.LF, FP.OUT, FP.FOLDS, FP.IDX, FP.NV
    steps = log2(FOLDS); size = lambda k: mul(NV, power(mkP({(): Fraction(1, 2)}), k))
    layer = lambda k: mkite(eq0(k), tab(NV, lambda j: mk('get', sym('v'), j)), tab(size(k), lambda j: mk('get', mk('get', sym('layers'), sub(k, ONE)), j)))
    com = lambda k: mkite(eq0(k), sym('l0'), mk('get', sym('coms'), sub(k, ONE)))
    def proto():
        return struct(P, next(x for x in P.adts if x.endswith(PROTO)), l0_commitment=sym('l0'), intermediate_commitments=vec('coms', steps),
            intermediate_values=tab(steps, lambda i: polynomial(tab(size(add(i, ONE)), lambda k: mk('get', mk('get', sym('layers'), i), k)))),
            initial_degree_plus_one=FP.DEG, output_coeffs_at_degree_plus_one=OUT, lde_factor=LF, final_coefficients=tab(OUT, lambda i: mk('get', sym('fc'), i)), challenges=vec('chs', steps), final_root=sym('final_root'))
    h = iop_models(); h.update(poly_models(P))
    kw = dict(opaque=h, pow2=(FOLDS, LF, OUT), ints=(IDX,), **COMBINER)
    F = [lambda: le(TWO, LF), lambda: le(add(IDX, ONE), NV)]
    r, m, ex = K.value(l[0], {A[0]: proto, A[1]: lambda: polynomial(vec('v', NV)), A[2]: IDX}, facts=F, **kw)
    terms.DEADLINE[0] = None
    RES = 'core::result::Result'
    p = isvar(r, RES, 'Ok'); r = fld(r, '0', 'Ok')
    from engine.seqs import simp_cond
    r = transform(r, lambda x: simp_cond(x) if x.op in ('lt0', 'eq0') else None)
    if r.op != 'agg': raise Unsupported('the openings have no single closed form')
    c.ob('the openings of a prototype never fail', p is TRUE or p.op in ('and', 'not'), where + show(p)[:200], key='openings fail') if p is FALSE else None
    fs = [x for x, _ in r.args[2]]
    n = size; pos = lambda k: imod(IDX, n(k)); other = lambda k: imod(add(IDX, idiv(n(k), TWO)), n(k))
    rounds = add(steps, ONE)
    k = sym('layer'); seqs.INTS.add(k); BOUND[k] = rounds
    K.ctx['ints'] = tuple(K.ctx['ints']) + (k,); K.given = [lt(k, rounds), le(TWO, LF), lt(IDX, NV)]
    for f in ('queries', 'roots', 'final_coefficients', 'initial_degree_plus_one', 'output_coeffs_at_degree_plus_one', 'lde_factor'):
        if f not in fs: raise Unsupported('field %s is gone' % f)
    q, ro = fld(r, 'queries'), fld(r, 'roots')
    K.same('two openings for every layer', length(q), mul(TWO, rounds), key='number of layer openings', where=where)
    rootspec = concat(lit(app('get_root', sym('l0'))), tab(steps, lambda j: app('get_root', mk('get', sym('coms'), j))))
    K.same('one root for every layer', ro, rootspec, key='layer roots', where=where)
    pair_ = lambda k, j: mkite(lt0(sub(other(k), pos(k))), other(k) if j == 0 else pos(k), pos(k) if j == 0 else other(k))
    spec = concat(lit(*[app('query', sym('l0'), pair_(ZERO, j), layer(ZERO)) for j in (0, 1)]),
                  flatten(steps, lambda i: lit(*[app('query', mk('get', sym('coms'), i), pair_(add(i, ONE), j), tab(size(add(i, ONE)), lambda j_: mk('get', mk('get', sym('layers'), i), j_))) for j in (0, 1)])))
    K.same('every layer is opened at the full coset of the current position', q, spec, key='layer openings', where=where)
    for f, v in (('final_coefficients', tab(OUT, lambda i: mk('get', sym('fc'), i))), ('initial_degree_plus_one', FP.DEG), ('output_coeffs_at_degree_plus_one', OUT), ('lde_factor', LF)):
        K.same('the proof carries the %s of its prototype' % f, fld(r, f), v, key='proof %s' % f, where=where)
    # what the two sides read
    K.given = []
    pr = struct(P, next(x for x in P.adts if x.endswith('::FRIProof')))
    for suffix, arg, v in (('FriProofPrototype<F, I>>::get_roots', proto, lambda: rootspec), ('FriProofPrototype<F, I>>::get_final_coefficients', proto, lambda: tab(OUT, lambda i: mk('get', sym('fc'), i))),
                           ('FriProof<F, I>>::get_roots', lambda: r, lambda: ro), ('FriProof<F, I>>::get_final_coefficients', lambda: r, lambda: tab(OUT, lambda i: mk('get', sym('fc'), i))),
                           ('FriProof<F, I>>::get_initial_degree_plus_one', lambda: r, lambda: FP.DEG), ('FriProof<F, I>>::get_lde_factor', lambda: r, lambda: LF)):
        for nm in sorted(x for x in P.bodies if x.endswith('fri::' + suffix)):
            bb = P.bodies[nm]
            K.fn(nm, {bb.locals[1].get('n') or 'arg1': arg}, ret=v, key=suffix, **kw)
def flatten(n, f):
    i = fresh('i'); BOUND[i] = n
    return mk('flat', n, close(i, f(i)))
def check(c):
    c.rule('Prover::prove, the FRI proving functions and the query phase of FRI are brought into closed form for arbitrary inputs. Each carried root, opening and layer is compared with what it must be made of: openings of the oracle whose root is carried, from the committed '
           'values, at the position drawn from the transcript; commitment i made of layer i, which has half the size of the one before; in each layer both members of the coset of index mod size, under that layer\'s root. No test of the verifier on roots, openings or paths may fail on such a proof.')
    c.assume('An opening of a committed vector verifies against the root of that vector (C08, C09)')
    K = Compare(c)
    for what, f in (('Prover::prove', lambda: proof_parts(c, K)), ('proof_from_lde_by_values', lambda: layers(c, K, '::proof_from_lde_by_values')), ('proof_from_lde_through_coefficients', lambda: layers(c, K, '::proof_from_lde_through_coefficients')), ('FRI openings', lambda: openings(c, K)), ('FRI entry point', lambda: entry(c, K))):
        try: f()
        except Unsupported as e: K.undecided += 1; c.undecided(what, str(e)[:300])
    c.floor('value equations', c.counts.get('value equations', 0), 40 if not K.undecided else 0)
