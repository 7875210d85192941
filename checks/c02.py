"""C02: every challenge is drawn after the prover messages it must depend on."""
from .claim import *
from .friproof import DEGREE

W_, G_, Z_ = 'witness roots', 'composition root', 'out-of-domain values'
def out_of_domain(q):
    """the challenges in the denominators of the quotients of the first low-degree proof"""
    zs = set()
    skip = set(subterms(q.idx[0]))
    def f(x):
        if x in skip: return False
        if x.op == 'P':
            for m, k in poly(x).items():
                for a, e in m:
                    if e.op == 'P' and as_num(e) is not None and as_num(e) < 0 if not isinstance(e, (int, Fraction)) else e < 0: zs.update(y for y in q.logs(a, ('CH', 'CHB'), skip=skip))
        if x.op == 'app' and x.args[0] in ('CH', 'CHB'): return False
    binder_walk(q.val[0], f)
    return zs
def uses(x, y):
    """the value y occurs in x"""
    if x == y: return True
    if isinstance(x, evalt.Op): return any(uses(k, y) for k in x.k)
    if isinstance(x, Agg): return any(uses(k, y) for k in x.f)
    return isinstance(x, tuple) and any(uses(k, y) for k in x)
DIRECT = {'FRI layer roots of h1': app('get_roots', PROOF1), 'FRI layer roots of h2': app('get_roots', PROOF2)}
def check(c):
    c.rule('The transcript is modelled as the sequence of absorbed messages and drawn challenges. In the acceptance condition of Verifier::verify, for an arbitrary proof and instance, the messages absorbed before each challenge that enters a query index, '
           'an opening point or a weight are compared, as symbolic sequences, with the proof parts that must precede it; and acceptance must imply that the absorbed FRI roots are those of the FRI proof that is verified.')
    c.assume('A challenge depends on every message absorbed before it (C10)')
    K = Compare(c)
    try: q = Claim(K)
    except Unsupported as e: c.undecided('Verifier::verify', str(e)[:300]); return
    if any(x is None for x in q.idx + q.val): c.undecided('Verifier::verify', 'the low-degree checks have no single index and value'); return
    worlds = []
    for m in ({}, dict(queries=1, roots=1, evaluations=1, registers=1)):
        for salt in range(4):
            try:
                e = q.world(salt, **m)
                if e.bool(q.acc): worlds.append(e); break
            except Skip: pass
    zs = out_of_domain(q)
    ordered = lambda l: sorted(dict.fromkeys(l), key=lambda t: t.id)
    groups = [('a query index', [x for t in q.idx for x in q.logs(t, ('CH', 'CHB'))], list(MESSAGES)),
              ('the out-of-domain point', zs, [W_, G_]),
              ('an opening weight', [x for x in q.logs(q.val[0], ('CH', 'CHB'), skip=set(subterms(q.idx[0])) | zs)], [W_, G_, Z_]),
              ('a constraint weight', [x for x in q.logs(q.val[1], ('CH', 'CHB'), skip=set(subterms(q.idx[1])) | zs)], [W_])]
    for what, chs, need in groups:
        chs = ordered(chs)
        if not chs: K.undecided += 1; c.undecided(what, 'no challenge of this kind was recognised'); continue
        for ch in chs:
            log = ch.args[1][0]; c.count('challenges')
            for n in need:
                kind, x = MESSAGES[n]; title = '%s is absorbed before %s is drawn' % (n, what)
                if covered(log, kind, x) or n in DIRECT and covered(log, kind, DIRECT[n]): c.ob(title, True, sample='%s' % show(log, lim=4)[:150]); continue
                free = [v for v in subterms(log) if v.op == 'var']
                bad = None
                for e in worlds:
                    try:
                        l = replace(log, {v: ZERO for v in free}); y = absent(e, l, kind, x)
                        if y is not None and not any(uses(m, y) for m in e.seq(l)): bad = y; break
                    except (Skip, RecursionError, TypeError): pass
                if bad is not None: c.ob(title, False, '%s%s is drawn before %s is absorbed: the messages before it are %s' % (q.where, what, n, show(log, lim=8)[:500]), key='%s before %s' % (n, what)); continue
                K.undecided += 1; c.undecided(title, 'the absorbed messages %s were not shown to contain it' % show(log, lim=6)[:200])
    for p, n, x, k in ((PROOF1, 'h1', sym('h1_iop_roots'), 2), (PROOF2, 'h2', sym('h2_iop_roots'), 3)):
        mods = [('layer %d of the FRI proof of %s differs from the absorbed root' % (i, n), dict(layers={'p%s' % n[1]: tuple(Op(n, j) if j != i else Op('other', j) for j in range(k))})) for i in range(k)]
        mods += [('one layer more in the FRI proof of %s than absorbed' % n, dict(layers={'p%s' % n[1]: tuple(Op(n, j) for j in range(k)) + (Op('other', k),)})), ('one layer less in the FRI proof of %s than absorbed' % n, dict(layers={'p%s' % n[1]: tuple(Op(n, j) for j in range(k - 1))}))]
        whole = eq(x, app('get_roots', p))
        if any(covered(y.args[1][0], 'bytes', app('get_roots', p)) for y in groups[0][1]): c.ob('the FRI roots of %s are absorbed directly' % n, True); c.count('requirements'); continue
        q.require('the absorbed FRI roots of %s are those of its FRI proof' % n, whole if q.implied(whole) else AND(eq(length(x), length(app('get_roots', p))), forall(length(x), lambda i: eq(get(x, i), get(app('get_roots', p), i)))), 'FRI roots of ' + n, *mods)
    # what the accessors of a FRI proof return
    P = K.P; fields = {'get_roots': 'roots', 'get_final_coefficients': 'final_coefficients'}
    for nm in sorted(P.bodies):
        for g, f in fields.items():
            if nm.endswith('FriProof<F, I>>::' + g):
                s = sym('proof'); b = P.bodies[nm]; a = [l.get('n') or 'arg%d' % i for i, l in enumerate(b.locals) if 1 <= i <= b.argc]
                K.fn(nm, {a[0]: struct(P, next(n for n in P.adts if n.endswith('::FRIProof')), **{x: sym(x) for x in ('roots', 'final_coefficients', 'queries', 'initial_degree_plus_one', 'output_coeffs_at_degree_plus_one', 'lde_factor')})}, ret=lambda: sym(f), key=g)
    c.floor('accessors', c.counts.get('value equations', 0), 2)
    c.floor('challenges', c.counts.get('challenges', 0), 8); c.floor('requirements', c.counts.get('requirements', 0), 2)
