"""C22: a polynomial's cached domain data always matches its length."""
from .drivers import *

FIELDS = ('coeffs', 'exp', 'omega', 'omegainv', 'geninv', 'minv')
TAGS = {'polynomials::Coefficients': PC, 'polynomials::Values': PV}

def touchers(P):
    """functions that build a polynomial from parts, write one of its fields or hand out a mutable field"""
    r = {}
    for n, b in P.bodies.items():
        k = set()
        for x in b.reach():
            sts = [(st['r'], st['p']) for st in b.blocks[x]['s'] if st['k'] == 'asg']
            t = b.blocks[x]['t']
            if t['k'] == 'call': sts.append((dict(k='call'), t['d']))
            for q, p in sts:
                if q['k'] == 'agg' and q['kind'].get('adt') == POLY: k.add('builds')
                if any(e[0] == 'f' and e[1] in FIELDS for e in p['p']) and isadt(b.ty(p['l']), POLY): k.add('writes')
                if q['k'] == 'ref' and q.get('m') and any(e[0] == 'f' and e[1] in FIELDS for e in q['p']['p']) and isadt(b.ty(q['p']['l']), POLY): k.add('borrows')
        if k: r[n] = k
    return r

def polys(t):
    """polynomial values inside a result"""
    out, seen = [], set()
    def go(x):
        if x.id in seen: return
        seen.add(x.id)
        if x.op == 'agg' and x.args[0] == POLY: out.append(x); return
        for y in terms._walk_children(x.args): go(y)
    go(t)
    return out

def check(c):
    c.rule('Every function of the crate that builds a Polynomial from parts, writes a field of one, or borrows one mutably is enumerated from MIR. Each is brought into closed form for consistent inputs of symbolic size; '
           'in every polynomial it returns or leaves behind, the recorded exponent, generator, inverse generator, inverse size and coset shift inverse must be those of the subgroup whose order is the length of the stored vector, and that length must be a power of two. '
           'A mutable borrow of the storage may leave the crate only as a slice (whose length is fixed); no field is public.')
    c.assume('transforms keep the length of their argument (C28)', 'two-adicity: requests beyond it are errors (C25)')
    P = mir.Program(); K = Compare(c, P, opaque=TRANSFORMS)
    a = P.adts.get(POLY)
    if a is None: c.undecided('Polynomial', 'type is gone'); return
    for f in a['variants'][0]['f']:
        if f['n'] == 'coeffs': c.ob('field %s is not writable from outside' % f['n'], not f.get('pub'), 'src/polynomials/mod.rs: Polynomial.%s is public: any user can replace it without updating the others' % f['n'])
    T = touchers(P)
    c.count('functions that build or change polynomials', len(T))
    n, m = sym('n'), sym('m')
    def one(name, init, **kw):
        short = name.replace('crate::', '')
        try: r, mu, ex = K.value(name, init, **kw)
        except Unsupported as e: c.undecided(short, str(e)[:200]); K.undecided += 1; return
        b = P.bodies[name]
        done.update(x for x in ex.calls_seen); done.add(name)
        for what, v in [('result', r)] + sorted(mu.items()):
            if v is None: continue
            consistent(c, K, short, what, v, b)
        return r, mu
    done = set()
    A = lambda: polynomial(vec('c', n), n)
    for name in sorted(T) + [x for x in (PC + 'new_for_size', PV + 'new_for_size', PC + 'lde', PC + 'coset_lde', PC + 'coset_fft', PV + 'icoset_fft', PC + 'evaluate_at_domain_for_degree_one',
             PC + 'coset_evaluate_at_domain_for_degree_one', PC + 'lde_using_multiple_cosets', PC + 'coset_lde_using_multiple_cosets', PC + 'lde_using_multiple_cosets_naive', PC + 'coset_lde_using_multiple_cosets_naive') if x in P.bodies and x not in T]:
        b = P.bodies[name]
        short = name.replace('crate::', '')
        if b.is_closure(): continue                       # analysed inside the function that owns it
        if mir.is_derived(b):
            c.count('derived implementations (field by field)'); done.add(name); continue
        if 'from_roots' in name:
            c.undecided(short, 'the tree-shaped product has no closed form here; its result is built by from_coeffs'); continue
        init, p2, facts = {}, [], []
        sz = []
        for nm, ty in params(b):
            if isadt(ty, POLY):
                q = n if not p2 else m
                init[nm] = (lambda q=q, nm=nm: polynomial(vec(nm, q), q)); p2.append(q)
                if q is m: facts.append(le(m, n))
            elif isadt(ty, 'alloc::vec::Vec') or ty.get('k') == 'ref' and ty['t'].get('k') == 'slice':
                k = sym('len'); init[nm] = (lambda nm=nm, k=k: vec(nm, k))
            elif ty.get('s') == 'usize': sz.append(sym(nm)); init[nm] = sym(nm)
        if 'degree_one' in name: init['self'] = lambda: polynomial(lit(mk('get', sym('c'), ZERO), mk('get', sym('c'), ONE)), TWO); p2 = [sym('domain_size')]
        fs = facts + [le(log2(q), S) for q in p2]
        if 'lde' in name: p2 = p2 + sz
        if one(name, init, pow2=tuple(p2), facts=fs) is None: continue
    for name in sorted(T):
        b = P.bodies[name]
        if b.is_closure() and name.split('::{closure')[0] not in done: c.undecided(name.replace('crate::', ''), 'its owner was not analysed')
        if 'borrows' in T[name] and not b.is_closure():
            rt = b.ty(0)
            if rt.get('k') == 'ref' and rt['m']:
                c.ob('%s hands out a slice only' % name.replace('crate::', ''), rt['t'].get('k') == 'slice', '%s:%s: returns a mutable borrow that is not a slice: a caller can change the length of the storage' % (b.file, b.line))
    c.floor('polynomial values checked', c.counts.get('polynomial values checked', 0), 25 if not K.undecided else 0)

def params(b):
    return [(b.locals[l].get('n') or 'arg%d' % l, b.ty(l)) for l in range(1, b.argc + 1)]
def isadt(ty, s):
    while ty.get('k') == 'ref': ty = ty['t']
    return ty.get('k') == 'adt' and ty['s'] == s

def consistent(c, K, short, what, v, b):
    for conds, p in guarded(v):
        c.count('polynomial values checked')
        if any(x.op == 'mref' for x in subterms(p)): continue
        rec_cases(c, K, '%s (%s)' % (short, what), p, conds, '%s:%s: ' % (b.file, b.line))

def guarded(t, conds=()):
    """(conditions, polynomial) for every polynomial inside a result"""
    if t.op == 'agg' and t.args[0] == POLY: yield conds, t; return
    if t.op == 'ite':
        yield from guarded(t.args[1], conds + ((t.args[0], True),))
        yield from guarded(t.args[2], conds + ((t.args[0], False),)); return
    if t.op in ('agg', 'lit'):
        for x in terms._walk_children(t.args): yield from guarded(x, conds)

def rec_cases(c, K, what, p, conds, where, d=0):
    """compare in every case of the conditions inside the value"""
    import contextlib
    with contextlib.ExitStack() as es:
        for q, v in conds: es.enter_context(seqs.given(q if v else NOT(q)))
        p = assume(p, tuple(conds)) if conds else p
        added = [x for q, v in conds if v for x in power_of_two_fact(q) if x not in terms.POW2]
        for x in added: terms.POW2.add(x); es.callback(terms.POW2.discard, x)
        if added: p = resimp(p)
        q = next((y for y in (find_ind(fld(p, f)) if f != 'coeffs' else find_ind(length(fld(p, f))) for f in FIELDS) if y is not None), None)
        if q is None: q = find_ind(fld(p, 'coeffs')) if fld(p, 'coeffs').op == 'ite' else None
        if q is not None and d < 8:
            while q.op in ('and', 'or', 'not'): q = q.args[0][0] if isinstance(q.args[0], tuple) else q.args[0]
            for v in (True, False):
                rec_cases(c, K, what, p, tuple(conds) + ((q, v),), where, d + 1)
            return
        c.count('cases of polynomial values')
        L = resimp(norm(length(fld(p, 'coeffs'))))
        for nm, w in poly_fields(L):
            if nm == '_marker': continue
            K.same('%s: %s belongs to the length' % (what, nm), resimp(fld(p, nm)), resimp(w), where=where)
        if ispow2(L) is not TRUE:
            K.undecided += 1; c.undecided('%s: the length is a power of two' % what, show(L)[:200])

def power_of_two_fact(q):
    """atoms the condition says are powers of two: x = npow2(x)"""
    if q.op == 'and': return [x for y in q.args[0] for x in power_of_two_fact(y)]
    if q.op == 'ispow2': return [q.args[0]]
    if q.op != 'eq0': return []
    return [a.args[0] for a in subterms(q) if a.op == 'npow2' and (q.args[0] is sub(a, a.args[0]) or q.args[0] is sub(a.args[0], a))]
def resimp(t):
    """redo what depends on the conditions that hold here"""
    def f(x):
        if x.op == 'monus': return monus(*x.args)
        if x.op == 'npow2' and x.args[0] in terms.POW2: return x.args[0]
    return transform(t, f)
