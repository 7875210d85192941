"""C07: verification never panics, whatever the proof contains."""
from .friproof import *
from .hashes import *
from engine.engine import Ex
from engine.mir import cname
from engine import seqs, evalt
import itertools

PROOF_APPS = {'get_roots', 'get_final_coefficients', 'get_initial_degree_plus_one', 'get_lde_factor', 'value', 'natural_index', 'path', 'tree_index', 'verify_query', 'verify_proof', 'CH', 'CHB', 'INDEX'}
RAW = {'get_initial_degree_plus_one', 'get_lde_factor', 'natural_index', 'tree_index'}
ENCODING = ('ff_ce::PrimeFieldRepr::write_le', 'ff_ce::PrimeFieldRepr::write_be', 'ff_ce::PrimeFieldRepr::read_be', 'ff_ce::PrimeField::from_repr')
LEAVES = ('as iop::IOP<F>>::verify_query', 'as iop::IOP<F>>::encode_root_into_challenge', 'as iop::IopTree<F>>::verify', 'as iop::IopTree<F>>::encode_root_into_challenge', 'LeafEncoder<F>>::encode_leaf', 'HashEncoder<F>>::interpret_hash',
          'as iop::IopTreeHasher<F>>::hash_leaf', 'as iop::IopTreeHasher<F>>::hash_encoded_leaf', 'as iop::IopQuery<F>>::natural_index', 'as iop::IopQuery<F>>::tree_index', 'as iop::IopQuery<F>>::value', 'as iop::IopQuery<F>>::path',
          'as transcript::Transcript<F>>::commit_bytes', 'as transcript::Transcript<F>>::commit_field_element', 'as transcript::Transcript<F>>::get_challenge', 'as transcript::Transcript<F>>::get_challenge_bytes',
          'FRIProof<F, I> as fri::FriProof<F, I>>::get_roots', 'FRIProof<F, I> as fri::FriProof<F, I>>::get_final_coefficients', 'FRIProof<F, I> as fri::FriProof<F, I>>::get_initial_degree_plus_one', 'FRIProof<F, I> as fri::FriProof<F, I>>::get_lde_factor')

def lits_of(f): return list(f.args[0]) if f.op == 'and' else [f]
def close_over(f):
    """f for some value of each loop counter that occurs in it"""
    for _ in range(6):
        vs = sorted({x for x in subterms(f) if x.op == 'var' and x in BOUND}, key=lambda x: -x.id)
        if not vs: return f
        v = vs[0]; f = seqs.many(BOUND[v], close(v, f))
    return f
def counters(f):
    """the bounds of the loop counters in f"""
    return [AND(NOT(lt0(x)), lt(x, BOUND[x])) for x in subterms(f) if x.op == 'var' and x in BOUND]
class Site:
    """a place where execution can stop, with the condition under which it does"""
    def __init__(s, proofdata, p, raw):
        s.fn, s.ln, s.kind, s.cond, s.bad, s.before = p; s.data = proofdata; s.raw = raw
        s.key = '%s line %s (%s)' % (s.fn.replace('crate::', ''), s.ln, s.kind)
    def verdict(s):
        """'never' | 'instance' (a precondition on the caller's own description) | 'encoding' | None"""
        if s.cond is FALSE or s.bad is FALSE: return 'never'
        if s.kind == 'overflow' and s.wraparound(): return 'size'
        b = s.bad if s.bad is not TRUE else s.cond
        facts = [f for f in lits_of(s.cond) if f is not s.bad] + counters(s.cond)
        # lengths that are known
        for _ in range(4):
            m = {}
            for f in facts:
                if f.op == 'eq0' and f.args[0].op == 'P':
                    for a, c in ((x[0][0], c) for x, c in poly(f.args[0]).items() if len(x) == 1 and x[0][1] == 1 and abs(c) == 1):
                        if a.op == 'len':
                            y = sub(a, f.args[0]) if c == 1 else add(a, f.args[0])
                            if a not in subterms(y): m = {a: y}; break
                if m: break
            if not m: break
            facts = [g for g in (replace(g, m) for g in facts) if g is not TRUE]; b = replace(b, m)
        b = simp_cond(b)
        if b is FALSE: return 'never'
        if s.bad is not TRUE and b.op == 'not' and b.args[0].op == 'is' and b.args[0].args[0].op == 'app' and b.args[0].args[0].args[0] in ENCODING: return 'encoding'
        if s.bad is not TRUE and not s.data(b): return 'instance'
        if s.bad is TRUE and not any(s.data(f) for f in facts): return 'instance'
        if s.bad is TRUE: return 'never' if any(s.refuted([g for g in facts if g is not f], f) for f in facts if len(subterms(f)) <= 60) else None
        return 'never' if s.refuted(facts, b) else None
    def wraparound(s):
        """an operation that leaves its range only when the data in memory would: no product of declared sizes, no declared number plus another"""
        if not (s.bad.op == 'app' and s.bad.args[0] == 'overflows'): return False
        p = poly(s.bad.args[1][0]); declared = lambda a: a in s.raw or a.op == 'app' and a.args[0] in RAW
        for mon, c in p.items():
            r = [a for a, e in mon if declared(a)]
            if len(r) and (len(mon) > 1 or abs(c) > 1 or any(e > 1 for a, e in mon)): return False
            if r and len(p) > 1: return False
        return True
    def refuted(s, facts, b):
        terms.DEADLINE[0] = None
        pw = [f.args[0] for f in facts if f.op == 'ispow2']
        new = [x for x in pw if x not in terms.POW2]
        # a declared power of two is not zero; a quotient is zero only when its numerator is smaller
        if b.op == 'eq0':
            x = b.args[0]
            if x in pw: return True
            if x.op == 'div' and (x.args[1] in pw or seqs.prove_le(ONE, x.args[1])): b = lt(x.args[0], x.args[1])
        if NOT(b) in facts or simp_cond(NOT(b)) in facts: return True
        use = [f for f in facts if len(subterms(f)) <= 60]
        if entail.holds(NOT(AND(*use, b))): return True
        if s.stays_below(facts, b, new): return True
        sh = halvings(b)
        if sh is not None:
            e, x = sh; top = None
            known = {f.args[0].args[0]: f for f in facts if f.op == 'eq0'}
            terms.POW2.update(new)
            try:
                top = shape(log2(x))
                for k in [v for v in subterms(e) if v.op == 'var' and v in BOUND]:
                    for y in uppers(facts, k):
                        for z in [y] + [sub(y, mul(num(q), f.args[0])) for f in facts if f.op == 'eq0' and f.args[0].op == 'P' for q in (1, -1)]:
                            d = sub(top, shape(replace(e, {k: sub(z, ONE)})))
                            if nonneg(d) or seqs.prove_le(ZERO, d): return True
            finally:
                for z in new: terms.POW2.discard(z)
        return False
def as_size(t):
    """npow2 of a power of two is that number"""
    def f(x):
        if x.op == 'npow2':
            y = x.args[0]
            if y in terms.POW2 or y.op == 'P' and len(poly(y)) == 1 and all(a in terms.POW2 and e == 1 for m, c in poly(y).items() for a, e in m) and all(c == 1 for c in poly(y).values()): return y
        return None
    return transform(t, f)
def stays_below(s, facts, b, new):
    """b says that a variable of the loop is not below the size of its round; refuted when that holds initially and one round keeps it"""
    if b.op == 'not' and b.args[0].op == 'lt0': d = neg(add(b.args[0].args[0], ONE))       # r - S < 0 : S - r <= 0
    elif b.op == 'lt0': d = b.args[0]
    else: return False
    rs = [m[0][0] for m, c in poly(d).items() if len(m) == 1 and m[0][1] == 1 and m[0][0].op == 'rec' and c == -1]
    if b.op != 'lt0' or len(rs) != 1: return False
    r = rs[0]
    if len(r.args[2]) != 1: return False
    k = r.args[1]; S = add(add(d, r), ONE)          # b: S - 1 - r < 0
    if r in subterms(S) or k.op != 'var': return False
    terms.POW2.update(new)
    try:
        up = lambda t: as_size(t)
        at = lambda i: up(replace(S, {k: i}))
        x0 = up(r.args[2][0])
        if not any(nonneg0(sub(at(ZERO), add(e, ONE))) for e in below(facts, x0, up)): return False
        x = var(next(FRESH)); i = k
        step = up(apply(apply(r.args[3], i), x)); Si, Sn = at(i), at(add(i, ONE))
        inds = list({y for y in subterms(step) if y.op == 'ind'})
        if len(inds) > 3: return False
        for vals in itertools.product((0, 1), repeat=len(inds)):
            y = replace(step, {z: num(v) for z, v in zip(inds, vals)})
            hi = [sub(Si, ONE)]                      # x <= h
            for z, v in zip(inds, vals):
                q = z.args[0] if v else NOT(z.args[0])
                hi += below([q], x, up)[1:]
            if poly(y).get(((x, 1),)) != 1 or not any(nonneg0(sub(sub(Sn, ONE), replace(y, {x: h}))) for h in hi): return False
        return True
    finally:
        for z in new: terms.POW2.discard(z)
Site.stays_below = stays_below
def nonneg0(t):
    v = as_num(t)
    return v is not None and v >= 0
def below(facts, x, up):
    """e with x <= e"""
    out = [x]
    for f in facts:
        g, strict = (f, True) if f.op == 'lt0' else (NOT(f), False)
        if f.op == 'lt0' and poly(up(f.args[0])).get(((x, 1),)) == 1: out.append(sub(sub(x, up(f.args[0])), ONE))
        if f.op == 'not' and f.args[0].op == 'lt0' and poly(up(f.args[0].args[0])).get(((x, 1),)) == -1: out.append(add(x, up(f.args[0].args[0])))
    return out
FRESH = ('c07x%d' % j for j in itertools.count())
def uppers(facts, k):
    """y with k < y"""
    out = []
    b = BOUND.get(k)
    for f in facts + ([lt(k, b)] if b is not None else []):
        for g in lits_of(f):
            if g.op == 'lt0':
                p = poly(g.args[0])
                if p.get(((k, 1),)) == 1: out += [sub(k, g.args[0])]
    res = []
    for y in out:
        res.append(y)
        for m in subterms(y):
            if m.op == 'min': res += [replace(y, {m: z}) for z in m.args[0]]
    return res
def nonneg(t):
    """a sum of logarithms and lengths with coefficients that are not negative"""
    return all(c >= 0 and all(a.op in ('log2', 'len') for a, e in m) for m, c in poly(t).items())
def shape(t):
    """logarithms of products and quotients of powers of two"""
    def f(x):
        if x.op != 'log2': return None
        y = x.args[0]
        if y.op == 'npow2': y = y.args[0]
        if y.op == 'div' and all(z in terms.POW2 for z in y.args): return sub(shape(log2(y.args[0])), shape(log2(y.args[1])))
        if y.op == 'P' and len(poly(y)) == 1:
            (mon, c), = poly(y).items()
            if c == 1 and all(a in terms.POW2 and e in (1, -1) for a, e in mon):
                r = ZERO
                for a, e in mon: r = add(r, mul(num(e), log2(a)))
                return r
        return log2(y) if y is not x.args[0] else None
    return transform(t, f)
def halvings(b):
    """b says that x shifted right by e places is zero: (e, x)"""
    extra = ZERO; known = False
    if b.op == 'lt0' and b.args[0].op == 'P':          # x < q
        p = dict(poly(b.args[0])); q = -p.pop((), 0)
        if q < 1 or len(p) != 1: return None
        while 2 ** as_num(extra) < q: extra = add(extra, ONE)
        x = mkP(p)
    elif b.op == 'not' and b.args[0].op == 'ispow2':
        x = b.args[0].args[0]; known = True
    elif b.op == 'eq0': x = b.args[0]
    else: return None
    if x.op != 'P' or len(poly(x)) != 1: return None
    (mon, c), = poly(x).items()
    e = None; rest = num(1)
    for a, k in mon:
        v = as_num(a)
        if v == Fraction(1, 2) and not isinstance(k, (int, Fraction)): e = k
        elif v == 2 and not isinstance(k, (int, Fraction)): return None
        else: rest = mul(rest, power(a, k if not isinstance(k, (int, Fraction)) else num(k)))
    if e is None: return None
    e = add(e, extra)
    if known and not (rest.op == 'npow2' or rest in terms.POW2): return None
    while c < 1: c *= 2; e = add(e, ONE)
    return (e, mul(num(c), rest))

def check(c):
    c.rule('Verifier::verify, the FRI verification and every component they reach are brought into closed form for an arbitrary proof, with the condition under which each operation stops execution (index out of bounds, unwrap of an absent value, failed assertion, '
           'division by zero, chunk size zero, unsigned underflow, products of declared sizes). Each such condition must contradict the tests made before it, unless it speaks about the caller\'s own instance only. '
           'A violation is reported only when a proof is described for which the condition holds.')
    K = Compare(c)
    Ex.ARITH = True
    try: run(c, K)
    finally: Ex.ARITH = False
    
def run(c, K):
    P = K.P
    parts = {sym(x) for x in PARTS}
    try: q = Claim(K)
    except Unsupported as e: c.undecided('Verifier::verify', str(e)[:300]); q = None
    if q: decide(c, K, 'Verifier::verify', q.ex, lambda t: any(x in parts or x.op == 'app' and x.args[0] in PROOF_APPS for x in subterms(t)), set(), lambda k, m: vworld(q, k, m), VMODS)
    try: f = FriClaim(K, shaped=False)
    except Unsupported as e: c.undecided('FRI verification', str(e)[:300]); f = None
    fp = {D0, OUT, LF, sym('roots'), sym('queries'), sym('final_coefficients')}
    if f: decide(c, K, 'FRI verification', f.ex, lambda t: any(x in fp or x.op == 'app' and x.args[0] in PROOF_APPS for x in subterms(t)), {D0, OUT, LF}, lambda k, m: fworld(f, k, m), FMODS)
    for suf in LEAVES:
        l = [n for n in P.bodies if n.endswith(suf)]
        if not l: c.undecided(suf, 'not found'); continue
        for n in l:
            try: r, m, ex = K.value(n, {}, ints=())
            except Unsupported as e: c.undecided(n, str(e)[:200]); continue
            b = P.bodies[n]
            A = {sym(x.get('n') or 'arg%d' % i) for i, x in enumerate(b.locals) if 1 <= i <= b.argc}
            decide(c, K, n.replace('crate::', ''), ex, lambda t: any(x.op == 'sym' and x.args[0] != 'const' for x in subterms(t)), set(), None, ())
    c.floor('components analysed', c.counts.get('components', 0), 20)
def vworld(q, salt, m):
    e = q.world(salt, **m)
    for n in ('mask_reg', 'uni_reg', 'fac_reg', 'bc_reg'): e.world[n] = lambda ev, *a: sum(x for x in a if isinstance(x, int)) % 2
    for n in ('start_at',): e.world[n] = lambda ev, *a: 0
    for n in ('span', 'batch_size', 'num_terms', 'num_factors'): e.world[n] = lambda ev, *a: 1
    e.world['kind'] = lambda ev, *a: salt % 2
    for n, v in (('num_rows', 4), ('num_batches', 1), ('max_power', 1)): e.asg.setdefault(sym(n), v)
    for k, v in m.get('set', {}).items(): e.asg[sym(k)] = v
    return e
def fworld(f, salt, m):
    e = f.world(salt, **m)
    def over(ev, x): return ev.int(x) >= 1 << 64 if not isinstance(x, int) else x >= 1 << 64
    e.world['overflows'] = over
    for k, v in m.get('set', {}).items(): e.asg[k] = v
    return e
def count(n, tag): return tuple(Op(tag, i) for i in range(n))
VMODS = [('an honest proof', {})] + [('%d out-of-domain values' % n, dict(evaluations=n)) for n in (0, 1, 3)] + [('%d witness openings' % n, dict(queries=n)) for n in (0, 1, 3)] + \
    [('%d witness roots' % n, dict(roots=n)) for n in (0, 1, 3)] + [('%d witness roots and openings' % n, dict(roots=n, queries=n)) for n in (0, 1, 3)] + \
    [('%d layer roots of h%d' % (n, k), dict(layers={'p%d' % k: count(n, 'h%d' % k)}, set={'h%d_iop_roots' % k: count(n, 'h%d' % k)})) for k in (1, 2) for n in (0, 1, 5)] + \
    [('%d layer roots inside low-degree proof %d' % (n, k), dict(layers={'p%d' % k: count(n, 'h%d' % k)})) for k in (1, 2) for n in (0, 1, 5)] + \
    [('%s of %s' % (w, n), {w: (lambda q, n=n, d=d: d if n in repr(q) else 0)}) for w in ('path',) for n in ('gq', 'q') for d in (-3, -4, -1, 1)] + \
    [('an opening at another position', dict(natural=lambda ix, q: d)) for d in (0, 1, 7, 8, 100)] + [('a rejected opening', dict(verify=lambda q, r: False))] + \
    [('%s %s of low-degree proof %d' % (w, v, k), {w: {'p%d' % k: v}}) for w in ('factor', 'degree') for v in (0, 1, 3, 1 << 62, 1 << 63) for k in (1, 2)] + \
    [('low-degree proof %d %s' % (k, w), dict(fri={'p%d' % k: w})) for k in (1, 2) for w in ('error', 'reject')]
FMODS = [('an honest proof', {})] + [('declared size %d, final size %d, factor %d' % (d, o, l), dict(set={D0: d, OUT: o, LF: l})) for d in (0, 1, 3, 4, 8, 1 << 40, 1 << 62, 1 << 63) for o in (0, 1, 2, 3, 8, 16, 1 << 63) for l in (0, 1, 2, 3, 4, 1 << 63)] + \
    [('declared size %d, final size %d, factor %d, %d roots' % (d, o, l, r), dict(roots=r, queries=2 * r, final=o, set={D0: d, OUT: o, LF: l})) for d, o, l in ((4, 1, 2), (4, 4, 2), (1, 1, 1), (2, 1, 1), (1, 2, 2), (2, 8, 2), (4, 8, 1), (0, 1, 2)) for r in range(5)] + \
    [('%d roots' % r, dict(roots=r)) for r in range(6)] + [('%d roots and %d openings' % (r, n), dict(roots=r, queries=n)) for r in range(5) for n in range(10)] + [('%d openings' % n, dict(queries=n)) for n in range(10)] + \
    [('%d final coefficients' % n, dict(final=n)) for n in range(5)] + [('%d final coefficients declared' % n, dict(final=n, set={OUT: n})) for n in range(5)] + \
    [('an opening whose path has %d more elements' % d, dict(path=lambda j, d=d: d)) for d in (-9, -3, -2, -1, 1, 2)] + [('the path of opening %d has %d more elements' % (i, d), dict(path=lambda j, d=d, i=i: d if j == i else 0)) for i in range(4) for d in (-9, -1, 1)] + \
    [('position %d in opening %d' % (v, i), {w: (lambda j, x, n, i=i, v=v: v if j == i else x)}) for w in ('natural', 'tree') for i in range(6) for v in (0, 1, 2, 15, 16, 1 << 40, (1 << 64) - 1)] + \
    [('positions beyond the layer', dict(natural=lambda j, x, n: x + n, tree=lambda j, x, n: x + n)), ('positions beyond the layer', dict(natural=lambda j, x, n: x + n)), ('positions beyond the layer', dict(tree=lambda j, x, n: x + n))] + \
    [('openings reported at each other\'s position', dict(natural=lambda j, x, n: (x + n // 2) % n if n else x))] + \
    [('openings authenticated at each other\'s position', dict(tree=lambda j, x, n: (x + n // 2) % n if n else x))] + \
    [('declared size %d, final size 1, factor %d' % (d, l), dict(roots=r, queries=2 * r, final=1, set={D0: d, OUT: 1, LF: l})) for d, l, r in ((4, 1 << 40, 3), (4, 1 << 61, 3), (2, 1 << 62, 2), (1, 1 << 63, 1), (1, 1 << 40, 1))] + \
    [('a rejected opening', dict(verify=lambda j, k: False)), ('inconsistent values', dict(value=2)), ('inconsistent values', dict(oracle=1)), ('a wrong final coefficient', dict(coefficient=0)), ('index 0', dict(index=0)), ('index 1', dict(index=1))] + \
    [('index %d' % i, dict(index=i, steps=st)) for i in (0, 1, 2, 5, 8, 15) for st in (1, 2, 3)]
def decide(c, K, name, ex, data, raw, world, mods):
    P = K.P; c.count('components')
    seen = set()
    for p in ex.panics:
        s = Site(data, p, raw)
        if (s.key, s.cond) in seen: continue
        seen.add((s.key, s.cond))
        c.count('stopping conditions')
        ex.set_known(s.before)
        v = s.verdict()
        if v: c.count('of them %s' % v); c.ob('%s: %s' % (name, s.key), True, sample=v); continue
        terms.DEADLINE[0] = None
        got = witness(s, world, mods, ex)
        if got: c.ob('%s: %s' % (name, s.key), False, '%s: %s stops execution when %s; that is so for %s' % (where(P, s), name, show(s.bad if s.bad is not TRUE else s.cond)[:200], got), key='%s: %s' % (name, s.fn)); continue
        K.undecided += 1
        c.undecided(name, '%s was not shown to be impossible: %s' % (s.key, show(s.bad if s.bad is not TRUE else s.cond)[:4000]))
def where(P, s):
    b = P.bodies.get(s.fn)
    return '%s:%s' % (b.file if b else s.fn, s.ln)
def witness(s, world, mods, ex):
    f = close_over(s.cond)
    if {x.op for x in subterms(f)} & (set(UNRESOLVED) - {'rec', 'last', 'least'}): return None
    if world is None:
        d = evalt.compare(f, FALSE)
        return ', '.join('%s=%s' % z for z in sorted(d[1].items()))[:200] if d[0] == 'differ' and not any(x.op == 'app' for x in subterms(f)) else None
    import time
    t0 = time.time()
    for d, m in mods:
        if time.time() - t0 > 60: break
        for salt in range(3):
            try:
                if world(salt, m).bool(f): return d
            except (Skip, RecursionError, IndexError, ZeroDivisionError, OverflowError, MemoryError, TypeError): pass
    return None
