"""FRI verification of an arbitrary proof: acceptance as a condition on the parts of the proof."""
from .claim import *
from . import c25

D0, OUT, LF, IDX, V0 = sym('D0'), sym('OUT'), sym('LF'), sym('index'), sym('oracle_value')
PRIME, HALF = evalt.p, pow(2, evalt.p - 2, evalt.p)
def fri_models():
    h = {}
    for n in ('verify_query', 'encode_root_into_challenge'): h['crate::iop::IOP::' + n] = opaque(n)
    for n in ('natural_index', 'value', 'path', 'tree_index'): h[QT + n] = opaque(n)
    return h
DEGREE = 2
COMBINER = dict(traits={'crate::iop::CosetCombiner': 'TrivialCombiner'}, consts={'crate::iop::CosetCombiner::COSET_SIZE': num(2), 'crate::iop::CosetCombiner::EXPECTED_DEGREE': num(2), 'crate::fri::FriIop::DEGREE': num(2)})
class Adapt(Ev):
    """completes a proof: an equation on the value of an opening or on the final coefficients that fails is solved for it"""
    def linear(s, d, put):
        r = []
        for x in (0, 1):
            put(x); s.memo.clear(); v = s.ev(d)
            if not isinstance(v, Fe): v = evalt.embed(v)
            r.append(v.v)
        k = (r[1] - r[0]) % PRIME
        if k == 0: return False
        put(-r[0] * pow(k, PRIME - 2, PRIME) % PRIME); s.memo.clear()
        return True
    def o_eq0(s, t, d):
        r = Ev.o_eq0(s, t, d)
        if r or s.frozen: return r
        js = {s.ev(x.args[1][0]).k[1] for x in subterms(d) if x.op == 'app' and x.args[0] == 'value' and x.args[1][0].op == 'get'}
        js = [j for j in js if j >= 2 and j not in s.fixed]
        fc = sym('final_coefficients')
        if fc in subterms(d):
            if 'f' in s.fixed or not s.asg[fc]: return r
            s.fixed.add('f'); rest = s.asg[fc][1:]
            def put(x): s.asg[fc] = (Fe(x),) + rest
        elif js:
            j = max(js); s.fixed.add(j)
            def put(x): s.patch[j] = x
        else: return r
        s.frozen = True
        try: return s.linear(d, put)
        finally: s.frozen = False
ENTRY = '<fri::NaiveFriIop<F, I> as fri::FriIop<F>>::verify_proof'
class FriClaim(Accept):
    def __init__(s, K, shaped=True):
        s.K = K; s.c = K.c; P = K.P; s.shaped = shaped
        l = [n for n in P.bodies if n.endswith(ENTRY)]
        if len(l) != 1: raise Unsupported('%d implementations of FRI verification' % len(l))
        s.body = P.bodies[l[0]]
        s.where = '%s: ' % s.body.file
        A = [x.get('n') or 'arg%d' % i for i, x in enumerate(s.body.locals) if 1 <= i <= s.body.argc]
        if shaped: terms.POW2.update((D0, OUT, LF)); s.steps = sub(log2(D0), log2(OUT)); s.rounds = add(s.steps, ONE)
        f = dict(roots=sym('roots'), queries=sym('queries'), final_coefficients=sym('final_coefficients'))
        s.proof = struct(P, next(n for n in P.adts if n.endswith('::FRIProof')), initial_degree_plus_one=D0, output_coeffs_at_degree_plus_one=OUT, lde_factor=LF, **f)
        s.ret, m, s.ex = K.value(l[0], {A[0]: s.proof, A[1]: IDX, A[2]: V0}, opaque=fri_models(), pow2=(D0, OUT, LF) if shaped else (), ints=(), **COMBINER)
        s.acc = accepted(s.ret)
        s._red = None; s.proved = []
        s.unresolved = {x.op for x in subterms(s.acc) if x.op in UNRESOLVED} | set(s.ex.unknown)
        if not shaped:
            for x in (OUT, LF, D0): terms.POW2.discard(x)
    def q(s, j): return get(sym('queries'), j)
    def size(s, k): return mul(mul(D0, LF), power(mkP({(): Fraction(1, 2)}), k))
    def implied(s, r):
        terms.DEADLINE[0] = None
        lits, m = s.reduced()
        r = transform(r, m.get) if m else r
        if r is TRUE or r in lits: return True
        for l in lits:
            if entail.holds(OR(NOT(AND(*s.proved, l)), r)): s.proved.append(r); return True
        if entail.holds(OR(NOT(AND(*lits)), r)): s.proved.append(r); return True
        return False
    def thresholds(s):
        """numbers of rounds that the acceptance condition singles out"""
        r = set()
        for x in subterms(s.acc):
            if x.op in ('lt0', 'eq0') and x.args[0].op == 'P':
                r |= {abs(c) + d for m, c in poly(x.args[0]).items() if not m and c.denominator == 1 for d in (0, 1)}
        return sorted(int(x) for x in r if 2 < x <= 13)
    def reduced(s):
        """the conjuncts of the acceptance condition with determined lengths and counts replaced"""
        if s._red is None:
            lits = list(s.acc.args[0] if s.acc.op == 'and' else (s.acc,)); m = {}
            for _ in range(6):
                for i, f in enumerate(lits):
                    if f.op != 'eq0' or not f.args[0].op == 'P': continue
                    e = [(x[0][0], c) for x, c in poly(f.args[0]).items() if len(x) == 1 and x[0][1] == 1 and abs(c) == 1 and x[0][0].op in ('len', 'div')]
                    e = [(x, c) for x, c in e if x not in subterms(sub(f.args[0], mul(num(c), x)))]
                    if not e: continue
                    x, c = e[0]; y = sub(x, f.args[0]) if c == 1 else add(x, f.args[0])
                    lits = [replace(g, {x: y}) for j, g in enumerate(lits) if j != i]; m = {a: replace(b, {x: y}) for a, b in m.items()}; m[x] = y
                    break
                else: break
            for y, v in list(m.items()):
                if y.op == 'div' and eq0(mk('mod', *y.args)) in lits:
                    lits = [replace(g, {y.args[0]: mul(y.args[1], v)}) for g in lits]; m[y.args[0]] = mul(y.args[1], v)
            s._red = (lits, m)
        return s._red
    # -- valuations
    def world(s, salt=0, **mod):
        out, st, lf = mod.get('out', (1, 2, 1, 2)[salt % 4]), mod.get('steps', 2), mod.get('lf', 2)
        D = mod.get('D', out << st); N = mod.get('size', D * lf)
        idx = mod.get('index', (salt * 5 + 3) % N | 1)
        H = lambda *x: evalt.hnum(x, salt) % PRIME
        g = pow(evalt.GEN, (PRIME - 1) >> evalt.TWO_ADICITY, PRIME)
        gen = lambda n: pow(g, (1 << evalt.TWO_ADICITY) // n, PRIME)
        ch = lambda r: H('challenge', r)
        nr = mod.get('roots', st + 1); nq = mod.get('queries', 2 * nr); nf = mod.get('final', out)
        # layers of an honest prover; a break at layer k starts over with another polynomial
        f = [H('c', i) for i in range(D)]; layers = []
        for k in range(st + 1):
            if k and mod.get('break') == k: f = [H('d', i) for i in range(len(f))]
            layers.append(f); a = ch(Op('r', k))
            if mod.get('fold') == k: a = (a + 1) % PRIME
            if len(f) > 1 and k < st: f = [(f[2 * i] + a * f[2 * i + 1]) % PRIME for i in range(len(f) // 2)]
        def poly_at(f, x):
            r = 0
            for c in reversed(f): r = (r * x + c) % PRIME
            return r
        last = list(layers[st][:nf]) + [H('x', j) for j in range(max(0, nf - len(layers[st])))]
        if 'coefficient' in mod and mod['coefficient'] < len(last): last[mod['coefficient']] = (last[mod['coefficient']] + 1) % PRIME
        def place(j):
            k, side = divmod(j, 2); n = max(1, N >> min(k, st)); i = idx % n
            return k, (i % max(1, n // 2)) + side * (n // 2), n
        def natural(ev, q): return mod.get('natural', lambda j, x, n: x)(q.k[1], place(q.k[1])[1], place(q.k[1])[2])
        def tree(ev, q): return mod.get('tree', lambda j, x, n: x)(q.k[1], place(q.k[1])[1], place(q.k[1])[2])
        def value(ev, q):
            k, x, n = place(q.k[1]); k = min(k, st)
            if q.k[1] in e.patch: return Fe(e.patch[q.k[1]])
            v = poly_at(layers[k], pow(gen(n), natural(ev, q) if 'natural' in mod else x, PRIME))
            return Fe(v + (1 if mod.get('value') == q.k[1] else 0))
        def path(ev, q): return tuple(Op('path', q, i) for i in range(max(0, place(q.k[1])[2].bit_length() - 1 + mod.get('path', lambda j: 0)(q.k[1]))))
        def verify(ev, q, r): return mod.get('verify', lambda j, k: k == j // 2)(q.k[1], r.k[1])
        asg = {D0: D, OUT: out, LF: lf, IDX: idx, S: evalt.TWO_ADICITY, evalt.ROOT: Fe(g), evalt.GENS: Fe(evalt.GEN), sym('queries'): tuple(Op('q', j) for j in range(nq)), sym('roots'): tuple(Op('r', j) for j in range(nr)),
               sym('final_coefficients'): tuple(Fe(x) for x in last), V0: Fe(poly_at(layers[0], pow(gen(N), idx, PRIME)) + mod.get('oracle', 0))}
        e = (Adapt if 'adapt' in mod else Ev)(asg, evalt.int_atoms([s.acc]), salt, 1); e.patch = {}; e.fixed = set(); e.frozen = False
        e.world = {'natural_index': natural, 'tree_index': tree, 'value': value, 'path': path, 'verify_query': verify, 'overflows': lambda ev, *a: False,
                   'encode_root_into_challenge': lambda ev, r: Fe(ch(r))}
        if 'adapt' in mod:
            for _ in range(st + 2):
                e.memo.clear(); e.fixed = set(); e.fuel = 400000
                if e.bool(s.acc): break
            e.memo.clear(); e.fuel = 400000; e.frozen = True
        return e
