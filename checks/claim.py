"""The verifier on an arbitrary proof: when it accepts, as a condition on the proof's parts.

A requirement is shown by entailment: the acceptance condition implies it.  When it is not implied, the derived condition is
evaluated at a valuation in which everything but the requirement is in order; acceptance there is a counterexample."""
from .session import *
from engine.evalt import Ev, Op, Agg, Fe, Skip, OPT
from engine import evalt
from . import entail

PARTS = ('f_at_z_m', 'f_iop_roots', 'g_iop_root', 'f_queries', 'g_query', 'h1_iop_roots', 'h2_iop_roots', 'fri_proof_h1', 'fri_proof_h2')
PROOF1, PROOF2 = sym('fri_proof_h1'), sym('fri_proof_h2')
RESULT_ = 'core::result::Result'
def claim_models(P):
    h = dict(transcript_models(lambda kind, old: app(kind, old)))
    h.update(poly_models(P))
    for T_, ns in ((IOPT, ('verify_query',)), (QT, ('natural_index', 'value', 'path')), (FRIT, ('verify_proof',)),
                   (PRF, ('get_roots', 'get_final_coefficients', 'get_initial_degree_plus_one', 'get_lde_factor'))):
        for n in ns: h[T_ + n] = opaque(n)
    h.update(named(P, '::bytes_to_challenge_index', opaque('INDEX')))
    return h
def exists(n, f): return NOT(forall(n, lambda i: NOT(f(i))))
def binder_walk(t, f, seen=None):
    """visit every subterm; bound variables are opened"""
    seen = set() if seen is None else seen
    work = [t]
    while work:
        x = work.pop()
        if x in seen: continue
        seen.add(x)
        if f(x) is False: continue
        if x.op == 'lam':
            v = fresh('i'); work.append(apply(x, v)); continue
        work += list(terms._walk_children(x.args))
def accepted(r):
    """the condition under which a Result<bool> is Ok(true)"""
    if r.op == 'ite':
        a, b = accepted(r.args[1]), accepted(r.args[2])
        if b is FALSE: return AND(r.args[0], a)
        if a is FALSE: return AND(NOT(r.args[0]), b)
        return mkite(r.args[0], a, b)
    if r.op == 'agg' and r.args[0] == RESULT_: return dict(r.args[2])['0'] if r.args[1] == 'Ok' else FALSE
    return AND(isvar(r, RESULT_, 'Ok'), fld(r, '0', 'Ok'))
class Accept:
    """an acceptance condition acc of a verifying function, with worlds in which it is evaluated"""
    def accepts(s, **mod):
        for salt in range(8):
            try: return s.world(salt, **mod).bool(s.acc)
            except Skip as x: s.why = str(x)
            except RecursionError: s.why = 'depth'
        return None
    def violates(s, r, m):
        """r is false in the world described by m"""
        for salt in range(8):
            try: return s.world(salt, **m).bool(r) is False
            except (Skip, RecursionError): pass
        return False
    def require(s, what, r, key, *mods):
        """acceptance implies r (None: r cannot be written down for this code); mods describe proofs that violate r"""
        c = s.c; c.count('requirements')
        if r is not None and s.implied(r):
            c.ob(what, True, sample='%s => %s' % ('accept', show(r)[:150])); return True
        honest = s.accepts() is True
        for d, m in mods:
            if s.accepts(**m) is True and (s.violates(r, m) if r is not None else honest):
                c.ob(what, False, '%s%s: the derived acceptance condition also holds for a proof with %s' % (s.where, what, d), key=key); return False
        s.K.undecided += 1
        c.undecided(what, 'acceptance was not shown to imply %s (%s)' % (show(r)[:200] if r is not None else 'it', ', '.join(sorted(s.unresolved)) or 'no counterexample found'))
        return None
class Claim(Accept):
    """acceptance condition of Verifier::verify for a proof all of whose parts are arbitrary"""
    def __init__(s, K, extra=None):
        P = s.P = K.P; s.K = K; s.c = K.c; s.I = Instance(P)
        l = [n for n in P.bodies if n.endswith('PerRegisterARP>::verify')]
        if len(l) != 1: raise Unsupported('%d functions named verify' % len(l))
        s.name = l[0]; b = s.body = P.bodies[s.name]
        A = [x.get('n') or 'arg%d' % i for i, x in enumerate(b.locals) if 1 <= i <= b.argc]
        h = claim_models(P); h.update(extra or {})
        s.proof = struct(P, next(n for n in P.adts if n.endswith('::InstanceProof')), **{x: sym(x) for x in PARTS})
        s.ret, m, s.ex = K.value(s.name, {A[0]: s.I.verifier(), A[1]: s.proof}, opaque=h, pow2=(CD, GD, FAC), ints=())
        s.acc = AND(isvar(s.ret, RESULT_, 'Ok'), fld(s.ret, '0', 'Ok'))
        s.fri = {}
        for x in subterms(s.acc):
            if x.op == 'app' and x.args[0] == 'verify_proof' and len(x.args[1]) == 3: s.fri.setdefault(x.args[1][0], []).append(x)
        one = lambda p, k: (lambda l: l[0].args[1][k] if len(l) == 1 else None)(s.fri.get(p, []))
        s.idx = [one(PROOF1, 1), one(PROOF2, 1)]; s.val = [one(PROOF1, 2), one(PROOF2, 2)]
        s.where = '%s:%s: ' % (b.file, b.line)
        s.unresolved = {x.op for x in subterms(s.acc) if x.op in UNRESOLVED} | set(s.ex.unknown)
    # -- valuations
    def world(s, salt=0, **mod):
        """an evaluator in which an honest proof is described, apart from the given modifications"""
        nq = mod.get('queries', 2); nr = mod.get('roots', 2)
        asg = {CD: 4, GD: 8, FAC: 2, NM: 2, NREG: 2, NB: 1, NBC: 0, S: evalt.TWO_ADICITY, evalt.ROOT: Fe(pow(evalt.GEN, (evalt.p - 1) >> evalt.TWO_ADICITY, evalt.p)), evalt.GENS: Fe(evalt.GEN),
               sym('f_at_z_m'): tuple(Op('fz', i) for i in range(mod.get('evaluations', 2))), sym('f_queries'): tuple(Op('q', i) for i in range(nq)), sym('f_iop_roots'): tuple(Op('r', i) for i in range(nr)),
               sym('g_query'): Op('gq'), sym('g_iop_root'): Op('gr'), sym('h1_iop_roots'): (Op('h1', 0), Op('h1', 1)), sym('h2_iop_roots'): (Op('h2', 0), Op('h2', 1), Op('h2', 2)),
               PROOF1: Op('p1'), PROOF2: Op('p2')}
        e = Ev(asg, evalt.int_atoms([s.acc]), salt, 1)
        k1, k2 = Op('p1'), Op('p2')
        def index(j):
            if s.idx[j] is None: return j
            return e.int(s.idx[j])
        def natural(ev, q): return mod['natural'](index, q) if 'natural' in mod else index(1 if q == Op('gq') else 0)
        def path(ev, q): return (Op('path', q),) * ((mod['path'](q) if 'path' in mod else 0) + (4 if q == Op('gq') else 3))
        def verify(ev, q, r):
            if 'verify' in mod: return mod['verify'](q, r)
            return (q, r) == (Op('gq'), Op('gr')) or (q.k[0] == 'q' and r.k == ('r', q.k[1]))
        def fri(ev, p, i, v):
            m = mod.get('fri', {}).get(p.k[0], 'accept')
            return Agg(RESULT_, 'Err', (('0', Op('e')),)) if m == 'error' else Agg(RESULT_, 'Ok', (('0', m == 'accept'),))
        roots = lambda ev, p: mod.get('layers', {}).get(p.k[0]) or asg[sym('h1_iop_roots' if p == k1 else 'h2_iop_roots')]
        drawn = lambda ev, b, n, f: (3, 5)[sum(1 for x in b.k[2][0] if isinstance(x, Agg) and x.var == 'CHB') % 2] if isinstance(b, Op) and b.k[:2] == ('app', 'CHB') else NotImplemented
        const = lambda v: (lambda ev, *a: v)
        value = lambda ev, q: Fe(evalt.hnum(('value', q, mod.get('value', lambda q: 0)(q)), salt))
        e.world = {'value': value, 'batch_size': const(1), 'num_terms': const(0), 'mask_reg': lambda ev, i: i % max(1, min(nq, nr)), 'natural_index': natural, 'path': path, 'verify_query': verify, 'verify_proof': fri,
                   'get_roots': roots, 'get_final_coefficients': lambda ev, p: (Op('c', p, 0), Op('c', p, 1)), 'overflows': const(False), 'INDEX': drawn,
                   'get_lde_factor': lambda ev, p: mod.get('factor', {}).get(p.k[0], 2), 'get_initial_degree_plus_one': lambda ev, p: mod.get('degree', {}).get(p.k[0], 4 if p == k1 else 8)}
        return e
    def depends(s, t, **mod):
        """the value of t differs between the honest world and the modified one"""
        for salt in range(8):
            try:
                a, b = s.world(salt), s.world(salt, **mod)
                if not evalt.same_value(a.ev(t), b.ev(t), a): return True
            except (Skip, RecursionError): pass
        return False
    def implied(s, r):
        """r follows from the conjuncts of the acceptance condition that speak about the same things (drawn values are abstracted)"""
        lits_ = s.acc.args[0] if s.acc.op == 'and' else (s.acc,)
        draws = {}
        def abstract(t):
            return transform(t, lambda x: draws.setdefault(x, fresh('drawn')) if x.op == 'app' and x.args[0] in ('INDEX', 'CH', 'CHB') and not terms.bvs(x) else None)
        names = lambda t: {x.args[0] for x in subterms(t) if x.op == 'app' and x.args[0] not in ('CH', 'CHB', 'INDEX')}
        r2 = abstract(r); nr = names(r2); syms = {sym(x) for x in PARTS} & set(subterms(r2))
        if r in lits_ or (r.op == 'and' and all(x in lits_ for x in r.args[0])): return True
        use = []
        for l in lits_:
            l2 = abstract(l); sz = len(subterms(l2))
            if sz <= 25 and (names(l2) <= nr) or (sz <= 80 and names(l2) & nr and names(l2) <= nr): use.append(l2)
        terms.DEADLINE[0] = None
        for k in range(len(use)):
            # equal lengths
            l = use[k]
            if l.op == 'eq0' and l.args[0].op == 'P':
                for a, x in sorted(linear_in(l.args[0]), key=lambda z: z[0].id):
                    if a.op == 'len':
                        use = [u if u is l else replace(u, {a: x}) for u in use]; r2 = replace(r2, {a: x}); break
        return entail.holds(OR(NOT(AND(*use)), r2)) if use else False
    # -- challenges
    def logs(s, t, kinds=('CH', 'CHB'), skip=()):
        """the transcripts from which the challenges in a term are drawn"""
        out = []
        def f(x):
            if x in skip: return False
            if x.op == 'app' and x.args[0] in kinds: out.append(x); return False
            if x.op == 'app' and x.args[0] in ('CH', 'CHB'): return False
        binder_walk(t, f)
        return out
MESSAGES = {'witness roots': ('bytes', sym('f_iop_roots')), 'composition root': ('bytes', sym('g_iop_root')), 'out-of-domain values': ('element', sym('f_at_z_m')),
            'FRI layer roots of h1': ('bytes', sym('h1_iop_roots')), 'FRI layer roots of h2': ('bytes', sym('h2_iop_roots')),
            'final coefficients of h1': ('element', app('get_final_coefficients', PROOF1)), 'final coefficients of h2': ('element', app('get_final_coefficients', PROOF2))}
SINGLE = {sym('g_iop_root')}
def covered(log, kind, x):
    """every element of x is absorbed in the log (a concatenation of segments)"""
    parts = log.args[0] if log.op == 'concat' else (log,)
    if x in SINGLE: return any(p.op == 'lit' and event(kind, x) in p.args[0] for p in parts)
    for p in parts:
        if p.op == 'tab' and p.args[0] is length(x):
            v = fresh('i'); BOUND[v] = p.args[0]
            if apply(p.args[1], v) is event(kind, get(x, v)): return True
    return False
def absent(e, log, kind, x):
    """an element of x that is not among the absorbed messages at a valuation, or None"""
    ms = e.seq(log); xs = (e.ev(x),) if x in SINGLE else e.seq(x)
    for y in xs:
        if not any(isinstance(m, Agg) and m.var == kind and evalt.same_value(m.f[0][1], y, e) for m in ms): return y
    return None
