"""An honest session: the prover's proof, as a value, handed to the verifier.

The commitment scheme and FRI appear through their interfaces only: an opening of a committed vector verifies against that
vector's root (C08), the proof FRI makes of a prototype carries the prototype's roots and coefficients (C30, C06)."""
from .protocol import *

IOPT, QT, FRIT = 'crate::iop::IOP::', 'crate::iop::IopQuery::', 'crate::fri::FriIop::'
PRO, PRF = 'crate::fri::FriProofPrototype::', 'crate::fri::FriProof::'
def app(nm, *a): return mk('app', nm, tuple(a))
def values_of(v): return v
def honest_models():
    full = lambda ex, st, x: ex.full(st, x)
    def create(ex, a, st, t): return agg('oracle', '', [('values', ex.full(st, a[0]))])
    def root(ex, a, st, t): return app('ROOT', fld(ex.full(st, a[0]), 'values'))
    def query(ex, a, st, t): return agg('opening', '', [('values', fld(ex.full(st, a[0]), 'values')), ('index', ex.full(st, a[1])), ('leafs', ex.full(st, a[2]))])
    def verify(ex, a, st, t):
        q, r = ex.full(st, a[0]), ex.full(st, a[1])
        same_ = AND(eq(r, app('ROOT', fld(q, 'values'))), eq(fld(q, 'values'), fld(q, 'leafs')))
        return same_
    def value(ex, a, st, t): q = ex.full(st, a[0]); return get(fld(q, 'leafs'), fld(q, 'index'))
    def index(ex, a, st, t): return fld(ex.full(st, a[0]), 'index')
    def path(ex, a, st, t):
        q = ex.full(st, a[0]); v = fld(q, 'values')
        return tab(log2(length(v)), lambda l: app('PATH', v, fld(q, 'index'), l))
    def prototype(ex, a, st, t):
        p, fac, deg = coeffs(ex.full(st, a[0])), ex.full(st, a[1]), ex.full(st, a[2])
        return mkite(app('fri fails', p, fac, deg), err(E), ok(agg('prototype', '', [('values', p), ('factor', fac), ('final', deg)])))
    def intoproof(ex, a, st, t):
        p, v, i = ex.full(st, a[0]), coeffs(ex.full(st, a[1])), ex.full(st, a[2])
        return mkite(app('opening fails', p, v, i), err(E), ok(agg('friproof', '', [('proto', p), ('values', v), ('index', i)])))
    def roots(ex, a, st, t):
        p = ex.full(st, a[0]); p = fld(p, 'proto') if p.op == 'agg' and p.args[0] == 'friproof' else p
        return tab(app('num_layers', p), lambda i: app('LAYERROOT', p, i))
    def final(ex, a, st, t):
        p = ex.full(st, a[0]); p = fld(p, 'proto') if p.op == 'agg' and p.args[0] == 'friproof' else p
        return tab(fld(p, 'final'), lambda i: app('FINAL', p, i))
    def deg(ex, a, st, t):
        p = fld(ex.full(st, a[0]), 'proto'); return mul(length(fld(p, 'values')), inv(fld(p, 'factor')))
    def fac(ex, a, st, t): return fld(fld(ex.full(st, a[0]), 'proto'), 'factor')
    def friverify(ex, a, st, t): return app('FRI', *[ex.full(st, x) for x in a])
    return {IOPT + 'create': create, IOPT + 'get_root': root, IOPT + 'query': query, IOPT + 'verify_query': verify,
            QT + 'value': value, QT + 'natural_index': index, QT + 'path': path,
            FRIT + 'proof_from_lde': prototype, FRIT + 'prototype_into_proof': intoproof, FRIT + 'verify_proof': friverify,
            PRO + 'get_roots': roots, PRF + 'get_roots': roots, PRO + 'get_final_coefficients': final, PRF + 'get_final_coefficients': final,
            PRF + 'get_initial_degree_plus_one': deg, PRF + 'get_lde_factor': fac}

PROVE, VERIFY = 'PerRegisterARP>::prove', 'PerRegisterARP>::verify'
class Session:
    """The proof the prover returns for an arbitrary instance, witness and sequence of challenges, and what the verifier makes of it.

    A challenge is a function of its position in the transcript; the message sequences before the query positions are recorded.
    s.proves: the prover returns a proof; s.proof: that proof; s.plogs / s.vlogs: the recorded sequences; s.acc: the verifier accepts;
    s.fri: the verifier's low-degree checks as (proof, index, value)."""
    def __init__(s, K, composition=False, extra=None):
        P = s.P = K.P; s.K = K; s.I = Instance(P); s.log = []
        for x in (CD, GD, FAC): terms.POW2.add(x)
        def ch(kind, old):
            if kind == 'CHB': s.log.append(old)
            return app(kind, length(old))
        h = dict(transcript_models(ch)); h.update(poly_models(P)); h.update(honest_models())
        h.update(named(P, '::bytes_to_challenge_index', opaque('INDEX')))
        # values of a constraint term on the coset of the composition domain, and the interpolated witness columns (C21)
        h.update(named(P, '::evaluate_constraint_term_into_values', lambda ex, a, st, t: ok(polynomial(tab(GD, lambda i: app('TERM', ex.full(st, a[0]), i)), GD))))
        h.update(named(P, '::calculate_witness_polys', lambda ex, a, st, t: ok(tab(NREG, lambda r: polynomial(tab(CD, lambda i: at('w', r, i)), CD)))))
        if composition:          # the composition value the verifier derives, as one unknown (C13)
            h.update(named(P, '::calculate_g_at_z_from_f_at_z', lambda ex, a, st, t: ok(app('COMPOSITION'))))
        if extra: h.update(extra(P))
        s.h = h
        r, b = s.run(PROVE, [s.I.prover(), sym('witness')])
        s.where_p = '%s:%s: ' % (b.file, b.line)
        s.proves = isvar(r, RES, 'Ok')
        s.given = list(s.proves.args[0]) if s.proves.op == 'and' else [s.proves]
        d = {x: TRUE for x in s.given}; d.update({NOT(x): FALSE for x in s.given}); s.d = d
        s.proof = s.under(fld(r, '0', 'Ok')); s.plogs = [s.under(x) for x in s.log]; s.log.clear()
        if s.proof.op != 'agg': raise Unsupported('the proof has no single closed form')
        r, b = s.run(VERIFY, [s.I.verifier(), s.proof])
        s.where_v = '%s:%s: ' % (b.file, b.line)
        s.vlogs = [s.under(x) for x in s.log]
        s.acc = s.under(AND(isvar(r, RES, 'Ok'), fld(r, '0', 'Ok')))
        s.lits = list(s.acc.args[0]) if s.acc.op == 'and' else [s.acc]
        s.fri = []
        for x in subterms(s.acc):
            if x.op == 'app' and x.args[0] == 'FRI' and len(x.args[1]) == 3 and x.args[1] not in s.fri: s.fri.append(x.args[1])
    def under(s, t): return transform(t, s.d.get)
    def run(s, suffix, args):
        l = [n for n in s.P.bodies if n.endswith(suffix)]
        if len(l) != 1: raise Unsupported('%d functions named %s' % (len(l), suffix))
        b = s.P.bodies[l[0]]
        A = [x.get('n') or 'arg%d' % i for i, x in enumerate(b.locals) if 1 <= i <= b.argc]
        terms.DEADLINE[0] = None
        r, m, ex = s.K.value(l[0], dict(zip(A, args)), opaque=s.h, pow2=(CD, GD, FAC), ints=())
        terms.DEADLINE[0] = None
        if r is None: raise Unsupported('%s never returns' % suffix)
        return r, b
    def part(s, n): return fld(s.proof, n)
    def friproof(s, n):
        """(prototype, committed values, index) of a FRI part of the proof"""
        v = s.part(n)
        if v.op != 'agg' or v.args[0] != 'friproof': raise Unsupported('%s is not a FRI proof' % n)
        return fld(v, 'proto'), fld(v, 'values'), fld(v, 'index')
    def checked(s, n):
        """(index, value) the verifier passes to the low-degree check of that part"""
        v = s.part(n)
        l = [x for x in s.fri if x[0] is v]
        if len(l) != 1: raise Unsupported('%s is checked %d times' % (n, len(l)))
        return l[0][1], l[0][2]
RES = 'core::result::Result'
