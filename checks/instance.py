"""The prover's and the verifier's preprocessing of one instance description."""
from .session import *

NC = sym('num_constraints')
ARP_FROM = 'PerRegisterARP>>::from_instance'
class Raw(Instance):
    """an instance description as the caller gives it: steps, not masks; densities and boundary values arbitrary"""
    def uni(s, tag, *i):
        steps = agg(A_ + 'constraint::StepDifference', 'Steps', [('0', at(tag + '_steps', *i))])
        return struct(s.P, A_ + 'constraint::UnivariateTerm', coeff=at(tag + '_coeff', *i), register=Reg(at(tag + '_reg', *i)), steps_difference=steps, power=at(tag + '_power', *i))
    def term(s, j, k):
        T = A_ + 'constraint::ConstraintTerm'
        poly_ = struct(s.P, A_ + 'constraint::PolyvariateTerm', coeff=at('poly_coeff', j, k), total_degree=at('poly_degree', j, k), terms=tab(at('num_factors', j, k), lambda q: s.uni('fac', j, k, q)))
        return mkite(eq0(at('kind', j, k)), agg(T, 'Univariate', [('0', s.uni('uni', j, k))]), agg(T, 'Polyvariate', [('0', poly_)]))
    def raw(s, j):
        return struct(s.P, A_ + 'constraint::Constraint', constant_term=at('constant', j), terms=tab(at('num_terms', j), lambda k: s.term(j, k)), degree=at('degree', j), density=s.density(j))
    def properties(s):
        return struct(s.P, 'crate::arp::InstanceProperties', num_rows=sym('num_rows'), num_registers=NREG, constraints=tab(NC, s.raw), boundary_constraints=tab(NBC, s.bc))
class Prep:
    """value graphs of ARPInstance::from_instance + ALIInstance::from_arp and of Verifier::new on the same description"""
    def __init__(s, K):
        s.K = K; P = s.P = K.P; s.I = Raw(P)
        one = lambda suf: (lambda l: l[0] if len(l) == 1 else _gone(suf, l))([n for n in P.bodies if n.endswith(suf)])
        s.names = dict(arp=one('::from_instance'), ali=one('::from_arp'), ver=one('PerRegisterARP>::new') if len([n for n in P.bodies if n.endswith('PerRegisterARP>::new') and 'verifier' in n]) != 1 else [n for n in P.bodies if n.endswith('PerRegisterARP>::new') and 'verifier' in n][0])
        h = poly_models(P)
        A = lambda nm, k: P.bodies[nm].locals[k].get('n') or 'arg%d' % k
        def run(nm, *vals):
            r, m, ex = K.value(nm, {A(nm, k + 1): v for k, v in enumerate(vals)}, opaque=h, ints=())
            return r, ex
        s.arp_r, s.arp_ex = run(s.names['arp'], s.I.properties)
        s.arp = fld(s.arp_r, '0', 'Ok')
        s.ali_r, s.ali_ex = run(s.names['ali'], s.arp)
        s.ver_r, s.ver_ex = run(s.names['ver'], s.I.properties, FAC)
        s.ali, s.ver = fld(s.ali_r, '0', 'Ok'), fld(s.ver_r, '0', 'Ok')
        K.ctx = dict(facts=[le(ONE, sym('num_rows'))], pow2=(), ints=CTX_INTS)
def _gone(suf, l): raise Unsupported('%d functions named %s' % (len(l), suf))
CTX_INTS = ()
