"""C16: a dense constraint is enforced on exactly the rows its density names."""
from .c18 import *

def inverse_divisor(x, T_, rows_, start, span):
    """1 / (x^T - 1) times the factors of all rows that are not enforced"""
    w = root_of(T_)
    return mul(inv(sub(power(x, T_), ONE)), mul(pprod(start, lambda k: sub(x, power(w, k))),
           pprod(add(sub(T_, rows_), span), lambda k: sub(x, power(w, add(k, sub(rows_, span)))))))
def dense(k): d = fld(k, '0', 'Dense'); return fld(d, 'start_at'), fld(d, 'span')
class OneCell(Raw):
    """one constraint: the value of register 0 is zero at each enforced row"""
    def properties(s):
        t = struct(s.P, A_ + 'constraint::UnivariateTerm', coeff=ONE, register=Reg(ZERO), steps_difference=agg(A_ + 'constraint::StepDifference', 'Steps', [('0', ZERO)]), power=ONE)
        d = agg(A_ + 'ConstraintDensity', 'Dense', [('0', struct(s.P, A_ + 'DenseConstraint', start_at=sym('start'), span=sym('span')))])
        k = struct(s.P, A_ + 'constraint::Constraint', constant_term=ZERO, terms=lit(agg(A_ + 'constraint::ConstraintTerm', 'Univariate', [('0', t)])), degree=ONE, density=d)
        return struct(s.P, 'crate::arp::InstanceProperties', num_rows=sym('num_rows'), num_registers=NREG, constraints=lit(k), boundary_constraints=lit())
def check(c):
    c.rule('The prover\'s inverse divisors (ALIInstance::from_arp, all densities of a symbolic instance, every point of the evaluation coset), the verifier\'s inverse divisor at a symbolic point, and the rows visited by the witness '
           'checker are brought into closed form. Both divisors must be (x^T - 1)^-1 times the product of (x - w^k) over exactly the rows k < start and num_rows - span <= k < T; the checker must visit exactly the remaining rows.')
    c.assume('Densities are dense (other densities are refused: C19)', 'start + span does not exceed the trace length')
    K = Compare(c); P = K.P
    # prover
    try:
        p = Prep(K); got = fld(p.ali, 'constraint_divisors')
        T_, N = fld(fld(p.ali, 'column_domain'), 'size'), fld(fld(p.ali, 'constraints_domain'), 'size')
        K.given = [forall(NC, lambda j: lt(add(at('start_at', j), at('span', j)), add(sym('num_rows'), ONE))), lt(ZERO, sym('num_rows'))]
        batches = MD.entries(fld(p.ali, 'constraints_batched_by_density'))
        key = lambda b: fld(get(batches, b), '0')
        w = root_of(N)
        val = lambda b: polynomial(tab(N, lambda i: inverse_divisor(mul(MD.GEN, power(w, i)), T_, sym('num_rows'), *dense(key(b)))), N)
        n = length(batches)
        want = mk('lmap', n, lamof(n, lambda b: TRUE), lamof(n, key), lamof(n, val))
        K.same('prover: inverse divisor of every density on the evaluation coset', got, want, key='prover divisor')
    except Unsupported as e: c.undecided('prover divisors', str(e)[:300])
    # verifier
    K.given = [lt(add(sym('start'), sym('span')), add(sym('num_rows'), ONE)), lt(sym('num_rows'), add(sym('T'), ONE))]
    for nm in [n for n in P.bodies if n.endswith('::inverse_divisor_for_dense_constraint')]:
        T_ = sym('T'); x = sym('x')
        d = struct(P, A_ + 'DenseConstraint', start_at=sym('start'), span=sym('span'))
        def role(l):
            ty = str(l['ty'])
            return x if ty.find("'param'") >= 0 and 'Domain' not in ty else d if 'DenseConstraint' in ty else None if 'Domain' in ty else sym('num_rows')
        b = P.bodies[nm]; init = {}; doms = [domain(T_), domain(sym('evaluation_size'))]
        for l in b.locals[1:b.argc + 1]: 
            v = role(l); init[l['n']] = doms.pop(0) if v is None else v
        K.fn(nm, init, ret=lambda: mkite(eq0(sub(power(x, T_), ONE)), err(E), ok(tup(inverse_divisor(x, T_, sym('num_rows'), sym('start'), sym('span')), sub(sub(sym('num_rows'), sym('start')), sym('span'))))),
             pow2=(T_,), facts=[lambda: le(sym('num_rows'), T_)], ints=('start', 'span', 'num_rows'), key='verifier divisor')
    # the density as the caller names it
    K.given = []
    for nm in [n for n in P.bodies if n.endswith('air::DenseConstraint::new')]:
        A = [l.get('n') or 'arg%d' % i for i, l in enumerate(P.bodies[nm].locals) if 1 <= i <= P.bodies[nm].argc]
        K.fn(nm, {A[0]: sym('start'), A[1]: sym('span')}, ret=lambda: struct(P, A_ + 'DenseConstraint', start_at=sym('start'), span=sym('span')), ints=('start', 'span'), facts=[lambda: le(ONE, sym('span'))], key='density')
    for nm, v in (('<air::DenseConstraint as core::default::Default>::default', lambda x: x), ('<air::ConstraintDensity as core::default::Default>::default', lambda x: agg(A_ + 'ConstraintDensity', 'Dense', [('0', x)]))):
        if 'crate::' + nm in P.bodies: K.fn('crate::' + nm, {}, ret=lambda: v(struct(P, A_ + 'DenseConstraint', start_at=ZERO, span=ONE)), key='default density')
    # witness checker
    K.given = [lt(add(sym('start'), sym('span')), add(sym('num_rows'), ONE)), lt(ZERO, NREG)]
    for nm in [n for n in P.bodies if n.endswith('::verify_witness')]:
        b = P.bodies[nm]; names = [l.get('n') or 'arg%d' % i for i, l in enumerate(b.locals) if 1 <= i <= b.argc]
        n = MD.monus(sym('num_rows'), add(sym('start'), sym('span')))
        K.fn(nm, {names[0]: OneCell(P).properties, names[1]: WITNESS}, ret=lambda: mkite(forall(n, lambda i: eq0(VAL(ZERO, add(sym('start'), i)))), ok(UNIT), err(E)), key='checked rows')
    c.floor('value equations', c.counts.get('value equations', 0), 3 if not K.undecided else 0)
