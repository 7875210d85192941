"""C18: the witness checker accepts only witnesses satisfying every constraint."""
from .instance import *

VAL = lambda r, i: at('witness', r, i)
def univ(tag, *i, row):
    return mul(at(tag + '_coeff', *i), power(VAL(at(tag + '_reg', *i), add(row, at(tag + '_steps', *i))), at(tag + '_power', *i)))
def factors(j, k, row):
    return mul(at('poly_coeff', j, k), pprod(at('num_factors', j, k), lambda q: univ('fac', j, k, q, row=row)))
def value_at(j, row):
    """the value of constraint j at a row: constant plus the sum of its terms"""
    return add(at('constant', j), ssum(at('num_terms', j), lambda k: mkite(eq0(at('kind', j, k)), univ('uni', j, k, row=row), factors(j, k, row))))
def outside(j, row):
    n = sym('num_rows'); past = lambda s: NOT(lt(add(row, s), n))
    return exists(at('num_terms', j), lambda k: mkite(eq0(at('kind', j, k)), past(at('uni_steps', j, k)), exists(at('num_factors', j, k), lambda q: past(at('fac_steps', j, k, q)))))
def exists(n, f): return NOT(forall(n, lambda i: NOT(f(i))))
def rows(j, f):
    """for every row from the first enforced one up to the trace length minus the span"""
    a, b = at('start_at', j), at('span', j)
    return forall(MD.monus(sym('num_rows'), add(a, b)), lambda i: f(add(a, i)))
def spec():
    good = forall(NC, lambda j: rows(j, lambda r: AND(NOT(outside(j, r)), eq0(value_at(j, r)))))
    bnd = forall(NBC, lambda i: eq(at('bc_value', i), VAL(at('bc_reg', i), at('bc_row', i))))
    return AND(good, bnd)
WITNESS = lambda: tab(NREG, lambda r: tab(sym('num_rows'), lambda i: VAL(r, i)))
def check(c):
    c.rule('ARPInstance::verify_witness and is_satisfied are brought into closed form on a symbolic instance (any number of constraints, terms of both kinds, factors, rows, boundary constraints) and a symbolic witness. '
           'The condition for success must be the defining one: every constraint, at every row of its density, reads only rows of the trace and evaluates to zero, and every boundary value holds.')
    c.assume('Register descriptions are plain registers and densities are dense (other descriptions are refused: C19)', 'The witness has one column per register, all of the stated length; boundary constraints carry a value')
    K = Compare(c); P = K.P; I = Raw(P)
    K.given = [forall(NC, lambda j: lt(add(at('start_at', j), at('span', j)), add(sym('num_rows'), ONE))), lt(ZERO, sym('num_rows')), lt(ZERO, NREG),
               forall(NBC, lambda i: lt(at('bc_row', i), sym('num_rows')))]
    n = 0
    for suf in ('::verify_witness', '::is_satisfied'):
        for nm in [x for x in P.bodies if x.endswith(suf)]:
            b = P.bodies[nm]
            if b.argc < 2: continue
            n += 1
            names = [l.get('n') or 'arg%d' % i for i, l in enumerate(b.locals) if 1 <= i <= b.argc]
            K.fn(nm, {names[0]: I.properties, names[1]: WITNESS}, ret=lambda: mkite(spec(), ok(UNIT), err(E)), key=suf.strip(':'))
    c.floor('witness checkers', n, 2)
