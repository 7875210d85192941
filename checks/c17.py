"""C17: the operators that build constraints keep value and recorded degree."""
from .instance import *
import re

C_ = A_ + 'constraint::'
def uni(P, tag, *i):
    return struct(P, C_ + 'UnivariateTerm', coeff=at(tag + '_coeff', *i), register=Reg(at(tag + '_reg', *i)), steps_difference=agg(C_ + 'StepDifference', 'Steps', [('0', at(tag + '_steps', *i))]), power=at(tag + '_power', *i))
def poly(P, tag, n, *i):
    t = product(P, tag, n, *i)
    return setf(t, 'total_degree', add(M.degree(t), length(at(tag + '_excess', *i))))        # recorded degrees of operands are not below their factors'
def product(P, tag, n, *i):
    return struct(P, C_ + 'PolyvariateTerm', coeff=at(tag + '_coeff', *i), terms=tab(n, lambda k: uni(P, tag + '_f', *(i + (k,)))), total_degree=at(tag + '_degree', *i))
def cases(t, f, what):
    """f at every case of a conditional value"""
    if t.op == 'ite': return mkite(t.args[0], cases(t.args[1], f, what), cases(t.args[2], f, what))
    if t.op != 'agg': raise Unsupported('%s: %s' % (what, show(t)[:200]))
    return f(t)
def variable(t):
    """the value of the variable a term names, without coefficient or power"""
    r, s = fld(t, 'register'), fld(t, 'steps_difference')
    return cases(r, lambda r: cases(s, lambda s: at('VALUE_%s_%s' % (r.args[1], s.args[1]), *[x for _, x in r.args[2] + s.args[2]]), 'step'), 'register')
class U:
    """univariate term"""
    value = staticmethod(lambda t: mul(fld(t, 'coeff'), power(variable(t), fld(t, 'power'))))
    degree = staticmethod(lambda t: fld(t, 'power'))
    factors = staticmethod(lambda t: ONE)
class M:
    """product of univariate terms"""
    value = staticmethod(lambda t: mul(fld(t, 'coeff'), over(pprod, fld(t, 'terms'), U.value, ONE)))
    degree = staticmethod(lambda t: over(ssum, fld(t, 'terms'), lambda f: fld(f, 'power'), ZERO))
def over(agg_, l, f, unit):
    if l.op == 'concat':
        r = unit
        for x in l.args[0]: r = (mul if agg_ is pprod else add)(r, over(agg_, x, f, unit))
        return r
    return unit if length(l) is ZERO else agg_(length(l), lambda i: f(get(l, i)))
def tvalue(t): return cases(t, lambda t: (U if t.args[1] == 'Univariate' else M).value(t.args[2][0][1]), 'term')
def tdegree(t): return cases(t, lambda t: fld(t.args[2][0][1], 'power' if t.args[1] == 'Univariate' else 'total_degree'), 'term')
class Cn:
    value = staticmethod(lambda t: add(fld(t, 'constant_term'), over(ssum, fld(t, 'terms'), tvalue, ZERO)))
N, NP, NF = sym('n_terms'), sym('n_factors'), sym('n_other')
def constraint(P):
    def term(k): return mkite(eq0(at('kind', k)), agg(C_ + 'ConstraintTerm', 'Univariate', [('0', uni(P, 'u', k))]), agg(C_ + 'ConstraintTerm', 'Polyvariate', [('0', poly(P, 'p', at('p_n', k), k))]))
    return struct(P, C_ + 'Constraint', constant_term=sym('constant'), terms=tab(N, term), degree=sym('recorded'), density=sym('density'))

IN = {'u': lambda P: uni(P, 'x'), 'm': lambda P: poly(P, 'a', NP), 'm2': lambda P: poly(P, 'b', NF), 'c': constraint, 'f': lambda P: sym('scalar')}
VAL = {'u': U.value, 'm': M.value, 'm2': M.value, 'c': Cn.value, 'f': lambda t: t}
W = {'UnivariateTerm': 'u', 'PolyvariateTerm': 'm', 'Constraint': 'c'}
OPS = {'AddAssign': add, 'SubAssign': sub, 'MulAssign': mul}
INTS_ = ('n_terms', 'n_factors', 'n_other', 'recorded')

def operators(P):
    """every compound assignment whose left side is a constraint or a term: function -> (kind of left side, operator, kind of right side)"""
    for n in sorted(P.bodies):
        m = re.match(r'crate::<air::constraint::(\w+)<F> as core::ops::(?:arith::)?(\w+)(?:<(.*)>)?>::(\w+)$', n)
        if not m or m.group(2) not in OPS: continue
        r = (m.group(3) or m.group(1)).lstrip('&')
        k = re.sub(r'<.*', '', r).split('::')[-1]
        yield n, W.get(m.group(1)), m.group(2), 'f' if r == 'F' else W.get(k)

def check(c):
    c.rule('Each operator that builds constraints is brought into closed form for arbitrary operands: constraints with any number of terms of either kind, products with any number of factors. The value of the result, read with an arbitrary value for every (register, step) variable, must be the operator '
           'applied to the values of the operands; given that the recorded degrees of the operands are not below the degrees of their terms, the same must hold for the result.')
    c.assume('Degrees and powers do not overflow 64 bits; terms name ordinary registers by a number of steps (the operators treat both as opaque)')
    K = Compare(c); P = K.P
    ints = tuple(sym(x) for x in INTS_)
    def run(n, init):
        b = P.bodies[n]; where_ = '%s:%s: ' % (b.file, b.line)
        r, m, ex = K.value(n, {(b.locals[i + 1].get('n') or 'arg%d' % (i + 1)): v for i, v in enumerate(init)}, ints=ints)
        return r, m, where_, (b.locals[1].get('n') or 'arg1') if b.argc else None
    def degree_ok(what, t, kind, where_, hyp=lambda i: []):
        if kind == 'u': return
        if kind == 'm':
            f = OR(*[NOT(h) for h in hyp(ZERO)], le(M.degree(t), fld(t, 'total_degree')))
            exact = transform(f, lambda x: ZERO if x.op == 'len' and x.args[0].op == 'app' and x.args[0].args[0].endswith('_excess') else None)
            bad = exact is not f and K.differ(exact, TRUE)[0] == 'differ'           # operands whose recorded degree is exact are operands too
            K.holds('%s: recorded degree covers the factors' % what, exact if bad else f, where=where_); return
        if length(fld(t, 'terms')) is ZERO: K.holds('%s: recorded degree covers the terms' % what, le(ZERO, fld(t, 'degree')), where=where_); return
        i = fresh('i'); BOUND[i] = length(fld(t, 'terms'))
        K.holds('%s: recorded degree covers the terms' % what, OR(*[NOT(h) for h in hyp(i)], le(length(fld(t, 'terms')), i), le(tdegree(get(fld(t, 'terms'), i)), fld(t, 'degree'))), where=where_)
    done = 0
    for n, l, op, r in operators(P):
        short = n.split('constraint::')[1].replace('core::ops::arith::', '')[:60]
        if l is None or r is None: c.undecided(short, 'operands of unknown type'); continue
        if r == 'm' and l == 'm': r = 'm2'
        done += 1
        try:
            K.given = []
            a, b = IN[l](P), IN[r](P)
            ret, m, where_, me = run(n, [lambda: IN[l](P), lambda: IN[r](P)])
            if ret is None: c.ob(short, False, where_ + 'never returns'); continue
            out = m[me]
            K.same('%s: value' % short, VAL[l](out), OPS[op](VAL[l](a), VAL[r](b)), where=where_)
            old = lambda i: OR(le(N, i), le(tdegree(get(fld(a, 'terms'), i)), sym('recorded')))
            degree_ok(short, out, l, where_, lambda i: K.given + ([old(i)] if l == 'c' else []))
            if l == 'c': K.same('%s: density' % short, fld(out, 'density'), sym('density'), where=where_)
        except Unsupported as e: c.undecided(short, str(e)[:300])
    K.given = []
    # conversions, powers, defaults
    def one(suffix, init, value, kind, given_=()):
        l = [n for n in P.bodies if n.endswith(suffix) and 'air::constraint' in n]
        if len(l) != 1: c.undecided(suffix, '%d functions' % len(l)); return
        short = l[0].split('constraint::')[1][:60]
        try:
            ret, m, where_, me = run(l[0], init)
            if ret is None: c.ob(short, False, where_ + 'never returns'); return
            K.same('%s: value' % short, VAL[kind](ret), value, where=where_)
            degree_ok(short, ret, kind, where_)
            return ret, where_
        except Unsupported as e: c.undecided(short, str(e)[:300])
    x = uni(P, 'x'); p = sym('exponent')
    ints += (p,)
    r = one('UnivariateTerm::<F>::pow', [lambda: x, lambda: p], power(U.value(x), p), 'u')
    if r: K.same('pow: degree', fld(r[0], 'power'), mul(fld(x, 'power'), p), where=r[1])
    one('PolyvariateTerm<F> as core::convert::From<(F, air::constraint::UnivariateTerm<F>)>>::from', [lambda: tup(sym('scalar'), x)], mul(sym('scalar'), U.value(x)), 'm')
    one('UnivariateTerm<F> as core::convert::From<air::Register>>::from', [lambda: Reg(sym('reg'))], at('VALUE_Register_Steps', sym('reg'), ZERO), 'u')
    one('PolyvariateTerm<F> as core::default::Default>::default', [], ONE, 'm')
    one('Constraint<F> as core::default::Default>::default', [], ZERO, 'c')
    l = [n for n in P.bodies if n.endswith('UnivariateTerm::<F>::set_step_difference')]
    if len(l) == 1:
        try:
            ret, m, where_, me = run(l[0], [lambda: x, lambda: sym('steps')])
            K.same('set_step_difference: value', U.value(m[me]), mul(fld(x, 'coeff'), power(at('VALUE_Register_Steps', at('x_reg'), sym('steps')), at('x_power'))), where=where_)
        except Unsupported as e: c.undecided('set_step_difference', str(e)[:300])
    c.count('operators', done)
    c.floor('operators', done, 10)
    c.floor('value equations', c.counts.get('value equations', 0), 16)
