"""C35: witness polynomials interpolate the submitted trace."""
from .fftnet import *
from .protocol import struct

MAKE = 'crate::arp::per_register::make_witness_polymonials'
CALC = 'ARP<F> for arp::ARPInstance<F, arp::PerRegisterARP>>::calculate_witness_polys'
R, ROWS, NR, NROWS = sym('registers'), sym('rows'), sym('declared registers'), sym('declared rows')
T = npow2(ROWS)
def w(r, i): return mk('get', mk('get', sym('w'), r), i)
def witness(): return tab(R, lambda r: tab(ROWS, lambda i: w(r, i)))
def OM(): return power(MD.ROOT, power(TWO, monus(S, log2(T))))
def poly(co): return agg(POLY, '', [('coeffs', co), ('exp', log2(T)), ('omega', OM()), ('omegainv', inv(OM())), ('geninv', inv(MD.GEN)), ('minv', inv(T)), ('_marker', PHANTOM)])
def column(r):
    """coefficients whose transform is the column followed by zeros: inverse transform over the padded domain"""
    om = OM()
    return tab(T, lambda k: mul(inv(T), ssum(ROWS, lambda i: mul(w(r, i), power(om, neg(mul(i, k)))))))
def AND(a, b): return mkite(a, b, FALSE)
def spec(): return mkite(AND(NOT(overflows(T)), le(log2(T), S)), ok(tab(R, lambda r: poly(column(r)))), err(E))
def ragged(c, K, name, names, inst):
    rows = lambda r: mk('get', sym('len'), r)
    r, m, ex = K.value(name, {names[0]: inst, names[1]: lambda: tab(R, lambda r: tab(rows(r), lambda i: w(r, i)))}, facts=[lambda: le(ONE, R)], ints=(R, NR, NROWS))
    got = isvar(r, 'core::result::Result', 'Ok')
    for x in ex.panics:
        if x[2] == 'panic': got = AND(got, NOT(x[3]))
    def all_(*l):
        v = TRUE
        for x in reversed(l): v = AND(x, v)
        return v
    fits = lambda n: (NOT(overflows(npow2(n))), le(log2(npow2(n)), S))
    first = rows(ZERO)
    forms = [all_(eq0(sub(R, NR)), eq0(sub(first, NROWS)), forall(R, lambda r: eq0(sub(rows(r), first))), *fits(first)), all_(eq0(sub(R, NR)), forall(R, lambda r: eq0(sub(rows(r), NROWS))), *fits(NROWS)), all_(eq0(sub(R, NR)), eq0(sub(first, NROWS)), forall(R, lambda r: eq0(sub(rows(r), NROWS))), *fits(NROWS))]
    w_ = next((f for f in forms if same(got, f)), forms[0])
    K.same('a trace is accepted only if it has the declared number of registers and every column the declared number of rows', got, w_, key='trace shape', where='%s: ' % K.P.bodies[name].file)
def check(c):
    c.rule('The prover\'s conversion of a trace is brought into closed form for any number of registers and rows: the polynomial of register r must have the coefficients 1/T * sum_i w[r][i] * root^(-ik) over the domain of T = next power of two of the number of rows (the inverse transform of the column followed by zeros), '
           'with the domain data of that size; the public function must refuse a trace whose number of registers or rows is not the declared one and hand over every other trace unchanged.')
    c.assume('The transform kernels compute the defining sum (C28); orthogonality of the roots of unity')
    K = Compare(c, opaque=TRANSFORMS); P = K.P
    facts = [lambda: le(ONE, R), lambda: le(ONE, ROWS)]
    kw = dict(facts=facts, ints=(ROWS, R, NR, NROWS))
    b = P.bodies.get(MAKE)
    if b is not None:
        a = b.locals[1].get('n') or 'arg1'
        K.fn(MAKE, {a: witness}, ret=spec, key='witness polynomials', **kw)
    l = [n for n in P.bodies if n.endswith(CALC)]
    if len(l) != 1: c.undecided('calculate_witness_polys', '%d functions' % len(l)); K.undecided += 1
    else:
        b = P.bodies[l[0]]
        names = [x.get('n') or 'arg%d' % i for i, x in enumerate(b.locals) if 1 <= i <= b.argc]
        inst = lambda: struct(P, 'crate::arp::ARPInstance', properties=struct(P, 'crate::arp::InstanceProperties', num_registers=NR, num_rows=NROWS))
        K.fn(l[0], {names[0]: inst, names[1]: witness}, ret=lambda: mkite(AND(eq0(sub(R, NR)), eq0(sub(ROWS, NROWS))), spec(), err(E)), key='calculate_witness_polys', **kw)
    try: ragged(c, K, l[0], names, inst)
    except Unsupported as e: c.undecided('columns of different lengths', str(e)[:300])
    c.floor('value equations', c.counts.get('value equations', 0), 1 if not K.undecided else 0)
