"""Inputs and callee summaries under which the larger functions of the crate are brought into closed form."""
from .lde import *

def binv_h(ex, a, st, t):
    """batch_inversion: fails exactly on a zero, otherwise every value is inverted (decided by C26)"""
    st = dict(st); m = ex.target(st, a[0]); v = ex.load(st, m)
    c = fld(v, 'coeffs'); i = fresh('i'); BOUND[i] = length(c)
    bad = many(length(c), close(i, eq0(get(c, i))))
    ex.store(st, m, mkite(bad, v, setf(v, 'coeffs', tab(length(c), lambda j: inv(get(c, j))))))
    return mkite(bad, err(E), ok(UNIT)), st
def ifft_h(ex, a, st, t):
    v = ex.full(st, a[0]); c = fld(v, 'coeffs')
    return setf(v, 'coeffs', tab(length(c), lambda i: mk('app', 'IFFT', (c, i))))
def lde_h(ex, a, st, t):
    """low-degree extension by a factor (C29): a polynomial of factor times the length, failing when no such domain exists"""
    v = ex.full(st, a[0]); fac = ex.full(st, a[2]); c = fld(v, 'coeffs'); N = mul(length(c), fac)
    return mkite(overflows(N), err(E), ok(polynomial(tab(N, lambda i: mk('app', 'LDE', (c, fac, i))), N)))
SUMMARIES = dict(TRANSFORMS)
SUMMARIES[PV + 'batch_inversion'] = binv_h
def ends(P, suffix):
    return [n for n in P.bodies if n.endswith(suffix)]
def hasher_h(P):
    """tree hashing as two uninterpreted functions of their arguments"""
    op = {}
    for n in ends(P, 'IopTreeHasher<F>>::hash_leaf'): op[n] = lambda ex, a, st, t: mk('app', 'HL', (ex.full(st, a[0]),))
    for n in ends(P, 'IopTreeHasher<F>>::hash_node'): op[n] = lambda ex, a, st, t: mk('app', 'HN', (ex.full(st, a[0]),))
    return op
CREATE = 'crate::<iop::blake2s_trivial_iop::Blake2sIopTree<F> as iop::IopTree<F>>::create'
BYVAL = 'crate::fri::fri_on_values::<impl fri::NaiveFriIop<F, I>>::proof_from_lde_by_values'
BYCOEF = 'crate::fri::NaiveFriIop::<F, I>::proof_from_lde_through_coefficients'
h = sym('h'); D = sym('D'); s = sym('s'); fac = sym('lde_factor')
def fri_init():
    N = mul(power(TWO, s), mul(D, fac))
    return dict(lde_values=lambda: polynomial(vec('v', N), N), lde_factor=fac, output_coeffs_at_degree_plus_one=D)
FRI = dict(pow2=(D, fac), ints=(s,))
FRI_OP = {PV + 'ifft': ifft_h, PC + 'lde': lde_h}
