"""Specifications of the transforms and extensions (C20, C22, C29 use them)."""
from .common import *
n = sym('n'); f = sym('factor')
def ci(i): return mk('get', sym('c'), i)
def P_in(): return polynomial(vec('c', n), n)
def transform_of(shift, size, w):
    """values at shift * w^k, in natural order"""
    return tab(size, lambda k: ssum(n, lambda i: mul(mul(power(shift, i), ci(i)), power(w, mul(i, k)))))
def fft_spec(shift=ONE): return polynomial(transform_of(shift, n, root_of(n)), n)
def ifft_spec(shift=ONE):
    w = root_of(n)
    return polynomial(tab(n, lambda k: mul(mul(inv(n), power(shift, neg(k))), ssum(n, lambda i: mul(ci(i), power(w, neg(mul(i, k))))))), n)
def lde_spec(shift=ONE):
    N = mul(n, f)
    big = polynomial(transform_of(shift, N, root_of(N)), N)
    return mkite(eq0(sub(f, ONE)), ok(fft_spec(shift)), mkite(overflows(N), err(E), ok(big)))
def lde_known():
    """the recorded defect: coset number c is replaced by (c mod chunk) + (c div chunk)"""
    N = mul(n, f); w = root_of(N); ch = MD.chunk_term(f)
    def at(k):
        c = imod(k, f); bad = add(imod(c, ch), idiv(c, ch))
        return ssum(n, lambda i: mul(ci(i), power(w, mul(i, add(sub(k, c), bad)))))
    return mkite(eq0(sub(f, ONE)), ok(fft_spec(ONE)), mkite(overflows(N), err(E), ok(polynomial(tab(N, at), N))))
FACTS_LDE = (lambda: le(add(log2(n), log2(f)), S),)
G = lambda: MD.GEN
FORWARD = {'fft': ONE, 'coset_fft': MD.GEN, 'coset_fft_for_generator': sym('gen')}
LDES = {'lde': ONE, 'filtering_lde': ONE, 'lde_using_multiple_cosets_naive': ONE, 'lde_using_multiple_cosets': ONE,
        'coset_lde': MD.GEN, 'coset_filtering_lde': MD.GEN, 'coset_lde_using_multiple_cosets_naive': MD.GEN, 'coset_lde_using_multiple_cosets': MD.GEN}
INVERSE = {'ifft': ONE, 'icoset_fft': MD.GEN, 'icoset_fft_for_generator': inv(sym('geninv'))}
KNOWN_KEY = 'lde_using_multiple_cosets: the cosets of a chunk start at the chunk number instead of chunk number * chunk'

def run_all(c, K):
    for nm, sh in FORWARD.items():
        K.fn(PC + nm, dict(self=P_in, **({'gen': sym('gen')} if nm.endswith('for_generator') else {})), ret=lambda: fft_spec(sh), pow2=(n,))
    for nm, sh in INVERSE.items():
        K.fn(PV + nm, dict(self=P_in, **({'geninv': sym('geninv')} if nm.endswith('for_generator') else {})), ret=lambda: ifft_spec(sh), pow2=(n,))
    for nm, sh in LDES.items():
        r, m, ex = None, None, None
        try: r, m, ex = K.value(PC + nm, dict(self=P_in, factor=f), pow2=(n, f), facts=FACTS_LDE)
        except Unsupported as e: c.undecided(nm, str(e)); continue
        if sh is ONE and not same(r, lde_spec(ONE)) and same(r, lde_known()):
            c.ob('%s' % nm, False, 'src/polynomials/mod.rs: Polynomial::%s: each spawned worker starts its cosets at the chunk number i instead of i*chunk' % nm, key=KNOWN_KEY if nm in ('lde', 'lde_using_multiple_cosets') else nm)
            continue
        K.same(nm, r, lde_spec(sh), key=nm, where='src/polynomials/mod.rs: ')
