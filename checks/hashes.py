"""Byte-level models: a hash state is the sequence of bytes absorbed so far."""
from .drivers import *

NL = sym('limbs_of_repr')
CAPACITY = sub(sym('const', 'ff_ce::PrimeField::NUM_BITS', ''), ONE)
CONSTS = {'ff_ce::PrimeField::CAPACITY': CAPACITY}
def digest(state): return tab(num(32), lambda i: mk('app', 'DIGEST', (state, i)))
def encoded(kind, r, n): return tab(n, lambda i: mk('app', kind, (r, n, i)))
def hash_models():
    def update(ex, a, st, t):
        st = dict(st); m = ex.target(st, a[0])
        ex.store(st, m, concat(ex.load(st, m), bytes_of(ex.full(st, a[1]))))
        return a[0], st
    def finalize(ex, a, st, t): return digest(ex.full(st, a[0]))
    def ident(ex, a, st, t): return ex.full(st, a[0])
    def lazy(ex, a, st, t): return lit(mk('app', 'STATIC', (ex.full(st, a[0]),)))
    def write(kind):
        def h(ex, a, st, t):
            st = dict(st); r = ex.full(st, a[0]); m = ex.target(st, a[1]); old = ex.load(st, m)
            # the encoding of the whole element, in front of what is left of the buffer
            ex.store(st, m, encoded(kind, r, length(old)))
            return ok(UNIT), st
        return h
    def read(kind):
        def h(ex, a, st, t):
            st = dict(st); m = ex.target(st, a[0]); x = ex.full(st, a[1])
            ex.store(st, m, tab(NL, lambda i: mk('app', 'LIMB', (lit(sym('s', kind), x), i))))
            return ok(UNIT), st
        return h
    R = 'ff_ce::PrimeFieldRepr::'
    return {'blake2s_simd::State::update': update, 'blake2s_simd::State::finalize': finalize, 'blake2s_simd::Hash::as_array': ident, 'blake2s_simd::Hash::as_bytes': ident,
            'lazy_static::lazy::Lazy::<T>::get': lazy, R + 'write_be': write('BE'), R + 'write_le': write('LE'), R + 'read_be': read('BE'), R + 'read_le': read('LE'),
            'core::default::Default::default': lambda ex, a, st, t: tab(NL, lambda i: ZERO)}
def bytes_of(x): return x
def state_of(P, static):
    """initial state held by a lazily initialised static"""
    return None
def masked(x, kind='BE'):
    """the low CAPACITY bits of a digest, limb by limb"""
    def f(i):
        low = monus(CAPACITY, mul(num(64), i))
        w = mk('app', 'LIMB', (lit(sym('s', kind), x), i))
        return mkite(lt(low, num(64)), imod(w, power(TWO, low)), w)
    return tab(NL, f)
