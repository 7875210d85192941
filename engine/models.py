"""Meaning of library calls used by the crate (core, alloc, ff, crossbeam, indexmap)."""
from .engine import *

M = {}
def model(*names):
    def d(f):
        for n in names: M[n] = f
        return f
    return d
def lookup(n, t):
    return M.get(n)

IT = 'core::iter::traits::iterator::Iterator::'
FI = 'ff_ce::Field::'
PF = 'ff_ce::PrimeField::'

# ---------------------------------------------------------------- identities
def ident(ex, a, st, t): return a[0]
for n in ['core::ops::deref::Deref::deref', 'core::ops::deref::DerefMut::deref_mut', 'core::convert::AsRef::as_ref', 'core::convert::AsMut::as_mut',
          'alloc::borrow::ToOwned::to_owned', 'core::borrow::Borrow::borrow', 'core::borrow::BorrowMut::borrow_mut',
          'alloc::vec::Vec::<T, A>::as_slice', 'alloc::vec::Vec::<T, A>::as_mut_slice', 'alloc::boxed::Box::<T>::new', 'core::convert::Into::into',
          'core::convert::From::from', 'core::hint::must_use', 'alloc::slice::<impl [T]>::into_vec', 'core::iter::traits::collect::FromIterator::from_iter',
          'alloc::vec::Vec::<T, A>::into_boxed_slice', 'core::hint::black_box', 'core::array::<impl [T; N]>::as_slice']:
    M[n] = ident
def value(ex, a, st, t): return ex.full(st, a[0])
for n in ['core::clone::Clone::clone', 'alloc::slice::<impl [T]>::to_vec', 'core::option::Option::<&T>::cloned', 'core::option::Option::<&T>::copied',
          'core::option::Option::<&mut T>::cloned', 'core::option::Option::<&mut T>::copied']:
    M[n] = value
@model('core::clone::Clone::clone_from')
def _(ex, a, st, t):
    st = dict(st); ex.store(st, ex.target(st, a[0]), ex.full(st, a[1])); return UNIT, st
def unit(ex, a, st, t): return UNIT
for n in ['core::mem::drop', 'std::io::stdio::_print', 'std::io::stdio::_eprint', 'core::mem::forget']: M[n] = unit
def fmtv(ex, a, st, t): return sym('fmt')
for n in ['core::fmt::Arguments::<\'a>::from_str', 'core::fmt::Arguments::<\'a>::new', 'core::fmt::rt::Argument::<\'_>::new_debug', 'core::fmt::rt::Argument::<\'_>::new_display',
          'core::fmt::Arguments::<\'_>::from_str', 'core::fmt::rt::Argument::<\'_>::new_lower_hex']: M[n] = fmtv

# decimal text of an integer, only ever read back as a field element
@model('core::fmt::rt::Argument::<\'_>::new_display')
def _(ex, a, st, t): return mk('disp', ex.full(st, a[0]))
@model('core::fmt::Arguments::<\'a>::new')
def _(ex, a, st, t):
    arr = ex.full(st, a[1]) if len(a) > 1 else UNDEF
    return mk('fmtargs', ex.full(st, a[0]), arr)
@model('alloc::fmt::format')
def _(ex, a, st, t):
    x = a[0]
    if x.op == 'fmtargs' and x.args[1].op == 'lit' and len(x.args[1].args[0]) == 1 and x.args[1].args[0][0].op == 'disp':
        tmpl = show(x.args[0])
        v = x.args[1].args[0][0].args[0]
        if 'xc0' in tmpl and len(tmpl) < 16 and only_placeholder(tmpl): return mk('dec', v)
    return mk('app', 'format', (x,))
def only_placeholder(s):
    return s.replace('lit.', '') in ('b"\\xc0\\x00"', 'b\\"\\xc0\\x00\\"')
@model('alloc::string::ToString::to_string')
def _(ex, a, st, t): return mk('dec', ex.full(st, a[0]))
@model(PF + 'from_str')
def _(ex, a, st, t):
    v = ex.full(st, a[0])
    if v.op == 'dec': return some(v.args[0])
    if v.op == 'sym' and v.args[0] == 'lit':
        s = v.args[1].strip('"')
        if s.isdigit(): return some(num(int(s)))
    return mk('app', PF + 'from_str', (v,))

# ---------------------------------------------------------------- field
@model(FI + 'zero')
def _(ex, a, st, t): return ZERO
@model(FI + 'one')
def _(ex, a, st, t): return ONE
def fop(f):
    def g(ex, a, st, t):
        st = dict(st); m = ex.target(st, a[0])
        ex.store(st, m, f(ex.load(st, m), *[ex.full(st, x) for x in a[1:]]))
        return UNIT, st
    return g
M[FI + 'add_assign'] = fop(add)
M[FI + 'sub_assign'] = fop(sub)
M[FI + 'mul_assign'] = fop(mul)
M[FI + 'negate'] = fop(neg)
M[FI + 'square'] = fop(lambda x: mul(x, x))
M[FI + 'double'] = fop(lambda x: add(x, x))
@model(FI + 'inverse')
def _(ex, a, st, t):
    x = ex.full(st, a[0])
    n = as_num(x)
    if n is not None and n != 0: return some(inv(x))
    if surely_nonzero(x): return some(inv(x))
    return mkite(eq0(x), NONE, some(inv(x)))
def surely_nonzero(x):
    sm = single_mono(x)
    if sm is None: return False
    return all((as_num(b) not in (None, 0)) or b in NONZERO or b.op in ('npow2',) or b in terms.POW2 or surely_nonzero_atom(b) for b, e in sm[0])
def surely_nonzero_atom(b):
    return False
NONZERO = set()
@model(FI + 'is_zero')
def _(ex, a, st, t): return eq0(ex.full(st, a[0]))
@model(FI + 'pow')
def _(ex, a, st, t):
    e = ex.full(st, a[1])
    if e.op == 'lit' and len(e.args[0]) == 1: return power(ex.full(st, a[0]), e.args[0][0])
    return power(ex.full(st, a[0]), get(e, ZERO)) if False else mk('app', FI + 'pow', (ex.full(st, a[0]), e))
@model(PF + 'multiplicative_generator')
def _(ex, a, st, t): return GEN
@model(PF + 'root_of_unity')
def _(ex, a, st, t): return ROOT
GEN = sym('generator'); ROOT = sym('root_of_unity')
NONZERO |= {GEN, ROOT}

@model('core::cmp::PartialEq::eq')
def _(ex, a, st, t): return simp_cond(eq(ex.full(st, a[0]), ex.full(st, a[1])))
@model('core::cmp::PartialEq::ne')
def _(ex, a, st, t): return NOT(simp_cond(eq(ex.full(st, a[0]), ex.full(st, a[1]))))
M['core::cmp::impls::<impl core::cmp::PartialEq<&B> for &A>::eq'] = M['core::cmp::PartialEq::eq']
M['core::cmp::impls::<impl core::cmp::PartialEq<&B> for &A>::ne'] = M['core::cmp::PartialEq::ne']
def cmpop(f):
    def g(ex, a, st, t): return simp_cond(f(ex.full(st, a[0]), ex.full(st, a[1])))
    return g
M['core::cmp::PartialOrd::lt'] = cmpop(lt)
M['core::cmp::PartialOrd::le'] = cmpop(le)
M['core::cmp::PartialOrd::gt'] = cmpop(lambda x, y: lt(y, x))
M['core::cmp::PartialOrd::ge'] = cmpop(lambda x, y: le(y, x))
@model('core::cmp::min', 'core::cmp::Ord::min')
def _(ex, a, st, t): return mkmin([ex.full(st, a[0]), ex.full(st, a[1])])
@model('core::cmp::max', 'core::cmp::Ord::max')
def _(ex, a, st, t): return mkmax(ex.full(st, a[0]), ex.full(st, a[1]))

# ---------------------------------------------------------------- operators on references and traits
for nm, f in (('add::Add::add', add), ('sub::Sub::sub', sub), ('mul::Mul::mul', mul), ('div::Div::div', idiv), ('rem::Rem::rem', imod)):
    def g(ex, a, st, t, f=f):
        x, y = ex.full(st, a[0]), ex.full(st, a[1])
        return f(x, y)
    M['core::ops::arith::' + nm.split('::', 1)[1]] = g
    M['core::ops::arith::' + nm.split('::')[1] + '::' + nm.split('::')[2]] = g
for nm, f in (('AddAssign::add_assign', add), ('SubAssign::sub_assign', sub), ('MulAssign::mul_assign', mul)):
    M['core::ops::arith::' + nm] = fop(f)

# ---------------------------------------------------------------- integers
for ty in ('u64', 'usize', 'u32'):
    pre = 'core::num::<impl %s>::' % ty
    M[pre + 'next_power_of_two'] = lambda ex, a, st, t: npow2(a[0])
    M[pre + 'checked_next_power_of_two'] = lambda ex, a, st, t: mk_checked(npow2(a[0]))
    M[pre + 'is_power_of_two'] = lambda ex, a, st, t: ispow2(a[0])
    M[pre + 'checked_mul'] = lambda ex, a, st, t: mk_checked(mul(a[0], a[1]))
    M[pre + 'checked_add'] = lambda ex, a, st, t: mk_checked(add(a[0], a[1]))
    M[pre + 'checked_sub'] = lambda ex, a, st, t: mkite(lt(a[0], a[1]), NONE, some(sub(a[0], a[1])))
    M[pre + 'saturating_sub'] = lambda ex, a, st, t: monus(a[0], a[1])
    M[pre + 'wrapping_add'] = lambda ex, a, st, t: add(a[0], a[1])
    M[pre + 'wrapping_sub'] = lambda ex, a, st, t: sub(a[0], a[1])
    M[pre + 'wrapping_mul'] = lambda ex, a, st, t: mul(a[0], a[1])
    M[pre + 'pow'] = lambda ex, a, st, t: power(a[0], a[1])
    M[pre + 'trailing_zeros'] = lambda ex, a, st, t: log2(a[0]) if is_pow2_term(a[0]) else mk('app', 'trailing_zeros', (a[0],))
    M[pre + 'ilog2'] = lambda ex, a, st, t: log2(a[0])
    M[pre + 'div_ceil'] = lambda ex, a, st, t: ceildiv(a[0], a[1])
    M[pre + 'leading_zeros'] = lambda ex, a, st, t, ty=ty: mk('app', 'leading_zeros_' + ty, (a[0],))
    M[pre + 'min_value'] = lambda ex, a, st, t: ZERO
def mk_checked(x):
    """a checked operation: fails exactly when the exact value does not fit"""
    if as_num(x) is not None: return some(x)
    return mkite(mk('app', 'overflows', (x,)), NONE, some(x))

# ---------------------------------------------------------------- option / result
def opt_some(x): return isvar(x, OPT, 'Some')
def res_ok(x): return isvar(x, RES, 'Ok')
def payload(x, v): return fld(x, '0', v)
def unwrap(ok_, v, kind):
    def g(ex, a, st, t):
        x = a[0] if a[0].op != 'mref' else ex.full(st, a[0])
        c = ok_(x)
        c2 = ex.known(c, ())
        if c2 is not TRUE:
            F, b, tt, lits = ex.cur
            if not ex.quiet:
                ex.panics.append((F.body.name, tt.get('ln'), kind, AND(*[lits_term(l) for l in ex.lits], NOT(c)), NOT(c), ex.known_now()))
            if all(unskippable(*x) for x in ex.calls): ex.assume(c)
        if c2 is FALSE: return None, st
        return strip(payload(x, v), c)
    return g
def strip(v, c):
    return assume(v, ((c, True),)) if v.hc else v
M['core::option::Option::<T>::unwrap'] = M['core::option::Option::<T>::expect'] = unwrap(opt_some, 'Some', 'unwrap')
M['core::result::Result::<T, E>::unwrap'] = M['core::result::Result::<T, E>::expect'] = unwrap(res_ok, 'Ok', 'unwrap')
@model('core::option::Option::<T>::is_some')
def _(ex, a, st, t): return opt_some(ex.full(st, a[0]))
@model('core::option::Option::<T>::is_none')
def _(ex, a, st, t): return NOT(opt_some(ex.full(st, a[0])))
@model('core::result::Result::<T, E>::is_ok')
def _(ex, a, st, t): return res_ok(ex.full(st, a[0]))
@model('core::result::Result::<T, E>::is_err')
def _(ex, a, st, t): return NOT(res_ok(ex.full(st, a[0])))
@model('core::option::Option::<T>::ok_or', 'core::option::Option::<T>::ok_or_else')
def _(ex, a, st, t): return mkite(opt_some(a[0]), ok(payload(a[0], 'Some')), err(E))
@model('core::result::Result::<T, E>::ok')
def _(ex, a, st, t): return mkite(res_ok(a[0]), some(payload(a[0], 'Ok')), NONE)
@model('core::result::Result::<T, E>::map_err', 'core::result::Result::<T, E>::or')
def _(ex, a, st, t):
    if t['f']['f']['name'] == 'or': return NotImplemented
    return mkite(res_ok(a[0]), ok(payload(a[0], 'Ok')), err(E))
@model('core::option::Option::<T>::unwrap_or', 'core::result::Result::<T, E>::unwrap_or')
def _(ex, a, st, t):
    if 'option' in t['f']['f']['def']: return mkite(opt_some(a[0]), payload(a[0], 'Some'), a[1])
    return mkite(res_ok(a[0]), payload(a[0], 'Ok'), a[1])
@model('core::option::Option::<T>::map', 'core::result::Result::<T, E>::map', 'core::option::Option::<T>::and_then', 'core::result::Result::<T, E>::and_then')
def _(ex, a, st, t):
    x = a[0]; o = 'option' in t['f']['f']['def']; nm = t['f']['f']['name']
    c = opt_some(x) if o else res_ok(x)
    if c is FALSE: return NONE if o else err(E)
    r, st2 = ex.call_closure(st, a[1], [payload(x, 'Some' if o else 'Ok')])
    if r is None: return None, st
    y = r if nm == 'and_then' else (some(r) if o else ok(r))
    return mkite(c, y, NONE if o else err(E)), ex.merge2(c, st2, st)
@model('core::option::Option::<T>::as_mut')
def _(ex, a, st, t):
    m = ex.target(st, a[0]); v = ex.load(st, m)
    return mkite(opt_some(v), some(ex.ext(m, ('f', '0', 'Some'))), NONE)
@model('core::option::Option::<T>::as_ref')
def _(ex, a, st, t): return ex.full(st, a[0])
@model('core::option::Option::<T>::iter', 'core::option::Option::<T>::into_iter')
def _(ex, a, st, t):
    v = ex.full(st, a[0])
    return mkiter(optseq(v))
def optseq(v):
    return mkite(opt_some(v), lit(payload(v, 'Some')), EMPTYSEQ)
@model('core::option::Option::<T>::take')
def _(ex, a, st, t):
    st = dict(st); m = ex.target(st, a[0]); v = ex.load(st, m); ex.store(st, m, NONE); return v, st
@model('core::option::Option::<T>::replace')
def _(ex, a, st, t):
    st = dict(st); m = ex.target(st, a[0]); v = ex.load(st, m); ex.store(st, m, some(a[1])); return v, st
CF = 'core::ops::control_flow::ControlFlow'
@model('core::ops::try_trait::Try::branch')
def _(ex, a, st, t):
    x = a[0]
    ty = t['f']['f'].get('self', {}).get('s', '')
    if ty == OPT:
        return mkite(opt_some(x), agg(CF, 'Continue', [('0', payload(x, 'Some'))]), agg(CF, 'Break', [('0', NONE)]))
    return mkite(res_ok(x), agg(CF, 'Continue', [('0', payload(x, 'Ok'))]), agg(CF, 'Break', [('0', err(E))]))
@model('core::ops::try_trait::FromResidual::from_residual')
def _(ex, a, st, t):
    ty = t['f']['f'].get('self', {}).get('s', '')
    return NONE if ty == OPT else err(E)
@model('core::ops::try_trait::Try::from_output')
def _(ex, a, st, t):
    ty = t['f']['f'].get('self', {}).get('s', '')
    return some(a[0]) if ty == OPT else ok(a[0])

@model('core::mem::swap')
def _(ex, a, st, t):
    st = dict(st); m, n = ex.target(st, a[0]), ex.target(st, a[1])
    x, y = ex.load(st, m), ex.load(st, n)
    ex.store(st, m, y); ex.store(st, n, x)
    return UNIT, st
@model('core::mem::replace')
def _(ex, a, st, t):
    st = dict(st); m = a[0]
    x = ex.load(st, m)
    ex.store(st, m, a[1]); return x, st
@model('core::mem::take')
def _(ex, a, st, t):
    st = dict(st); m = a[0]; x = ex.load(st, m)
    ex.store(st, m, EMPTYSEQ); return x, st

# ---------------------------------------------------------------- vectors and slices
@model('alloc::vec::Vec::<T>::new', 'alloc::vec::Vec::<T>::with_capacity', 'alloc::vec::Vec::<T, A>::new_in')
def _(ex, a, st, t): return EMPTYSEQ
@model('alloc::vec::from_elem')
def _(ex, a, st, t):
    x = ex.full(st, a[0])
    return tab(a[1], lambda i: x)
@model('alloc::boxed::Box::<T>::new_uninit')
def _(ex, a, st, t): return UNDEF
@model('alloc::boxed::box_assume_init_into_vec_unsafe')
def _(ex, a, st, t): return fld(fld(a[0], 'value'), 'value')
@model('alloc::vec::Vec::<T, A>::len', 'core::slice::<impl [T]>::len', 'core::str::<impl str>::len')
def _(ex, a, st, t): return length(ex.full(st, a[0]))
@model('alloc::vec::Vec::<T, A>::is_empty', 'core::slice::<impl [T]>::is_empty')
def _(ex, a, st, t): return eq0(length(ex.full(st, a[0])))
def seqop(f):
    def g(ex, a, st, t):
        st = dict(st); m = ex.target(st, a[0])
        ex.store(st, m, f(ex.load(st, m), *[ex.full(st, x) for x in a[1:]]))
        return UNIT, st
    return g
def vals(ex, st, v):
    """a sequence whose items may be references, as values"""
    return ex.resolve_all(st, v)
@model('alloc::vec::Vec::<T, A>::push')
def _(ex, a, st, t):
    st = dict(st); m = ex.target(st, a[0])
    ex.store(st, m, concat(ex.load(st, m), lit(a[1]))); return UNIT, st
@model('alloc::vec::Vec::<T, A>::pop')
def _(ex, a, st, t):
    st = dict(st); m = ex.target(st, a[0]); v = ex.load(st, m)
    n = length(v); z = eq0(n)
    if v.op == 'concat' and v.args[0][-1].op == 'lit':
        l = v.args[0][-1].args[0]
        ex.store(st, m, concat(*v.args[0][:-1], lit(*l[:-1]))); return some(l[-1]), st
    if v.op == 'lit' and v.args[0]:
        ex.store(st, m, lit(*v.args[0][:-1])); return some(v.args[0][-1]), st
    ex.store(st, m, mkite(z, v, slice_(v, ZERO, sub(n, ONE))))
    return mkite(z, NONE, some(get(v, sub(n, ONE)))), st
@model('alloc::vec::Vec::<T, A>::insert')
def _(ex, a, st, t):
    st = dict(st); m = ex.target(st, a[0]); v = ex.load(st, m); i = a[1]
    may_panic(ex, 'bounds', NOT(simp_cond(lt(i, length(v)))))
    ex.store(st, m, concat(slice_(v, ZERO, i), lit(a[2]), slice_(v, i, sub(length(v), i)))); return UNIT, st
@model('alloc::vec::Vec::<T, A>::resize')
def _(ex, a, st, t):
    st = dict(st); m = ex.target(st, a[0]); v = ex.load(st, m)
    ex.store(st, m, resize(v, a[1], ex.full(st, a[2]))); return UNIT, st
def resize(v, n, x):
    L = length(v)
    if L is n: return v
    d = sub(n, L)
    if surely_le0(neg(d)): return concat(v, tab(d, lambda i: x))
    if surely_le0(d): return slice_(v, ZERO, n)
    return tab(n, lambda i: mkite(simp_cond(lt(i, L)), get(v, i), x))
@model('alloc::vec::Vec::<T, A>::truncate')
def _(ex, a, st, t):
    st = dict(st); m = ex.target(st, a[0]); v = ex.load(st, m)
    L = length(v)
    n = mkmin([L, a[1]]) if not surely_le0(sub(a[1], L)) else a[1]
    ex.store(st, m, slice_(v, ZERO, n)); return UNIT, st
@model('alloc::vec::Vec::<T, A>::clear')
def _(ex, a, st, t):
    st = dict(st); ex.store(st, ex.target(st, a[0]), EMPTYSEQ); return UNIT, st
@model('alloc::vec::Vec::<T, A>::append')
def _(ex, a, st, t):
    st = dict(st); m, n = ex.target(st, a[0]), ex.target(st, a[1])
    ex.store(st, m, concat(ex.load(st, m), ex.load(st, n))); ex.store(st, n, EMPTYSEQ); return UNIT, st
@model('core::iter::traits::collect::Extend::extend', 'alloc::vec::Vec::<T, A>::extend_from_slice')
def _(ex, a, st, t):
    st = dict(st); m = ex.target(st, a[0])
    it, st = to_iter(ex, a[1], st)
    s, st = drain(ex, it, st)
    ex.store(st, m, concat(ex.load(st, m), vals(ex, st, s))); return UNIT, st
@model('alloc::vec::Vec::<T, A>::remove', 'alloc::vec::Vec::<T, A>::swap_remove')
def _(ex, a, st, t):
    if t['f']['f']['name'] != 'remove': return NotImplemented
    st = dict(st); m = ex.target(st, a[0]); v = ex.load(st, m); i = a[1]
    may_panic(ex, 'bounds', NOT(simp_cond(lt(i, length(v)))))
    ex.store(st, m, concat(slice_(v, ZERO, i), slice_(v, add(i, ONE), sub(sub(length(v), i), ONE))))
    return get(v, i), st
@model('alloc::vec::Vec::<T, A>::split_off')
def _(ex, a, st, t):
    st = dict(st); m = ex.target(st, a[0]); v = ex.load(st, m)
    may_panic(ex, 'bounds', NOT(simp_cond(le(a[1], length(v)))))
    ex.store(st, m, slice_(v, ZERO, a[1])); return slice_(v, a[1], sub(length(v), a[1])), st

def rng(r, n):
    """(offset, count) of a range index value over n elements"""
    if r.op == 'agg':
        nm = r.args[0].split('::')[-1]
        if nm == 'Range':
            lo, hi = fld(r, 'start'), fld(r, 'end'); return lo, sub(hi, lo)
        if nm == 'RangeFrom': return fld(r, 'start'), sub(n, fld(r, 'start'))
        if nm == 'RangeTo': return ZERO, fld(r, 'end')
        if nm == 'RangeFull': return ZERO, n
        if nm == 'RangeInclusive': return fld(r, 'start'), add(sub(fld(r, 'end'), fld(r, 'start')), ONE)
        if nm == 'RangeToInclusive': return ZERO, add(fld(r, 'end'), ONE)
    return None
def oob(ex, st, base, i, n):
    r = rng(i, n)
    may_panic(ex, 'bounds', NOT(simp_cond(lt(i, n))) if r is None else OR(NOT(simp_cond(le(add(r[0], r[1]), n))), NOT(simp_cond(le(ZERO, r[1])))))
def may_panic(ex, kind, bad):
    if ex.quiet: return
    bad = ex.known(bad, ())
    if bad is FALSE: return
    F, b, tt, lits = ex.cur
    ex.panics.append((F.body.name, tt.get('ln'), kind, AND(*[lits_term(l) for l in ex.lits], bad), bad, ex.known_now()))
@model('core::ops::index::Index::index')
def _(ex, a, st, t):
    i = ex.full(st, a[1])
    v = ex.full(st, a[0])
    if v.op in ('mapnew', 'mapins', 'mapof', 'lmap', 'mapfun', 'mapopt', 'groupby') or is_map(t): 
        return payload(mapget(v, i), 'Some')
    oob(ex, st, v, i, length(v))
    r = rng(i, length(v))
    if r is not None: return slice_(v, r[0], r[1])
    return get(v, i)
def is_map(t):
    return 'IndexMap' in str(t['f']['f'].get('self', {}).get('s', '')) or 'HashMap' in str(t['f']['f'].get('self', {}).get('s', ''))
@model('core::ops::index::IndexMut::index_mut')
def _(ex, a, st, t):
    i = ex.full(st, a[1]); m = ex.target(st, a[0]); v = ex.load(st, m)
    if is_map(t): return NotImplemented
    oob(ex, st, v, i, length(v))
    r = rng(i, length(v))
    if r is not None: return ex.ext(m, ('s', r[0], r[1]))
    return ex.ext(m, ('i', i))
@model('core::slice::<impl [T]>::get')
def _(ex, a, st, t):
    v = ex.full(st, a[0]); i = ex.full(st, a[1])
    r = rng(i, length(v))
    if r is not None: return mkite(simp_cond(le(add(r[0], r[1]), length(v))), some(slice_(v, r[0], r[1])), NONE)
    return mkite(simp_cond(lt(i, length(v))), some(get(v, i)), NONE)
@model('core::slice::<impl [T]>::get_mut')
def _(ex, a, st, t):
    m = ex.target(st, a[0]); v = ex.load(st, m); i = ex.full(st, a[1])
    return mkite(simp_cond(lt(i, length(v))), some(ex.ext(m, ('i', i))), NONE)
@model('core::slice::<impl [T]>::last')
def _(ex, a, st, t):
    v = ex.full(st, a[0]); n = length(v)
    return mkite(simp_cond(eq0(n)), NONE, some(get(v, sub(n, ONE))))
@model('core::slice::<impl [T]>::first')
def _(ex, a, st, t):
    v = ex.full(st, a[0]); n = length(v)
    return mkite(simp_cond(eq0(n)), NONE, some(get(v, ZERO)))
@model('core::slice::<impl [T]>::first_mut', 'core::slice::<impl [T]>::last_mut')
def _(ex, a, st, t):
    m = ex.target(st, a[0]); v = ex.load(st, m); n = length(v)
    i = ZERO if t['f']['f']['name'] == 'first_mut' else sub(n, ONE)
    return mkite(simp_cond(eq0(n)), NONE, some(ex.ext(m, ('i', i))))
@model('core::slice::<impl [T]>::swap')
def _(ex, a, st, t):
    st = dict(st); m = ex.target(st, a[0]); v = ex.load(st, m)
    i, j = a[1], a[2]
    x, y = get(v, i), get(v, j)
    ex.store(st, m, upd(upd(v, i, y), j, x)); return UNIT, st
@model('core::slice::<impl [T]>::reverse')
def _(ex, a, st, t):
    st = dict(st); m = ex.target(st, a[0]); ex.store(st, m, rev(ex.load(st, m))); return UNIT, st
@model('core::slice::<impl [T]>::fill')
def _(ex, a, st, t):
    st = dict(st); m = ex.target(st, a[0]); v = ex.load(st, m); x = a[1]
    ex.store(st, m, tab(length(v), lambda i: x)); return UNIT, st
@model('core::slice::<impl [T]>::copy_from_slice', 'core::slice::<impl [T]>::clone_from_slice')
def _(ex, a, st, t):
    st = dict(st); m = ex.target(st, a[0]); v = ex.full(st, a[1])
    may_panic(ex, 'bounds', NOT(simp_cond(eq(length(ex.load(st, m)), length(v)))))
    ex.store(st, m, v); return UNIT, st
@model('core::slice::<impl [T]>::contains')
def _(ex, a, st, t):
    v = ex.full(st, a[0]); x = ex.full(st, a[1])
    i = fresh('i'); BOUND[i] = length(v)
    return many(length(v), close(i, eq(get(v, i), x)))
@model('alloc::slice::<impl [T]>::sort', 'core::slice::<impl [T]>::sort_unstable')
def _(ex, a, st, t):
    st = dict(st); m = ex.target(st, a[0]); v = ex.load(st, m)
    ex.store(st, m, sorted_seq(v)); return UNIT, st
def sorted_seq(v):
    if v.op == 'lit' and len(v.args[0]) == 2:
        x, y = v.args[0]
        c = simp_cond(lt(y, x))
        return lit(mkite(c, y, x), mkite(c, x, y))
    return mk('sorted', v)
@model('core::slice::<impl [T]>::split_at_mut')
def _(ex, a, st, t):
    m = ex.target(st, a[0]); n = length(ex.load(st, m))
    may_panic(ex, 'bounds', NOT(simp_cond(le(a[1], n))))
    return tup(ex.ext(m, ('s', ZERO, a[1])), ex.ext(m, ('s', a[1], sub(n, a[1]))))
@model('core::slice::<impl [T]>::split_at')
def _(ex, a, st, t):
    v = ex.full(st, a[0]); n = length(v)
    may_panic(ex, 'bounds', NOT(simp_cond(le(a[1], n))))
    return tup(slice_(v, ZERO, a[1]), slice_(v, a[1], sub(n, a[1])))
@model('core::slice::<impl [T]>::concat')
def _(ex, a, st, t):
    v = ex.full(st, a[0])
    return flat(length(v), lamof(length(v), lambda i: get(v, i)))

# ---------------------------------------------------------------- iterators
def itemseq(ex, st, v):
    """the sequence iterated by `for x in v` for a vector / slice / reference / iterator value"""
    if v.op == 'mref':
        m = ex.target(st, v); w = ex.load(st, m)
        if is_iter(w): return None
        if w.op == 'agg' and w.args[0].split('::')[-1] == 'Option': return None
        n = length(w)
        return tab(n, lambda i: ex.ext(m, ('i', i)))
    return None
def is_iter(v): return v.op == 'agg' and v.args[0] in ('iter', 'maps', 'filters', 'flats', 'tw')
def user_next(ex, v):
    """the crate's own `next` for a value of a crate type: directly, or through a trait object the value can become"""
    b = ex.method_of(v, 'core::iter::traits::iterator::Iterator', 'next')
    if b is not None: return b
    traits = {i.get('trait') for i in ex.P.impls if i['self'].get('s') == v.args[0]}
    for i in ex.P.impls:
        if i.get('trait') == 'core::iter::traits::iterator::Iterator' and i['self'].get('k') == 'dyn' and any(t and i['self']['s'].strip('()').split(' + ')[0] == 'dyn ' + t.replace('crate::', '') for t in traits):
            for it in i['items']:
                if it['n'] == 'next': return ex.P.bodies.get(it['def'])
    return None
def user_seq(ex, v):
    """a hand-written iterator as a sequence: fields that move by a fixed amount per item, and an item while a condition on them holds"""
    if v.op != 'agg' or not v.args[0].startswith('crate::'): return None
    b = user_next(ex, v)
    if b is None: return None
    from .loops import posi
    vs = [(n, fresh('q')) for n, _ in v.args[2]]
    ex.fid += 1; cell = 'u%d' % ex.fid
    r, st = ex.call_body(b, [mref(cell)], {cell: agg(v.args[0], v.args[1], vs)})
    if r is None or cell not in st: return None
    more = simp_cond(isvar(r, OPT, 'Some'))
    nxt = st[cell] if more is TRUE else transform(st[cell], lambda n: None)
    def under(x): return apply_cond(x, more, TRUE)
    step = {}
    for n, q in vs:
        d = sub(under(fld(nxt, n)), q) if fld(nxt, n) is not q else ZERO
        if any(x in d.fs for _, x in vs): return None
        step[n] = d
    item = under(fld(r, '0', 'Some'))
    at = lambda i: {q: add(x, mul(step[n], i)) if step[n] is not ZERO else x for (n, q), (_, x) in zip(vs, v.args[2])}
    i = fresh('i'); c = simp_cond(subst(more, at(i)))
    def count(c):
        """items while i < bound"""
        if c is FALSE: return ZERO
        if c.op == 'ite' and i not in c.args[0].fs:
            x, y = count(c.args[1]), count(c.args[2])
            return None if x is None or y is None else mkite(c.args[0], x, y)
        if c.op != 'lt0': return None
        ind = find_ind(c.args[0])
        if ind is not None and i not in ind.fs: return count(mk('ite', ind, simp_cond(assume1(c, ind, True)), simp_cond(assume1(c, ind, False))))
        bound = sub(i, c.args[0])
        return None if i in bound.fs else posi(bound)
    n = count(c)
    return None if n is None else tab(n, lambda k: subst(item, at(k)))
def apply_cond(x, c, v):
    from .terms import assume1
    return assume1(x, c, v is TRUE) if c is not TRUE else x
def to_iter(ex, v, st):
    if is_iter(v): return v, st
    u = user_seq(ex, v)
    if u is not None: return mkiter(u), st
    if v.op == 'mref':
        w = ex.load(st, ex.target(st, v))
        if is_iter(w): return v, st
        if w.op == 'agg' and w.args[0] == OPT:
            return mkiter(optseq(w)), st
        return mkiter(itemseq(ex, st, v)), st
    if v.op == 'agg' and v.args[0].split('::')[-1] in ('Range', 'RangeInclusive', 'RangeFrom'): return mkiter(range_seq(v)), st
    if v.op == 'agg' and v.args[0] == OPT: return mkiter(optseq(v)), st
    if v.op == 'ite' and all(x.op == 'agg' and x.args[0] == OPT for x in v.args[1:]): return mkiter(optseq(v)), st
    if v.op == 'ite' and all(is_iter(x) for x in v.args[1:]):
        return mkiter(mkite(v.args[0], iter_rest(v.args[1]), iter_rest(v.args[2]))), st
    if v.op in ('mapnew', 'mapins', 'mapof', 'lmap', 'groupby'): return mkiter(entries(v)), st
    if v.op in ('setnew', 'setadd', 'setof'): return mkiter(elems(v)), st
    return mkiter(v), st
def range_seq(r):
    lo, hi = fld(r, 'start'), fld(r, 'end')
    nm = r.args[0].split('::')[-1]
    if nm == 'RangeFrom': return tab(sym('infinity'), lambda i: add(lo, i))
    if nm == 'RangeInclusive': hi = add(hi, ONE)
    from .loops import posi
    n = posi(sub(hi, lo)) 
    return tab(n, lambda i: add(lo, i))
@model('core::iter::traits::collect::IntoIterator::into_iter')
def _(ex, a, st, t):
    x = a[0]
    ty = str(t['f']['f'].get('self', ''))
    if 'IndexMap' in ty or 'HashMap' in ty:
        return mkiter(entries(ex.full(st, x)))
    return to_iter(ex, x, st)
@model('core::slice::<impl [T]>::iter')
def _(ex, a, st, t): return mkiter(ex.full(st, a[0]))
@model('core::slice::<impl [T]>::iter_mut')
def _(ex, a, st, t):
    s = itemseq(ex, st, a[0])
    if s is None: return NotImplemented
    return mkiter(s)
def chunked(n, c, f):
    from .loops import posi
    N = ceildiv(n, c)
    return tab(N, lambda i: f(mul(i, c), chunk_cnt(n, c, i)))
def chunk_cnt(n, c, i):
    if as_num(c) == 1: return ONE
    if n is mul(c, idiv(n, c)): return c
    return mkmin([c, sub(n, mul(i, c))])
@model('core::slice::<impl [T]>::chunks')
def _(ex, a, st, t):
    v = ex.full(st, a[0])
    may_panic(ex, 'chunk size', simp_cond(eq(a[1], ZERO)))
    return mkiter(chunked(length(v), a[1], lambda o, c: slice_(v, o, c)))
@model('core::slice::<impl [T]>::chunks_mut')
def _(ex, a, st, t):
    m = ex.target(st, a[0]); n = length(ex.load(st, m))
    may_panic(ex, 'chunk size', simp_cond(eq(a[1], ZERO)))
    return mkiter(chunked(n, a[1], lambda o, c: ex.ext(m, ('s', o, c))))
@model('core::slice::<impl [T]>::chunks_exact')
def _(ex, a, st, t):
    v = ex.full(st, a[0]); c = a[1]
    may_panic(ex, 'chunk size', simp_cond(eq(c, ZERO)))
    return mkiter(tab(idiv(length(v), c), lambda i: slice_(v, mul(i, c), c)))
@model('core::slice::<impl [T]>::chunks_exact_mut')
def _(ex, a, st, t):
    m = ex.target(st, a[0]); n = length(ex.load(st, m)); c = a[1]
    may_panic(ex, 'chunk size', simp_cond(eq(c, ZERO)))
    return mkiter(tab(idiv(n, c), lambda i: ex.ext(m, ('s', mul(i, c), c))))
@model('core::slice::<impl [T]>::windows')
def _(ex, a, st, t):
    v = ex.full(st, a[0]); c = a[1]
    may_panic(ex, 'chunk size', simp_cond(eq(c, ZERO)))
    return mkiter(tab(sub(add(length(v), ONE), c), lambda i: slice_(v, i, c)))

def pure_seq(ex, it, st):
    """an iterator value as a sequence when it has no pending closures, else None"""
    if it.op == 'mref':
        it = ex.full(st, it)
    if it.op == 'agg' and it.args[0] == 'iter': return iter_rest(it)
    if it.op == 'agg' and it.args[0].split('::')[-1] in ('Range', 'RangeInclusive', 'RangeFrom'): return range_seq(it)
    return None
def need(ex, it, st):
    s = pure_seq(ex, it, st)
    if s is None:
        it2, st2 = to_iter(ex, it, st)
        s = pure_seq(ex, it2, st2)
    return s
def adapter(name):
    def d(f):
        def g(ex, a, st, t):
            it = a[0]
            s = need(ex, it, st)
            if s is None:
                s, st2 = drain(ex, it, st)      # eager: the closures run now; effects are ordered the same for single consumers
                r = f(ex, s, a, st2)
                return r, st2
            r = f(ex, s, a, st)
            return r if isinstance(r, tuple) else (r, st)
        M[IT + name] = g
        return f
    return d
@adapter('enumerate')
def _(ex, s, a, st): return mkiter(tab(length(s), lambda i: tup(i, get(s, i))))
@adapter('rev')
def _(ex, s, a, st): return mkiter(rev(s))
@adapter('skip')
def _(ex, s, a, st):
    from .loops import posi
    return mkiter(slice_(s, a[1], posi(sub(length(s), a[1]))))
@adapter('take')
def _(ex, s, a, st):
    return mkiter(slice_(s, ZERO, min_len([length(s), a[1]])))
@adapter('step_by')
def _(ex, s, a, st):
    return mkiter(tab(ceildiv(length(s), a[1]), lambda i: get(s, mul(i, a[1]))))
@adapter('peekable')
def _(ex, s, a, st): return mkiter(s)
@adapter('fuse')
def _(ex, s, a, st): return mkiter(s)
@adapter('by_ref')
def _(ex, s, a, st): return a[0]
@adapter('cloned')
def _(ex, s, a, st): return mkiter(vals(ex, st, s))
@adapter('copied')
def _(ex, s, a, st): return mkiter(vals(ex, st, s))
@adapter('zip')
def _(ex, s, a, st):
    it2, st = to_iter(ex, a[1], st)
    s2 = need(ex, it2, st)
    if s2 is None:
        s2, st = drain(ex, it2, st)
    n = min_len([length(s), length(s2)])
    return mkiter(tab(n, lambda i: tup(get(s, i), get(s2, i)))), st
def min_len(xs):
    xs = [x for x in xs if not (x.op == 'sym' and x.args[0] == 'infinity')]
    keep = []
    for x in xs:
        if any(y is not x and surely_le0(sub(y, x)) and not (surely_le0(sub(x, y)) and y.id > x.id) for y in xs): continue
        if x not in keep: keep.append(x)
    return keep[0] if len(keep) == 1 else mkmin(keep)
@adapter('chain')
def _(ex, s, a, st):
    it2, st = to_iter(ex, a[1], st)
    s2 = need(ex, it2, st)
    if s2 is None: s2, st = drain(ex, it2, st)
    return mkiter(concat(s, s2)), st

def run_fn(ex, st, f, args):
    return ex.call_closure(st, f, args)

def pure_map(ex, s, f, st):
    """closure applied to a generic item: the mapped sequence when the call has no effects and cannot stop"""
    i = fresh('i'); BOUND[i] = length(s)
    ex.quiet += 1
    try: r, st2 = ex.call_closure(st, f, [get(s, i)])
    finally: ex.quiet -= 1
    if r is None: return None
    for c in st:
        if st2.get(c) is not st[c]: return None
    if not ex.quiet:
        ex.call_closure(st, f, [get(s, i)])
    return i, r
@adapter('map')
def _(ex, s, a, st):
    p = pure_map(ex, s, a[1], st)
    if p is not None:
        i, r = p
        return mkiter(mktab(length(s), close(i, r)))
    out, st2 = map_loop(ex, s, a[1], st)
    return mkiter(out), st2
class FakeF:
    fid = '$'; live = {}; body = None
def synth(ex, s, st, body):
    """a synthetic loop over the items of s: body(st, item) -> (list of exits (tag, lits, st), latch (lits, st))"""
    ex.fid += 1
    ic = 'it%d' % ex.fid
    st = dict(st); st[ic] = ZERO
    n = length(s)
    def step(sth):
        p = sth[ic]
        c = ex.known(simp_cond(lt(p, n)), ())
        exits = []; latch = []
        if c is not TRUE: exits.append(('done', ((c, False),) if c is not FALSE else (), dict(sth)))
        if c is FALSE: return exits, latch
        ex.bound(c)
        st1 = dict(sth); st1[ic] = add(p, ONE)
        ex.lits.append(((c, True),))
        try: ee, ll = body(st1, get(s, p))
        finally: ex.lits.pop()
        l0 = ((c, True),) if c is not TRUE else ()
        exits += [(t, l0 + l, x) for t, l, x in ee]
        latch += [(l0 + l, x) for l, x in ll]
        return exits, latch
    res = ex.solve_loop(FakeF, st, step, 'iterator')
    return [(t, l, {c: v for c, v in x.items() if c != ic}) for t, l, x in res]
def map_loop(ex, s, f, st):
    ex.fid += 1
    ac = 'ac%d' % ex.fid
    st = dict(st); st[ac] = EMPTYSEQ
    def body(x, item):
        r, x2 = ex.call_closure(x, f, [item])
        if r is None: return [], []
        x2 = dict(x2); x2[ac] = concat(x2[ac], lit(r))
        return [], [((), x2)]
    res = synth(ex, s, st, body)
    t, l, x = res[0]
    out = x.pop(ac)
    return out, x
@adapter('for_each')
def _(ex, s, a, st):
    def body(x, item):
        r, x2 = ex.call_closure(x, a[1], [item])
        if r is None: return [], []
        return [], [((), x2)]
    res = synth(ex, s, st, body)
    if not res: return None, st
    return UNIT, res[0][2]
@adapter('fold')
def _(ex, s, a, st):
    ex.fid += 1
    ac = 'ac%d' % ex.fid
    st = dict(st); st[ac] = a[1]
    def body(x, item):
        r, x2 = ex.call_closure({c: v for c, v in x.items() if c != ac}, a[2], [x[ac], item])
        if r is None: return [], []
        x2 = dict(x2); x2[ac] = r
        return [], [((), x2)]
    res = synth(ex, s, st, body)
    x = res[0][2]
    out = x.pop(ac)
    return out, x
@adapter('filter')
def _(ex, s, a, st):
    p = pure_map(ex, s, a[1], st)
    if p is None: return NotImplemented
    i, r = p
    return mkiter(filt(length(s), close(i, r), close(i, get(s, i))))
@adapter('filter_map')
def _(ex, s, a, st):
    p = pure_map(ex, s, a[1], st)
    if p is None: return NotImplemented
    i, r = p
    return mkiter(filt(length(s), close(i, opt_some(r)), close(i, payload(r, 'Some'))))
@adapter('flat_map')
def _(ex, s, a, st):
    p = pure_map(ex, s, a[1], st)
    if p is None: return NotImplemented
    i, r = p
    it, _ = to_iter(ex, r, st)
    return mkiter(flat(length(s), close(i, iter_rest(it))))
@adapter('flatten')
def _(ex, s, a, st):
    i = fresh('i'); BOUND[i] = length(s)
    it, _ = to_iter(ex, get(s, i), st)
    return mkiter(flat(length(s), close(i, iter_rest(it))))
def quant(ex, s, f, st, neg_):
    p = pure_map(ex, s, f, st)
    if p is None: return None
    i, r = p
    return many(length(s), close(i, NOT(r) if neg_ else r))
@adapter('any')
def _(ex, s, a, st):
    r = quant(ex, s, a[1], st, False)
    return NotImplemented if r is None else r
@adapter('all')
def _(ex, s, a, st):
    r = quant(ex, s, a[1], st, True)
    return NotImplemented if r is None else NOT(r)
@adapter('position')
def _(ex, s, a, st):
    p = pure_map(ex, s, a[1], st)
    if p is None: return NotImplemented
    i, r = p
    l = close(i, r)
    return mkite(many(length(s), l), some(mk('least', l)), NONE)
@adapter('find')
def _(ex, s, a, st):
    p = pure_map(ex, s, a[1], st)
    if p is None: return NotImplemented
    i, r = p
    l = close(i, r)
    return mkite(many(length(s), l), some(get(s, mk('least', l))), NONE)
@adapter('count')
def _(ex, s, a, st): return length(s)
@adapter('last')
def _(ex, s, a, st):
    n = length(s)
    return mkite(simp_cond(eq0(n)), NONE, some(get(s, sub(n, ONE))))
@adapter('nth')
def _(ex, s, a, st):
    return mkite(simp_cond(lt(a[1], length(s))), some(get(s, a[1])), NONE)
@adapter('sum')
def _(ex, s, a, st):
    i = fresh('i'); BOUND[i] = length(s)
    return msum(length(s), close(i, ex.resolve_all(st, get(s, i))))
@adapter('product')
def _(ex, s, a, st):
    i = fresh('i'); BOUND[i] = length(s)
    return mprod(length(s), close(i, ex.resolve_all(st, get(s, i))))
@adapter('max')
def _(ex, s, a, st):
    i = fresh('i'); BOUND[i] = length(s)
    return mkite(simp_cond(eq0(length(s))), NONE, some(mmax(length(s), close(i, get(s, i)))))
@adapter('unzip')
def _(ex, s, a, st):
    return tup(tab(length(s), lambda i: fld(get(s, i), '0')), tab(length(s), lambda i: fld(get(s, i), '1')))
@adapter('collect')
def _(ex, s, a, st):
    return vals(ex, st, s)
_collect = M[IT + 'collect']
def collect2(ex, a, st, t):
    r = _collect(ex, a, st, t)
    s, st2 = r if isinstance(r, tuple) else (r, st)
    ty = t.get('dty', {})
    if ty.get('s') == RES or ty.get('s') == OPT:
        v = 'Ok' if ty['s'] == RES else 'Some'
        n = length(s)
        i = fresh('i'); BOUND[i] = n
        bad = many(n, close(i, NOT(isvar(get(s, i), ty['s'], v))))
        vs = tab(n, lambda j: fld(get(s, j), '0', v))
        return mkite(bad, err(E) if v == 'Ok' else NONE, ok(vs) if v == 'Ok' else some(vs)), st2
    if 'IndexSet' in str(ty.get('s')): return setadd(mk('setnew'), s), st2
    if 'IndexMap' in str(ty.get('s')): return mk('mapof', s), st2
    return s, st2
M[IT + 'collect'] = collect2
def drain(ex, it, st):
    s = pure_seq(ex, it, st)
    if s is not None: return s, st
    raise Unsupported('iterator %s' % show(it)[:60])
@model(IT + 'next', 'core::iter::range::<impl core::iter::traits::iterator::Iterator for core::ops::range::Range<A>>::next')
def _(ex, a, st, t):
    st = dict(st)
    m = ex.target(st, a[0]); it = ex.load(st, m)
    if it.op == 'agg' and it.args[0].split('::')[-1] in ('Range', 'RangeInclusive', 'RangeFrom'):
        it = mkiter(range_seq(it))
    if not (it.op == 'agg' and it.args[0] == 'iter'):
        it, st = to_iter(ex, it, st)
        if not (it.op == 'agg' and it.args[0] == 'iter'): return NotImplemented
    s, p = fld(it, 'seq'), fld(it, 'pos')
    if s.op == 'ite':
        pass
    c = ex.known(simp_cond(lt(p, length(s))), ())
    r = mkite(c, some(get(s, p)), NONE)
    ex.store(st, m, mkiter(s, add(p, ONE)))      # past the end the position no longer matters
    return r, st
@model('core::iter::traits::double_ended::DoubleEndedIterator::rev')
def _(ex, a, st, t): return M[IT + 'rev'](ex, a, st, t)
@model('core::iter::traits::exact_size::ExactSizeIterator::len')
def _(ex, a, st, t): return length(need(ex, a[0], st))
@model('core::iter::sources::once::once')
def _(ex, a, st, t): return mkiter(lit(a[0]))
@model('core::iter::sources::repeat::repeat')
def _(ex, a, st, t):
    x = a[0]
    return mkiter(tab(sym('infinity'), lambda i: x))
@model('core::ops::range::RangeInclusive::<Idx>::new')
def _(ex, a, st, t): return agg('RangeInclusive', '', [('start', a[0]), ('end', a[1])])

# ---------------------------------------------------------------- closures
@model('core::ops::function::FnOnce::call_once', 'core::ops::function::FnMut::call_mut', 'core::ops::function::Fn::call',
       '<alloc::boxed::Box<F, A> as core::ops::function::Fn<Args>>::call')
def _(ex, a, st, t):
    args = a[1]
    if args.op == 'agg' and args.args[0] == 'tuple': xs = [v for _, v in args.args[2]]
    else: return NotImplemented
    return ex.call_closure(st, a[0], xs)

# ---------------------------------------------------------------- threads
@model('crate::fft::multicore::Worker::get_chunk_size')
def _(ex, a, st, t): return chunk_term(a[1])
@model('crate::fft::multicore::Worker::get_num_spawned_threads')
def _(ex, a, st, t): return ceildiv(a[1], chunk_term(a[1]))
@model('crate::fft::multicore::Worker::new', 'crate::fft::multicore::Worker::new_with_cpus')
def _(ex, a, st, t): return sym('worker')
def chunk_term(n): 
    c = mk('chunk', n); POS.add(c); return c
seqs.INT_OPS.add('chunk'); terms.NONNEG_OPS.add('chunk'); terms.NONNEG_OPS.add('least'); seqs.INT_OPS.add('least')
@model('crossbeam_utils::thread::scope')
def _(ex, a, st, t):
    r, st2 = ex.call_closure(st, a[0], [sym('scope')])
    if r is None: return None, st
    return ok(r), st2
@model("crossbeam_utils::thread::Scope::<'env>::spawn")
def _(ex, a, st, t):
    r, st2 = ex.call_closure(st, a[1], [sym('scope')])
    if r is None: return None, st
    return agg('joinhandle', '', [('r', r)]), st2
@model("crossbeam_utils::thread::ScopedJoinHandle::<'scope, T>::join")
def _(ex, a, st, t): return ok(fld(a[0], 'r'))
@model('crossbeam_channel::channel::unbounded')
def _(ex, a, st, t):
    st = dict(st); ex.fid += 1
    c = 'ch%d' % ex.fid
    st[c] = EMPTYSEQ
    return tup(mk('chan', c), mk('chan', c)), st
def chan(ex, st, x):
    x = ex.full(st, x)
    if x.op != 'chan': raise Unsupported('channel %s' % show(x)[:40])
    return mref(x.args[0])
@model('crossbeam_channel::channel::Sender::<T>::send')
def _(ex, a, st, t):
    st = dict(st); m = chan(ex, st, a[0])
    ex.store(st, m, concat(ex.load(st, m), lit(a[1]))); return ok(UNIT), st
@model('crossbeam_channel::channel::Receiver::<T>::recv', 'crossbeam_channel::channel::Receiver::<T>::try_recv')
def _(ex, a, st, t):
    st = dict(st); m = chan(ex, st, a[0]); v = ex.load(st, m)
    n = length(v)
    ex.store(st, m, slice_(v, ONE, sub(n, ONE)))
    return ok(get(v, ZERO)), st
@model('crossbeam_channel::channel::Receiver::<T>::is_empty')
def _(ex, a, st, t): return eq0(length(ex.load(st, chan(ex, st, a[0]))))

# ---------------------------------------------------------------- indexmap
@model('indexmap::map::IndexMap::<K, V>::new')
def _(ex, a, st, t): return mk('mapnew')
@model('indexmap::map::IndexMap::<K, V, S>::get', 'indexmap::map::IndexMap::<K, V, S>::get::<Q>')
def _(ex, a, st, t): return mapget(ex.full(st, a[0]), ex.full(st, a[1]))
@model('indexmap::map::IndexMap::<K, V, S>::contains_key')
def _(ex, a, st, t): return opt_some(mapget(ex.full(st, a[0]), ex.full(st, a[1])))
@model('indexmap::map::IndexMap::<K, V, S>::insert')
def _(ex, a, st, t):
    st = dict(st); m = ex.target(st, a[0]); v = ex.load(st, m)
    k = ex.full(st, a[1]); old = mapget(v, k)
    ex.store(st, m, mapins(v, k, a[2])); return old, st
@model('indexmap::map::IndexMap::<K, V, S>::get_mut')
def _(ex, a, st, t):
    # a private cell stands for the entry; the map is updated when the reference is written through
    m = ex.target(st, a[0]); v = ex.load(st, m); k = ex.full(st, a[1])
    g = mapget(v, k)
    return mkite(opt_some(g), some(ex.ext(m, ('k', k))), NONE)
@model('indexmap::map::IndexMap::<K, V, S>::entry')
def _(ex, a, st, t): return agg('indexmap::entry', '', [('map', a[0]), ('key', ex.full(st, a[1]))])
@model('indexmap::map::Entry::<\'a, K, V>::or_insert_with', 'indexmap::map::Entry::<\'a, K, V>::or_insert', 'indexmap::map::Entry::<\'a, K, V>::or_default',
       'indexmap::map::core::Entry::<\'a, K, V>::or_insert_with', 'indexmap::map::core::Entry::<\'a, K, V>::or_insert', 'indexmap::map::core::Entry::<\'a, K, V>::or_default',
       'indexmap::map::core::entry::Entry::<\'a, K, V>::or_insert_with', 'indexmap::map::core::entry::Entry::<\'a, K, V>::or_insert', 'indexmap::map::core::entry::Entry::<\'a, K, V>::or_default')
def _(ex, a, st, t):
    st = dict(st); m = ex.target(st, fld(a[0], 'map')); v = ex.load(st, m); k = fld(a[0], 'key'); nm = t['f']['f']['name']
    if nm == 'or_insert_with': d, st2 = ex.call_closure(st, a[1], [])
    elif nm == 'or_insert': d, st2 = ex.full(st, a[1]), st
    elif 'Vec' in str(t.get('dty')): d, st2 = lit(), st
    else: raise Unsupported('default entry')
    if d is None: return None, st
    st2 = dict(st2); v = ex.load(st2, m)
    ex.store(st2, m, mkite(opt_some(mapget(v, k)), v, mapins(v, k, d)))
    return ex.ext(m, ('k', k)), st2
@model('indexmap::map::IndexMap::<K, V, S>::iter')
def _(ex, a, st, t): return mkiter(entries(ex.full(st, a[0])))
@model('indexmap::map::IndexMap::<K, V, S>::len')
def _(ex, a, st, t): return length(entries(ex.full(st, a[0])))
@model('indexmap::set::IndexSet::<T>::new')
def _(ex, a, st, t): return mk('setnew')
@model('indexmap::set::IndexSet::<T, S>::insert')
def _(ex, a, st, t):
    st = dict(st); m = ex.target(st, a[0]); v = ex.load(st, m); x = ex.full(st, a[1])
    ex.store(st, m, setins(v, x)); return NOT(setmem(v, x)), st
def setins(s, x): return setadd(s, lit(x))
def setadd(s, q):
    """the elements of q inserted in order (those present already keep their place)"""
    n = length(q)
    if n is ZERO: return s
    if s.op == 'setadd': return setadd(s.args[0], concat(s.args[1], q)) if not known_member(s, q) else s
    return mk('setadd', s, q)
def known_member(s, q): return q.op == 'lit' and all(setmem(s, x) is TRUE for x in q.args[0])
def setmem(s, x):
    if s.op == 'setnew': return FALSE
    if s.op == 'setof':
        q = s.args[0]; i = fresh('i'); BOUND[i] = length(q)
        return many(length(q), close(i, eq(get(q, i), x)))
    if s.op == 'setadd': return OR(seqmem(s.args[1], x), setmem(s.args[0], x))
    if s.op == 'ite': return mkite(s.args[0], setmem(s.args[1], x), setmem(s.args[2], x))
    return mk('setmem', s, x)
def seqmem(q, x):
    if q.op == 'concat': return OR(*[seqmem(y, x) for y in q.args[0]])
    if q.op == 'lit': return OR(*[eq(y, x) for y in q.args[0]])
    if q.op == 'flat':
        v, b = terms.open_lam(q.args[1], (q, x), q.args[0])
        return many(q.args[0], close(v, seqmem(b, x)))
    if q.op == 'ite': return mkite(q.args[0], seqmem(q.args[1], x), seqmem(q.args[2], x))
    if q.op == 'filt':
        v, b = terms.open_lam(q.args[1], (q, x), q.args[0])
        return many(q.args[0], close(v, AND(b, eq(terms.apply(q.args[2], v), x))))
    i = fresh('i'); BOUND[i] = length(q)
    return many(length(q), close(i, eq(get(q, i), x)))
BUILD['setadd'] = setadd
BUILD['setmem'] = setmem
@model('indexmap::set::IndexSet::<T, S>::contains')
def _(ex, a, st, t): return setmem(ex.full(st, a[0]), ex.full(st, a[1]))
@model('indexmap::set::IndexSet::<T, S>::get')
def _(ex, a, st, t):
    x = ex.full(st, a[1]); return mkite(setmem(ex.full(st, a[0]), x), some(x), NONE)
@model('indexmap::set::IndexSet::<T, S>::iter')
def _(ex, a, st, t): return mkiter(elems(ex.full(st, a[0])))
@model('indexmap::set::IndexSet::<T, S>::len')
def _(ex, a, st, t): return length(elems(ex.full(st, a[0])))
def elems(s):
    if s.op == 'setof': return s.args[0]
    if s.op == 'setnew': return lit()
    return mk('elems', s)
def entries(m):
    if m.op == 'mapof': return m.args[0]
    if m.op == 'mapnew': return lit()
    return mk('entries', m)
BUILD['elems'] = elems; BUILD['entries'] = entries

# ---------------------------------------------------------------- size_of etc.
@model('core::mem::size_of')
def _(ex, a, st, t): return sym('size_of', str([x.get('s') for x in t['f']['f'].get('args', [])]))
