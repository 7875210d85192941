"""Shared helpers for checks that compare value graphs with their defining formulas."""
from engine.engine import *
from engine.fields import *
from engine import seqs, terms, models as MD
from engine import mir, evalt
import os

PC = 'crate::polynomials::Polynomial::<F, polynomials::Coefficients>::'
PV = 'crate::polynomials::Polynomial::<F, polynomials::Values>::'
PP = 'crate::polynomials::Polynomial::<F, P>::'
POLY = 'crate::polynomials::Polynomial'
PHANTOM = agg('core::marker::PhantomData', '', [])
S = sym('const', 'ff_ce::PrimeField::S', '')
TRANSFORMS = {'crate::fft::best_fft': fft_handler(), 'crate::fft::serial_fft': fft_handler(), 'crate::fft::best_lde': lde_handler(),
              'crate::fft::fft::best_fft': fft_handler(), 'crate::fft::fft::serial_fft': fft_handler(), 'crate::fft::lde::best_lde': lde_handler()}
# what an unsolved recurrence, an unsolved loop exit or an opaque library call leaves in a term
UNRESOLVED = ('rec', 'least', 'last', 'undef')

def root_of(n): return power(MD.ROOT, power(TWO, sub(S, log2(n))))
def poly_fields(n):
    """the domain data a polynomial of length n has to carry"""
    w = root_of(n)
    return [('exp', log2(n)), ('omega', w), ('omegainv', inv(w)), ('geninv', inv(MD.GEN)), ('minv', inv(n)), ('_marker', PHANTOM)]
def polynomial(coeffs, n=None):
    return agg(POLY, '', [('coeffs', coeffs)] + poly_fields(length(coeffs) if n is None else n))
def overflows(x): return mk('app', 'overflows', (x,))
def vec(name, n): return tab(n, lambda i: mk('get', sym(name), i))
def ssum(n, f):
    i = fresh('i'); BOUND[i] = n
    return msum(n, close(i, f(i)))
def pprod(n, f):
    i = fresh('i'); BOUND[i] = n
    return mprod(n, close(i, f(i)))
def forall(n, f):
    i = fresh('i'); BOUND[i] = n
    return NOT(many(n, close(i, NOT(f(i)))))

class Compare:
    """value graph of a function against its specification"""
    def __init__(s, c, P=None, **kw):
        s.c = c; s.P = P or mir.Program(); s.kw = kw
        s.results = {}
        s.undecided = 0
        s.inputs = set()          # names of symbolic inputs written as applications
        s.ctx = dict(facts=(), pow2=(), ints=())
        s.small = []; s.large = True     # size limits for the first search for a counterexample
        s.given = []              # preconditions that only the search for a counterexample has to respect
    def body(s, name):
        b = s.P.bodies.get(name)
        if b is None: raise Unsupported('function %s is gone' % name)
        return b
    def value(s, name, init, pow2=(), facts=(), opaque=None, **kw):
        """(return value, final values of &mut parameters, analysis)"""
        for x in pow2: terms.POW2.add(x)
        op = dict(s.kw.get('opaque') or {}); op.update(opaque or {})
        k = {x: y for x, y in s.kw.items() if x != 'opaque'}; k.update(kw)
        ex_facts = [f() if callable(f) else f for f in facts]
        ex = Ex(s.P, opaque=op, pow2=pow2, facts=ex_facts, **k)
        i = {a: (v() if callable(v) else v) for a, v in init.items()}
        for v in i.values():
            if isinstance(v, T): s.inputs |= {x[5:] for x in marks(v) if x.startswith('call ')}
        s.ctx = dict(facts=ex_facts, pow2=pow2, ints=kw.get('ints') or ())
        r, m = ex.run(s.body(name), init=i)
        s.c.count('functions analysed (with callees)', len(ex.calls_seen))
        s.c.count('loops summarised', ex.nloops)
        return r, m, ex
    def same(s, what, got, want, key=None, where='', alts=()):
        """one obligation: equal normal forms (alts: the same definition written differently).  A value the analysis could not bring into closed form is undecided, not a violation."""
        s.c.count('value equations')
        g, w = norm(got), norm(want)
        if os.environ.get('HODOR_SELFTEST'):
            e = evalt.compare(got, want, **s.ctx); print('SELFTEST', e[0], 'same' if g is w or same(g, w) else 'NOT SAME', what, str(e[1])[:300] if e[0] != 'differ' else '%s\n   %s\n   %s' % (str(e[1])[:300], str(e[2])[:1500], str(e[3])[:1500]))
        if g is w or same(g, w) or any(same(g, norm(x)) for x in alts):
            s.c.ob(what, True, sample=show(g)[:200]); return True
        calls = {m for m in marks(g) - marks(w) if (m.startswith('call ') and m[5:] not in s.inputs and m != 'call overflows') or m == 'undef'}
        if calls:
            s.undecided += 1
            s.c.undecided(what, 'no closed form (%s): %s' % (', '.join(sorted(calls)), show(g)[:300])); return None
        e = s.differ(got, want)
        if e[0] != 'differ':
            s.undecided += 1
            s.c.undecided(what, 'the normal forms differ but the formulas were not told apart (%s): %s' % (e, show(g)[:300])); return None
        d = diffs(g, w)
        s.c.ob(what, False, '%s%s computes %s, the definition is %s; they differ for example at %s' % (where, what, '; '.join(show(x)[:400] for x, _ in d[:3]), '; '.join(show(y)[:400] for _, y in d[:3]),
            ', '.join('%s=%s' % z for z in sorted(e[1].items()))[:200]), key=key or what)
        return False
    def differ(s, a, b):
        f = list(s.ctx['facts']) + s.given
        e = evalt.compare(a, b, **dict(s.ctx, facts=f + s.small))
        if e[0] == 'agree' and s.large:
            e2 = evalt.large(norm(a), norm(b), **dict(s.ctx, facts=f))
            if e2[0] == 'differ': return e2
        return e
    def holds(s, what, f, key=None, where=''):
        """one obligation: a condition that is true for all inputs"""
        from . import entail
        s.c.count('conditions')
        if os.environ.get('HODOR_SELFTEST'): print('SELFTEST', evalt.compare(f, TRUE, **s.ctx)[0], entail.holds(f), what)
        if entail.holds(f):
            s.c.ob(what, True, sample=show(f)[:200]); return True
        e = s.differ(f, TRUE)
        if e[0] == 'differ':
            s.c.ob(what, False, '%s%s fails, for example at %s' % (where, what, ', '.join('%s=%s' % z for z in sorted(e[1].items()))[:300]), key=key or what); return False
        s.undecided += 1
        s.c.undecided(what, 'not derived (%s): %s' % (e[0], show(f)[:300])); return None
    def fn(s, name, init, ret=None, muts=None, key=None, panic_free=False, **kw):
        """compare a function's result and written parameters with their definition (callables, built in the same context)"""
        short = name.replace('crate::', '')
        try:
            names = [l.get('n') for l in s.body(name).locals[1:s.body(name).argc + 1]]
            gone = [x for x in init if x not in names]
            if gone and len(Ex.renamed(s.body(name), init)) != len(gone): raise Unsupported('parameters %s are gone' % ', '.join(gone))
            r, m, ex = s.value(name, init, **kw)
        except Unsupported as e:
            s.undecided += 1
            s.c.undecided(short, str(e)[:300]); return None
        b = s.body(name)
        where = '%s:%s: ' % (b.file, b.line)
        ok_ = True
        if r is None:
            s.c.ob(short, False, where + 'never returns on these inputs', key=(key or short) + ':diverges'); return None
        if ret is not None: ok_ = s.same(short, r, ret() if callable(ret) else ret, key=key or short, where=where)
        for n, v in (muts or {}).items():
            if n not in m:
                s.c.undecided(short, 'parameter %s is gone' % n); continue
            ok2 = s.same('%s (%s)' % (short, n), m[n], v() if callable(v) else v, key='%s:%s' % (key or short, n), where=where)
            ok_ = ok_ and ok2
        s.results[name] = (r, m, ex)
        return ok_

def marks(t): return {x.op for x in subterms(t) if x.op in UNRESOLVED} | {'call ' + x.args[0] for x in subterms(t) if x.op in ('app', 'appm')}
def diffs(a, b, out=None):
    """smallest differing corresponding parts"""
    if out is None: out = []
    if a is b: return out
    if a.op == b.op and a.op in ('agg', 'lit', 'ite') and len(a.args) == len(b.args):
        xs, ys = list(terms._walk_children(a.args)), list(terms._walk_children(b.args))
        if len(xs) == len(ys) and (a.op != 'agg' or (a.args[:2] == b.args[:2] and [n for n, _ in a.args[2]] == [n for n, _ in b.args[2]])):
            for x, y in zip(xs, ys): diffs(x, y, out)
            return out
    out.append((a, b))
    return out
