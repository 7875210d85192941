"""Evaluation of value terms at sample assignments.

Two closed forms that are not syntactically equal may still be equal, because normal forms are incomplete.  Before a
difference is reported it is confirmed here: both terms are evaluated at assignments of their free symbols (field elements in
F_p, small integers, powers of two) and the difference is reported only with an assignment on which the two formulas disagree.
This evaluates the derived formulas, never the program."""
from fractions import Fraction
import time
import hashlib, random
from . import terms
from .terms import T, find_ind, assume1, as_num, _walk_children
p = 0xFFFFFFFF00000001
GEN = 7; TWO_ADICITY = 32

class Skip(Exception): pass
class Fe:
    __slots__ = ('v',)
    def __init__(s, v): s.v = v % p
    def __repr__(s): return '%d' % s.v
    def __hash__(s): return hash(s.v)
    def __eq__(s, o): return isinstance(o, Fe) and o.v == s.v
class Op:
    """an opaque value, identified by what it denotes"""
    __slots__ = ('k',)
    def __init__(s, *k): s.k = k
    def __hash__(s): return hash(s.k)
    def __eq__(s, o): return isinstance(o, Op) and o.k == s.k
    def __repr__(s): return 'Op%r' % (s.k,)
class Agg:
    __slots__ = ('ty', 'var', 'f')
    def __init__(s, ty, var, f): s.ty = ty; s.var = var; s.f = f
    def __repr__(s): return '%s%s' % (s.var or s.ty.split('::')[-1], dict(s.f))
    def __hash__(s): return hash((s.ty, s.var, s.f))
    def __eq__(s, o): return isinstance(o, Agg) and (s.ty, s.var, s.f) == (o.ty, o.var, o.f)

class OSet:
    __slots__ = ('items',)
    def __init__(s, items): s.items = items
    def __hash__(s): return hash(('set', s.items))
    def __eq__(s, o): return isinstance(o, OSet) and s.items == o.items
    def __repr__(s): return 'set%r' % (s.items,)
class OMap:
    __slots__ = ('items',)
    def __init__(s, items): s.items = items
    def __hash__(s): return hash(('map', s.items))
    def __eq__(s, o): return isinstance(o, OMap) and s.items == o.items
    def __repr__(s): return 'map%r' % (s.items,)
class OFun:
    __slots__ = ('t',)
    def __init__(s, t): s.t = t
    def __hash__(s): return hash(('fun', s.t.id))
    def __eq__(s, o): return isinstance(o, OFun) and s.t is o.t
OPT = 'core::option::Option'
# a value is exactly one of these
GROUPS = [('Univariate', 'Polyvariate'), ('Some', 'None'), ('Ok', 'Err'), ('Mask', 'Steps')]

def hnum(k, salt):
    return int.from_bytes(hashlib.blake2b(repr((k, salt)).encode(), digest_size=16).digest(), 'big')

def embed(x):
    if isinstance(x, Fe): return x
    if isinstance(x, bool): return Fe(int(x))
    if isinstance(x, int): return Fe(x)
    if isinstance(x, Fraction): return Fe(x.numerator * pow(x.denominator, -1, p))
    raise Skip('no number')
def nrm(x):
    if isinstance(x, Fraction) and x.denominator == 1: return int(x)
    return x

MAXLEN = 4096
class Ev:
    def __init__(s, asg, ints, salt, cpus, fields=()):
        s.asg = asg; s.ints = ints; s.salt = salt; s.cpus = cpus
        s.memo = {}; s.env = {}; s.fuel = 400000; s.sparse = 0; s.world = {}; s.pool = (); s.split = set()
        s.solve = False; s.sol = {}; s.used = set()
    # -- contexts
    def opnum(s, t, v):
        """an opaque value in a ring position"""
        if t in s.ints: return s.small(v)
        if s.solve:
            if v.k in s.sol:
                if s.sol[v.k] is None: raise Skip('solved for')
                return s.sol[v.k]
            s.used.add(v.k)
        h = hnum(v.k, s.salt)
        if s.sparse and (h >> 64) % 100 < s.sparse:
            if s.pool and (h >> 96) % 2: return Fe(s.pool[(h >> 100) % len(s.pool)])
            return Fe((h >> 80) % 3 // 2)
        return Fe(h)
    def small(s, v):
        """an opaque value in an integer position; in sparse rounds mostly 0, 1 or 2"""
        h = hnum(v.k, s.salt)
        if s.sparse and s.pool and (h >> 96) % 3 == 0: return s.pool[(h >> 100) % len(s.pool)]
        return h % 8 if not s.sparse else (0, 1, 0, 1, 2, 1, 2, 3)[h % 8]
    def int(s, t):
        v = nrm(s.ev(t))
        if isinstance(v, bool): return int(v)
        if isinstance(v, int): return v
        if isinstance(v, Op): return s.small(v)
        if isinstance(v, Fe): raise Skip('field element as integer')
        raise Skip('not an integer')
    def nat(s, t):
        n = s.int(t)
        if n < 0: raise Skip('negative length')
        if n > MAXLEN: raise Skip('too long')
        return n
    def bool(s, t):
        v = s.ev(t)
        if isinstance(v, bool): return v
        if isinstance(v, Op): return hnum(v.k, s.salt) % 2 == 0
        if isinstance(v, int): return v != 0
        raise Skip('not a boolean')
    def lam(s, t, *xs):
        olds = []
        for x in xs:
            if t.op != 'lam': raise Skip('not a binder')
            b = terms.bv(t.args[0])
            olds.append((b, s.env.get(b)))
            s.env[b] = x
            t = t.args[1]
        try: return s.ev(t)
        finally:
            for b, o in reversed(olds):
                if o is None: s.env.pop(b, None)
                else: s.env[b] = o
    def ev(s, t):
        bs = terms.bvs(t)
        if t.op == 'bv':
            if t not in s.env: raise Skip('loose variable')
            return s.env[t]
        if bs:
            try:
                key = (t.id,) + tuple(s.env.get(b) for b in sorted(bs, key=lambda b: b.args[0]))
                hash(key)
            except TypeError: key = (t.id,) + tuple(id(s.env.get(b)) for b in sorted(bs, key=lambda b: b.args[0])); 
        else: key = t.id
        if key in s.memo: return s.memo[key][0]
        s.fuel -= 1
        if s.fuel < 0: raise Skip('fuel')
        r = s.ev1(t)
        s.memo[key] = (r, [s.env.get(b) for b in bs])     # keeps the values alive (identity keys)
        return r
    def ev1(s, t):
        o = t.op; a = t.args
        if t in s.asg: return s.asg[t]
        f = getattr(s, 'o_' + o, None)
        if f is not None: return f(t, *a)
        raise Skip('operation ' + o)
    # -- ring
    def o_P(s, t, items):
        c = find_ind(t)
        if c is not None:
            v = s.bool(c)
            u = assume1(t, c, v)
            if u is t: raise Skip('split')
            return s.ev(u)
        tot = None
        fs = None; qs = Fraction(0)
        for m, c in items:
            fe = None; q = Fraction(c)
            for at, e in m:
                x = s.ev(at) if not (at.op == 'P' and as_num(at) is not None) else as_num(at)
                if isinstance(x, Op): x = s.opnum(at, x)
                if isinstance(x, bool): x = int(x)
                ex = e if isinstance(e, int) else s.int(e)
                if isinstance(x, Fe):
                    if x.v == 0 and ex < 0: raise Skip('division by zero')
                    y = pow(x.v, ex % (p - 1) if x.v else ex, p)
                    fe = y if fe is None else fe * y % p
                elif isinstance(x, (int, Fraction)):
                    if x == 0 and ex < 0: raise Skip('division by zero')
                    if abs(ex) > 100000: raise Skip('huge power')
                    if abs(ex) > 200: 
                        z = embed(x).v; y = pow(z, ex % (p - 1), p); fe = y if fe is None else fe * y % p
                    else: q *= Fraction(x) ** ex
                else: raise Skip('no ring value')
            if fe is None: qs += q
            else: fs = ((fs or 0) + fe * embed(q).v) % p
        if fs is None: return nrm(qs)
        return Fe(fs + embed(qs).v)
    def o_ind(s, t, c): return 1 if s.bool(c) else 0
    def o_sym(s, t, *a):
        if t in s.ints: return hnum(a, s.salt) % 8
        if 'cpus' in str(a[0]): return s.cpus
        return Op('sym', *[x if isinstance(x, (str, int)) else s.ev(x) for x in a])
    def o_var(s, t, n): return Op('sym', n)
    # -- integers
    def o_div(s, t, a, b):
        y = s.int(b)
        if y <= 0: raise Skip('div')
        return s.int(a) // y
    def o_mod(s, t, a, b):
        y = s.int(b)
        if y <= 0: raise Skip('mod')
        return s.int(a) % y
    def o_ceildiv(s, t, a, b):
        y = s.int(b)
        if y <= 0: raise Skip('div')
        return -(-s.int(a) // y)
    def o_monus(s, t, a, b): return max(0, s.int(a) - s.int(b))
    def o_npow2(s, t, a):
        n = s.int(a); r = 1
        while r < n: r *= 2
        return r
    def o_log2(s, t, a):
        n = s.int(a)
        if n <= 0: raise Skip('log2')
        return n.bit_length() - 1
    def o_min(s, t, xs): return min(s.int(x) for x in xs)
    def o_max(s, t, xs): return max(s.int(x) for x in xs)
    def o_maxof(s, t, n, l):
        k = s.nat(n)
        return max([s.num(s.lam(l, i)) for i in range(k)] or [0])
    def num(s, v):
        v = nrm(v)
        if isinstance(v, Op): return hnum(v.k, s.salt) % 8
        if not isinstance(v, int): raise Skip('not an integer')
        return v
    def o_chunk(s, t, n):
        n = s.int(n)
        s.split.add((n, s.cpus))
        return 1 if n <= s.cpus else n // s.cpus
    def o_band(s, t, a, b): return s.int(a) & s.int(b)
    def o_bitnot(s, t, a):
        v = s.int(a)
        if v < 0: raise Skip('negative')
        return (1 << 64) - 1 - v
    def o_bor(s, t, a, b): return s.int(a) | s.int(b)
    def o_bxor(s, t, a, b): return s.int(a) ^ s.int(b)
    # -- booleans
    def o_true(s, t): return True
    def o_false(s, t): return False
    def o_not(s, t, a): return not s.bool(a)
    def o_and(s, t, xs): return all(s.bool(x) for x in xs)
    def o_eq0(s, t, d):
        if d.op == 'P' and len(d.args[0]) == 2:
            # equality of two values that are not numbers
            (m1, c1), (m2, c2) = d.args[0]
            if {c1, c2} == {1, -1} and len(m1) == len(m2) == 1 and m1[0][1] == m2[0][1] == 1:
                x, y = s.ev(m1[0][0]), s.ev(m2[0][0])
                if isinstance(x, (tuple, Agg)) or isinstance(y, (tuple, Agg)): return same_value(x, y, s)
        if s.solve: s.make_zero(d)
        v = s.ev(d)
        if isinstance(v, Op): v = s.opnum(d, v)
        if isinstance(v, Fe): return v.v == 0
        if isinstance(v, (int, Fraction)): return v == 0
        raise Skip('eq0')
    def make_zero(s, d):
        """choose an opaque summand that nothing was derived from yet such that the sum is zero"""
        if d.op != 'P' or hnum(('solve', d.id), s.salt) % 4 == 0: return
        for m, c in d.args[0]:
            if len(m) != 1 or m[0][1] != 1: continue
            at = m[0][0]
            if at.op not in ('app', 'get', 'fld', 'sym') or at in s.ints: continue
            x = s.ev(at)
            if not isinstance(x, Op) or x.k in s.used or x.k in s.sol: continue
            try: hash(x.k)
            except TypeError: continue
            s.sol[x.k] = None
            try: v = embed(s.ev(terms.add(d, terms.mul(terms.num(-c), at))))
            except (Skip, AttributeError): del s.sol[x.k]; continue
            if v is None: del s.sol[x.k]; continue
            s.sol[x.k] = Fe(-v.v * embed(Fraction(1) / Fraction(c)).v); return
    def o_lt0(s, t, d): 
        v = s.ev(d)
        if isinstance(v, Op): return s.int(d) < 0
        if isinstance(v, Fe) or not isinstance(v, (int, Fraction)): raise Skip('lt0')
        return v < 0
    def o_any(s, t, n, l):
        return any(s.tobool(s.lam(l, i)) for i in range(s.nat(n)))
    def tobool(s, v):
        if isinstance(v, bool): return v
        if isinstance(v, Op): return hnum(v.k, s.salt) % 2 == 0
        raise Skip('not a boolean')
    def o_ispow2(s, t, x):
        n = s.int(x); return n > 0 and n & (n - 1) == 0
    def o_is(s, t, x, v):
        y = s.ev(x)
        if isinstance(y, Agg): return y.var == v
        if isinstance(y, Op):
            for g in GROUPS:
                if v in g: return g[hnum((y.k, 'is'), s.salt) % len(g)] == v
            return hnum((y.k, 'is', v), s.salt) % 2 == 0
        raise Skip('is')
    def o_ite(s, t, c, a, b): return s.ev(a) if s.bool(c) else s.ev(b)
    # -- aggregates
    def o_agg(s, t, ty, var, fs): return Agg(ty, var, tuple((n, s.ev(x)) for n, x in fs))
    def o_fld(s, t, v, name):
        x = s.ev(v)
        n = name.split('.')[-1]
        if isinstance(x, Agg):
            if '.' in name and x.var and x.var != name.split('.')[0]: raise Skip('variant')
            for m, y in x.f:
                if m == n: return y
            raise Skip('field')
        if isinstance(x, Op): return s.cpus if n == 'cpus' else Op('fld', x, name)
        raise Skip('fld')
    def o_setf(s, t, v, name, y):
        x = s.ev(v); n = name.split('.')[-1]
        if isinstance(x, Agg): return Agg(x.ty, x.var, tuple((m, s.ev(y) if m == n else z) for m, z in x.f))
        raise Skip('setf')
    def o_app(s, t, name, args):
        if name in s.world:
            r = s.world[name](s, *[s.ev(x) for x in args])
            if r is not NotImplemented: return r
        if name == 'overflows': return SMALL_S and s.int(args[0]) > 16
        if name in ('LIMB', 'U64'): return hnum((name,) + tuple(s.ev(x) for x in args), s.salt) % (1 << 64)
        return Op('app', name, tuple(s.ev(x) for x in args))
    def o_appm(s, t, name, i, args): return Op('appm', name, i, tuple(s.ev(x) for x in args))
    # -- ordered sets and maps
    def find(s, xs, k):
        for i, x in enumerate(xs):
            if same_value(x, k, s): return i
        return None
    def o_setnew(s, t): return OSet(())
    def o_setof(s, t, q): return OSet(s.uniq((), s.seq(q)))
    def uniq(s, base, q):
        r = list(base)
        for x in q:
            if s.find(r, x) is None: r.append(x)
        return tuple(r)
    def o_setadd(s, t, b, q):
        x = s.ev(b)
        if not isinstance(x, OSet): raise Skip('set')
        return OSet(s.uniq(x.items, s.seq(q)))
    def o_elems(s, t, b):
        x = s.ev(b)
        if isinstance(x, OSet): return x.items
        raise Skip('elems')
    def o_setmem(s, t, b, k):
        x = s.ev(b); k = s.ev(k)
        if isinstance(x, OSet): return s.find(x.items, k) is not None
        if isinstance(x, Op): return hnum((x.k, 'mem', k), s.salt) % 2 == 0
        raise Skip('setmem')
    def o_mapnew(s, t): return OMap(())
    def put(s, items, k, v):
        i = s.find([x for x, _ in items], k)
        if i is None: return items + ((k, v),)
        return items[:i] + ((items[i][0], v),) + items[i + 1:]
    def o_mapins(s, t, m, k, v):
        x = s.ev(m)
        if not isinstance(x, OMap): raise Skip('map')
        return OMap(s.put(x.items, s.ev(k), s.ev(v)))
    def o_mapof(s, t, q):
        it = ()
        for x in s.seq(q): it = s.put(it, x.f[0][1], x.f[1][1])
        return OMap(it)
    def o_lmap(s, t, n, c, kl, vl):
        it = ()
        for i in range(s.nat(n)):
            if s.tobool(s.lam(c, i)): it = s.put(it, s.lam(kl, i), s.lam(vl, i))
        return OMap(it)
    def o_groupby(s, t, n, kl, vl):
        it = ()
        for i in range(s.nat(n)):
            k = s.lam(kl, i); v = s.lam(vl, i); j = s.find([x for x, _ in it], k)
            if j is None: it += ((k, (v,)),)
            else: it = it[:j] + ((it[j][0], it[j][1] + (v,)),) + it[j + 1:]
        return OMap(it)
    def o_mapfun(s, t, l): return OFun(t)
    def o_mapopt(s, t, l): return OFun(t)
    def o_entries(s, t, m):
        x = s.ev(m)
        if isinstance(x, OMap): return tuple(Agg('tuple', '', (('0', k), ('1', v))) for k, v in x.items)
        raise Skip('entries')
    def o_mapget(s, t, m, k):
        x = s.ev(m); k = s.ev(k)
        if isinstance(x, OMap):
            i = s.find([y for y, _ in x.items], k)
            return Agg(OPT, 'None', ()) if i is None else Agg(OPT, 'Some', (('0', x.items[i][1]),))
        if isinstance(x, OFun): return Agg(OPT, 'Some', (('0', s.lam(x.t.args[0], k)),))
        if isinstance(x, Op): return Op('mapget', x, k)
        raise Skip('mapget')
    # -- sequences (tuples)
    def seq(s, t):
        v = s.ev(t)
        return s.toseq(v)
    def toseq(s, v):
        if isinstance(v, tuple): return v
        raise Skip('not a sequence')
    def o_tab(s, t, n, l): return tuple(s.lam(l, i) for i in range(s.nat(n)))
    def o_lit(s, t, xs): return tuple(s.ev(x) for x in xs)
    def o_concat(s, t, xs):
        r = ()
        for x in xs: r += s.seq(x)
        return r
    def o_flat(s, t, n, l):
        r = ()
        for i in range(s.nat(n)): r += s.toseq(s.lam(l, i))
        return r
    def o_filt(s, t, n, c, el): return tuple(s.lam(el, i) for i in range(s.nat(n)) if s.tobool(s.lam(c, i)))
    def o_cnt(s, t, n, c): return sum(1 for i in range(s.nat(n)) if s.tobool(s.lam(c, i)))
    def o_upd(s, t, a, i, v):
        x = s.seq(a); k = s.int(i)
        if not 0 <= k < len(x): raise Skip('index out of range')
        return x[:k] + (s.ev(v),) + x[k + 1:]
    def o_rstore(s, t, a, off, cnt, l):
        x = s.seq(a); o = s.nat(off); c = s.nat(cnt)
        if o + c > len(x): raise Skip('store out of range')
        return x[:o] + tuple(s.lam(l, i) for i in range(o, o + c)) + x[o + c:]
    def o_get(s, t, a, i):
        x = s.ev(a); k = s.int(i)
        if isinstance(x, Op): return Op('get', x, k)
        if isinstance(x, tuple):
            if not 0 <= k < len(x): raise Skip('index out of range')
            return x[k]
        raise Skip('get')
    def o_len(s, t, a):
        x = s.ev(a)
        if isinstance(x, tuple): return len(x)
        if isinstance(x, (OSet, OMap)): return len(x.items)
        if isinstance(x, Op): return hnum((x.k, 'len'), s.salt) % 6
        raise Skip('len')
    def o_sum(s, t, n, l):
        q = 0; fe = False
        for i in range(s.nat(n)):
            v = s.lam(l, i)
            if isinstance(v, Op): v = s.opnum(l.args[1], v)
            if isinstance(v, Fe) or fe: q = embed(q).v + embed(v).v; fe = True; q %= p
            else: q = q + v
        return Fe(q) if fe else nrm(q)
    def o_prod(s, t, n, l):
        q = 1; fe = False
        for i in range(s.nat(n)):
            v = s.lam(l, i)
            if isinstance(v, Op): v = s.opnum(l.args[1], v)
            if isinstance(v, Fe) or fe: q = embed(q).v * embed(v).v; fe = True; q %= p
            else: q = q * v
        return Fe(q) if fe else nrm(q)
    def o_rec(s, t, j, n, inits, l):
        xs = [s.ev(x) for x in inits]
        m = len(xs)
        for k in range(s.nat(n)):
            r = s.lam(l, k, *xs)
            if m == 1 and not (isinstance(r, Agg) and r.ty == 'tuple' and len(r.f) == 1 and False): 
                xs = [r.f[0][1]] if isinstance(r, Agg) and r.ty == 'tuple' and len(r.f) == 1 and s.wrapped(l, 1) else [r]
            else: xs = [y for _, y in r.f]
        return xs[s.int(j)]
    def wrapped(s, l, m):
        b = l.args[1]
        for _ in range(m): b = b.args[1]
        return b.op == 'agg' and b.args[0] == 'tuple' and len(b.args[2]) == 1
    def o_last(s, t, n, c, x, a):
        for k in range(s.nat(n) - 1, -1, -1):
            if s.tobool(s.lam(c, k)): return s.lam(x, k)
        return s.ev(a)
    def o_least(s, t, l):
        for k in range(64):
            if s.tobool(s.lam(l, k)): return k
        raise Skip('least')
    def o_wf(s, t, a, lo, hi, l):
        base = list(s.seq(a)); lo = s.nat(lo); hi = s.nat(hi)
        todo = set(range(lo, min(hi, len(base))))
        cur = base
        # the equation is well founded: resolve positions in the order in which their inputs become available
        for order in (sorted(todo, reverse=True), sorted(todo)):
            xs = list(base)
            for q in order: xs[q] = None
            try:
                for q in order: xs[q] = s.lam(l, tuple(xs), q)
            except Skip: continue
            if all(x is not None for x in xs): return tuple(xs)
        raise Skip('wf')

def same_value(a, b, ev):
    if a is b: return True
    if isinstance(a, (Fe, int, Fraction)) and isinstance(b, (Fe, int, Fraction)) and not isinstance(a, bool) and not isinstance(b, bool):
        if isinstance(a, Fe) or isinstance(b, Fe): return embed(a) == embed(b)
        return a == b
    if isinstance(a, bool) or isinstance(b, bool):
        if isinstance(a, (bool, int)) and isinstance(b, (bool, int)): return int(a) == int(b)
    for x, y in ((a, b), (b, a)):
        if isinstance(x, Op) and not isinstance(y, Op):
            if isinstance(y, tuple):
                return all(same_value(Op('get', x, i), z, ev) for i, z in enumerate(y))
            if isinstance(y, Agg) and not y.var: return all(same_value(Op('fld', x, n), z, ev) for n, z in y.f)
            if isinstance(y, Fe): return y in (ev.opnum(None, x), Fe(hnum(x.k, ev.salt)))
            if isinstance(y, int): return y in (ev.small(x), hnum(x.k, ev.salt) % 8) or embed(y) == ev.opnum(None, x)
            raise Skip('incomparable')
    if isinstance(a, tuple) and isinstance(b, tuple): return len(a) == len(b) and all(same_value(x, y, ev) for x, y in zip(a, b))
    if isinstance(a, Agg) and isinstance(b, Agg):
        if a.var != b.var: return False
        da, db = dict(a.f), dict(b.f)
        return set(da) == set(db) and all(same_value(da[n], db[n], ev) for n in da)
    if isinstance(a, OSet) and isinstance(b, OSet): return same_value(a.items, b.items, ev)
    if isinstance(a, OMap) and isinstance(b, OMap):
        return len(a.items) == len(b.items) and all(same_value(x, u, ev) and same_value(y, v, ev) for (x, y), (u, v) in zip(a.items, b.items))
    if isinstance(a, Op) and isinstance(b, Op):
        if a.k == b.k: return True
        return deep(a.k, b.k, ev)
    return False
def deep(a, b, ev):
    if len(a) != len(b): return False
    for x, y in zip(a, b):
        if isinstance(x, tuple) and isinstance(y, tuple) and not any(isinstance(z, (Op, Agg, Fe)) for z in ()):
            if len(x) != len(y): return False
            if not all(same_value(u, v, ev) if not isinstance(u, str) else u == v for u, v in zip(x, y)): return False
        elif isinstance(x, str) or isinstance(y, str):
            if x != y: return False
        elif not same_value(x, y, ev): return False
    return True

# ---------------------------------------------------------------- sampling
INTPOS = {'div': (0, 1), 'mod': (0, 1), 'ceildiv': (0, 1), 'monus': (0, 1), 'npow2': (0,), 'log2': (0,), 'lt0': (0,), 'chunk': (0,), 'ispow2': (0,),
          'tab': (0,), 'flat': (0,), 'sum': (0,), 'prod': (0,), 'any': (0,), 'maxof': (0,), 'filt': (0,), 'cnt': (0,), 'last': (0,), 'rec': (0, 1), 'get': (1,), 'upd': (1,),
          'rstore': (1, 2), 'wf': (1, 2), 'band': (0, 1), 'bor': (0, 1), 'bxor': (0, 1), 'lmap': (0,), 'groupby': (0,)}
def int_atoms(ts):
    """atoms in integer positions"""
    seen = set(); out = set(); work = [(t, False) for t in ts]
    while work:
        t, ii = work.pop()
        if (t, ii) in seen: continue
        seen.add((t, ii))
        if t.op == 'P':
            for m, c in t.args[0]:
                for at, e in m:
                    work.append((at, ii))
                    if isinstance(e, T): work.append((e, True))
            continue
        if ii and t.op in ('sym', 'var', 'fld', 'app', 'appm', 'get', 'mapget'): out.add(t)
        if ii and t.op == 'ite':
            work.append((t.args[0], False)); work.append((t.args[1], True)); work.append((t.args[2], True)); continue
        if ii and t.op in ('sum', 'prod', 'maxof'): work.append((t.args[1].args[-1], True))
        if t.op in ('min', 'max'):
            for x in t.args[0]: work.append((x, True))
            continue
        ps = INTPOS.get(t.op, ())
        for i, x in enumerate(t.args):
            if isinstance(x, T): work.append((x, i in ps))
            elif isinstance(x, tuple):
                for y in _walk_children(x): work.append((y, False))
    return out

def symbols(ts):
    out = set()
    for t in ts: out |= {x for x in t.fs if x.op in ('sym', 'var')}
    return out

def pool_of(ts):
    """constants that conditions compare with"""
    out = set()
    for x in ts:
        if x.op in ('mod', 'div', 'band', 'bor', 'bxor'):
            for y in x.args:
                v = terms.as_num(y)
                if isinstance(v, int) and 1 < v < 1 << 62: out |= {v, v + 1}
        if x.op == 'min':
            for y in x.args[0]:
                v = terms.as_num(y)
                if isinstance(v, int) and 1 < v <= 2000: out |= {v, v + 1}
        if x.op not in ('eq0', 'lt0') or x.args[0].op != 'P': continue
        ms = x.args[0].args[0]
        k = [c for m, c in ms if not m]
        if len(ms) != 2 or not k: continue
        o = next(c for m, c in ms if m)
        v = abs(Fraction(k[0]) / o)
        if v.denominator == 1 and v <= 2000: out |= {int(v)} | ({max(0, int(v) - 1), int(v) + 1} if x.op == 'lt0' else set())
    return tuple(sorted(out))
def assignment(syms, ia, pow2, rnd, big, pool=()):
    asg = {}
    sa = rnd.randrange(0, 5) if SMALL_S else TWO_ADICITY
    bits = rnd.choice((8, 63, 64, 65, 127, 128, 200, 254))
    for x in sorted(syms, key=lambda x: x.id):
        if x.op == 'sym' and x.args[0] == 'const' and str(x.args[1]).endswith('PrimeField::S'): asg[x] = sa
        elif x.op == 'sym' and x.args[0] == 'const' and 'NUM_BITS' in str(x.args[1]): asg[x] = bits
        elif x.op == 'sym' and x.args[0] == 'const' and 'CAPACITY' in str(x.args[1]): asg[x] = bits - 1
        elif x is ROOT: asg[x] = Fe(pow(GEN, (p - 1) >> sa, p))
        elif x is GENS: asg[x] = Fe(GEN)
        elif pool and x in pow2 and rnd.random() < .3 and [v for v in pool if v and v & (v - 1) == 0]: asg[x] = rnd.choice([v for v in pool if v and v & (v - 1) == 0])
        elif pool and x in ia and x not in pow2 and rnd.random() < .3: asg[x] = rnd.choice(pool)
        elif x in pow2: asg[x] = 1 << rnd.randrange(0, 5)
        elif x in ia: asg[x] = rnd.randrange(0, (4, 9, 20)[big])
    for x, v in FIXED: 
        if x in syms: asg[x] = v
    for x in sorted(pow2, key=lambda x: x.id):
        if x not in asg: asg[x] = 1 << rnd.randrange(0, 5)
    return asg

def compare(got, want, facts=(), pow2=(), ints=(), samples=12, tries=400, seed=1, sparse=1500):
    """('differ', assignment, a, b) | ('agree', n) | ('none', reason)"""
    rnd = random.Random(seed)
    ts = [got, want] + list(facts)
    ia = int_atoms(ts) | set(ints) | set(pow2)
    # eq0 between integers: atoms that share a polynomial with integer atoms
    for x in terms.subterms(got) | terms.subterms(want):
        if x.op in ('eq0',) and x.args[0].op == 'P':
            ats = [a for m, c in x.args[0].args[0] for a, e in m]
            if any(a in ia or a.op in terms.NONNEG_OPS for a in ats): ia |= {a for a in ats if a.op in ('sym', 'var', 'fld', 'app', 'get', 'mapget')}
    syms = symbols(ts)
    n = 0; why = {}; t0 = time.time(); seen = 0
    # random values first; then, where conditions decide the outcome, mostly small ones: rare cases are met that way
    diff = terms.subterms(got) ^ terms.subterms(want)
    pool = pool_of(diff)
    top = conditional(got) or conditional(want)
    inner = any(x.op in ('eq0', 'lt0') for x in diff)
    rounds = [(k, 0) for k in range(tries)] + ([(tries + k, (60, 80, 95, 99)[k % 4] if top else (0, 30, 60, 90)[k % 4] or 10) for k in range(sparse)] if top or inner or pool else [])
    for k, sp in rounds:
        if not sp and n >= samples: continue
        if sp and time.time() - t0 > (SPARSE_TIME if top else SPARSE_TIME / 2): break
        asg = assignment(syms, ia, pow2, rnd, k % 3 if not sp else 0, pool if sp else ())
        ev = Ev(asg, ia, k, rnd.randrange(1, 7)); ev.sparse = sp; ev.pool = pool; ev.solve = bool(sp and top and k % 3)
        try:
            if not all(ev.bool(f) for f in facts): continue
            a = ev.ev(got); b = ev.ev(want)
            if not same_value(a, b, ev):
                return ('differ', {terms.show(x): v for x, v in asg.items()}, a, b, ev.cpus)
            n += 1
        except Skip as e: why[str(e)] = why.get(str(e), 0) + 1
        except RecursionError: why['depth'] = 1
    if n: return ('agree', n)
    return ('none', why)
def large(got, want, facts=(), pow2=(), ints=(), seconds=20, seed=2, **_):
    """like compare, at larger sizes; of tables only some elements are compared"""
    rnd = random.Random(seed); ts = [got, want] + list(facts)
    ia = int_atoms(ts) | set(ints) | set(pow2); syms = symbols(ts); t0 = time.time(); n = 0; k = 0
    tables = got.op == 'tab' and want.op == 'tab'
    while time.time() - t0 < seconds and k < 200:
        k += 1
        asg = assignment(syms, ia, pow2, rnd, 1)
        for x in asg:
            if x in pow2: asg[x] = 1 << rnd.randrange(0, 9)
            elif x in ints: asg[x] = rnd.randrange(0, 8)
        ev = Ev(asg, ia, k, rnd.choice((1, 2, 3, 8, 16, 32, 33, 64))); ev.fuel = 3000000
        try:
            if not all(ev.bool(f) for f in facts): continue
            if tables:
                L = ev.nat(got.args[0])
                if L != ev.nat(want.args[0]): pairs = [(L, ev.nat(want.args[0]))]
                else: pairs = [(ev.lam(got.args[1], q), ev.lam(want.args[1], q)) for q in sorted({0, L - 1} | {rnd.randrange(L) for _ in range(6)}) if 0 <= q < L]
            else: pairs = [(ev.ev(got), ev.ev(want))]
            for a, b in pairs:
                if not same_value(a, b, ev): return ('differ', {terms.show(x): v for x, v in asg.items()}, a, b, ev.cpus)
            n += 1
        except Skip: pass
        except RecursionError: pass
    return ('agree', n)
def conditional(t):
    while t.op in ('not', 'ite'):
        if t.op == 'ite': return True
        t = t.args[0]
    return t.op in ('and', 'any', 'eq0', 'lt0')
SPARSE_TIME = 40
FIXED = []
SMALL_S = False        # sample fields of small two-adicity as well
ROOT = terms.sym('root_of_unity'); GENS = terms.sym('generator')

def cpu_dependence(t, facts=(), pow2=(), ints=(), samples=24, tries=400, seed=1):
    """evaluate one term under two CPU counts: ('differ', assignment, ...) | ('agree', n) | ('none', reason)"""
    rnd = random.Random(seed)
    ia = int_atoms([t] + list(facts)) | set(ints) | set(pow2)
    syms = symbols([t] + list(facts))
    n = 0; why = {}
    for k in range(tries):
        asg = assignment(syms, ia, pow2, rnd, k % 3)
        try:
            c1, c2 = rnd.sample((1, 2, 3, 4, 5, 6, 7, 8, 12, 16, 33, 64), 2)
            e1, e2 = Ev(asg, ia, k, c1), Ev(asg, ia, k, c2)
            if not all(e1.bool(f) for f in facts): continue
            a, b = e1.ev(t), e2.ev(t)
            if not same_value(a, b, e1): return ('differ', dict({terms.show(x): v for x, v in asg.items()}, **{'CPUs': '%d or %d' % (c1, c2)}), a, b)
            if e1.split or e2.split: n += 1          # worlds in which no split is reached show nothing
            if n >= samples: break
        except Skip as e: why[str(e)] = why.get(str(e), 0) + 1
        except RecursionError: why['depth'] = 1
    return ('agree', n) if n else ('none', why)
