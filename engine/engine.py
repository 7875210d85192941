"""Value-graph construction: gated value numbering of MIR.

Each body is walked once in reverse post order; values are merged at joins under the branch condition,
calls to crate functions are replaced by their own value graphs, and every loop is summarised by solving
the recurrences of its loop-carried values (counters, sums, products, element stores, appends, ...).  No path is
enumerated, no input is chosen and nothing is executed: the result is one term per returned value and
per written place, as a function of the parameters."""
from .seqs import *
from . import seqs, terms
from .mir import *

Unsupported = terms.Budget
E = sym('E')                       # any error payload
UNDEF = mk('undef')
CONSTS = {}                        # const item name -> term (set by checks)

def mref(cell, path=()): return mk('mref', cell, path)
def is_m(t): return t.op == 'mref'
_cellmemo = {}
def cells(t):
    r = _cellmemo.get(t.id)
    if r is None:
        s = set()
        if t.op == 'mref': s.add(t.args[0])
        for c in terms._walk_children(t.args): s |= cells(c)
        r = frozenset(s) if s else EMPTY
        _cellmemo[t.id] = r
    return r

def closure(name, ups): return mk('agg', 'closure:' + name, '', tuple((str(i), u) for i, u in enumerate(ups)))
def is_closure(v): return v.op == 'agg' and v.args[0].startswith('closure:')

def mkiter(s, pos=ZERO): return agg('iter', '', [('seq', s), ('pos', pos)])
def iter_rest(it):
    s, p = fld(it, 'seq'), fld(it, 'pos')
    if p is ZERO: return s
    return slice_(s, p, sub(length(s), p))

class Frame:
    def __init__(s, body, fid, ex, tenv):
        s.body = body; s.fid = fid; s.ex = ex; s.tenv = tenv
        s.order = rpo(body); s.pos = {b: i for i, b in enumerate(s.order)}
        s.loops = loops(body)
        s.live = liveness(body)
        s.div = diverging(body); s.pre = {}      # what was asserted before a branch that stops
    def cell(s, l): return '%s.%d' % (s.fid, l)

_live = {}
def liveness(body):
    r = _live.get(body.name)
    if r is not None: return r
    order = rpo(body)
    use = {}; kill = {}
    def places(o):
        if o.get('k') in ('copy', 'move'): yield o['p']
    def idx(p): return [x[1] for x in p['p'] if x[0] == 'i']
    for b in order:
        u = set(); k = set()
        def U(l):
            if l not in k: u.add(l)
        for st in body.blocks[b]['s']:
            if st['k'] != 'asg': continue
            r = st['r']
            for o in rv_operands(r):
                for p in places(o): U(p['l']); [U(i) for i in idx(p)]
            if 'p' in r and isinstance(r['p'], dict): U(r['p']['l']); [U(i) for i in idx(r['p'])]
            p = st['p']
            if p['p']: U(p['l']); [U(i) for i in idx(p)]
            else: k.add(p['l'])
        t = body.blocks[b]['t']
        if t['k'] == 'call':
            for o in t['args'] + ([t['f']] if t['f'].get('k') in ('copy', 'move') else []):
                for p in places(o): U(p['l']); [U(i) for i in idx(p)]
            if t['d']['p']: U(t['d']['l'])
            else: k.add(t['d']['l'])
        elif t['k'] == 'switch':
            for p in places(t['o']): U(p['l']); [U(i) for i in idx(p)]
        elif t['k'] == 'assert':
            for key in ('c', 'len', 'index'):
                if isinstance(t.get(key), dict):
                    for p in places(t[key]): U(p['l'])
        elif t['k'] == 'return': U(0)
        use[b] = u; kill[b] = k
    live = {b: set(use[b]) for b in order}
    ch = True
    while ch:
        ch = False
        for b in reversed(order):
            n = set(use[b])
            for t in body.succ(b):
                n |= live[t] - kill[b] if t in live else set()
            if n != live[b]: live[b] = n; ch = True
    _live[body.name] = live
    return live

_div = {}
def diverging(body):
    """blocks that can never reach a return"""
    r = _div.get(body.name)
    if r is None:
        ok = {b for b in body.reach() if body.blocks[b]['t']['k'] == 'return'}
        ch = True
        while ch:
            ch = False
            for b in body.reach():
                if b not in ok and any(t in ok for t in body.succ(b)): ok.add(b); ch = True
        r = body.reach() - ok
        _div[body.name] = r
    return r

_uns = {}
def unskippable(F, b):
    """no path of the body (or of one round of its innermost loop) gets past the block without it, except by returning or leaving the loop"""
    k = (F.body.name, b); r = _uns.get(k)
    if r is not None: return r
    body = F.body
    inner = [(len(bl), h, bl, la) for h, (bl, la) in F.loops.items() if b in bl and h != b]
    head, blocks, latches = min(inner, key=lambda x: x[0])[1:] if inner else (0, body.reach(), ())
    def walk(start):
        seen = set(); work = list(start)
        while work:
            x = work.pop()
            if x in seen or x == b or x not in blocks: continue
            seen.add(x)
            work += [y for y in body.succ(x) if not (inner and y == head)]
        return seen
    def tail(x): return x in F.div or body.blocks[x]['t']['k'] in ('return', 'drop', 'goto', 'resume') and not any(y['k'] == 'asg' for y in body.blocks[x]['s'])
    skip = walk([head])
    if inner: r = not any(x in skip for x in latches) and unskippable(F, head)
    else: r = all(tail(x) for x in skip & walk(body.succ(b)))
    _uns[k] = r
    return r

def lits_term(lits): return AND(*[c if v else NOT(c) for c, v in lits])

class Ex:
    def __init__(s, prog, opaque=None, traits=None, consts=None, limit=60, pow2=(), facts=None, budget=120, ints=()):
        terms.DEADLINE[0] = terms._time.time() + budget
        s.P = prog; s.opaque = opaque or {}; s.traits = traits or {}
        s.consts = consts or {}; s.loops_ = []; s.own = ()
        s.stack = []; s.limit = limit
        s.fid = 0
        FACTS.clear(); terms.POW2.clear(); seqs.ORDER.clear(); BOUND.clear(); seqs.POS.clear(); seqs.INTS.clear(); seqs._rl.clear()
        terms._as_memo.clear()
        for x in pow2: terms.POW2.add(x); seqs.POS.add(x)
        for x in tuple(ints) + tuple(pow2): seqs.INTS.add(x)
        s.hyps = list(facts or ())
        for x in s.hyps: s.assume(x)
        s.calls = []
        s.panics = []            # (body name, line, kind, condition, the part that fails, what was asserted before)
        s.quiet = 0
        s.lits = [()]            # path literals of the frames above
        s.calls_seen = set()     # functions analysed
        s.nloops = 0
        s.unknown = set()        # callees treated as uninterpreted
        s.memo = {}
        from . import models
        s.models = models

    # ------------------------------------------------------------ places
    def load(s, st, m):
        if m.op == 'ite': return mkite(m.args[0], s.load(st, m.args[1]), s.load(st, m.args[2]))
        if m.op != 'mref': return m
        v = st.get(m.args[0], UNDEF)
        for p in m.args[1]: v = s.proj(st, v, p)
        return v
    def proj(s, st, v, p):
        if is_m(v): v = s.load(st, v)
        if p[0] == 'f': return fld(v, p[1], p[2] or None)
        if p[0] == 'i': return get(v, p[1])
        if p[0] == 's': return slice_(v, p[1], p[2])
        if p[0] == 'k': return fld(mapget(v, p[1]), '0', 'Some')
        raise Unsupported('projection %s' % (p,))
    def full(s, st, v):
        """value behind any chain of references"""
        n = 0
        while v.op == 'mref' or (v.op == 'ite' and (v.args[1].op == 'mref' or v.args[2].op == 'mref')):
            v = s.load(st, v); n += 1
            if n > 20: break
        return v
    def target(s, st, m):
        """innermost mutable reference behind a chain"""
        while True:
            if m.op != 'mref': return m
            v = s.load(st, m)
            if v.op == 'mref': m = v
            else: return m
    def ext(s, m, p):
        """extend a reference by a projection, merging index chains"""
        if m.op == 'ite': return mkite(m.args[0], s.ext(m.args[1], p), s.ext(m.args[2], p))
        path = m.args[1]
        if path and path[-1][0] == 's':
            off = path[-1][1]
            if p[0] == 'i': return mref(m.args[0], path[:-1] + (('i', add(off, p[1])),))
            if p[0] == 's': return mref(m.args[0], path[:-1] + (('s', add(off, p[1]), p[2]),))
        return mref(m.args[0], path + (p,))
    def store(s, st, m, v):
        if m.op == 'ite':
            a, b = m.args[1], m.args[2]
            s.store(st, a, mkite(m.args[0], v, s.load(st, a)))
            s.store(st, b, mkite(m.args[0], s.load(st, b), v))
            return
        if m.op != 'mref': raise Unsupported('store through %s' % m)
        cell, path = m.args
        st[cell] = s.put(st, st.get(cell, UNDEF), path, v)
    def put(s, st, base, path, v):
        if not path: return v
        p = path[0]
        if p[0] == 'f':
            return setf(base, p[1], s.put(st, fld(base, p[1], p[2] or None), path[1:], v), p[2] or None)
        if p[0] == 'i':
            return upd(base, p[1], s.put(st, get(base, p[1]), path[1:], v))
        if p[0] == 's':
            if len(path) > 1: raise Unsupported('store path')
            return rstore(base, p[1], p[2], lamof(length(base), lambda k: get(v, sub(k, p[1]))))
        if p[0] == 'k':
            return mapins(base, p[1], s.put(st, fld(mapget(base, p[1]), '0', 'Some'), path[1:], v))
        raise Unsupported('store path')

    def place_ref(s, F, st, pl):
        """(cell, path) reference of a place, following derefs of references"""
        m = mref(F.cell(pl['l']))
        var = None
        for p in pl['p']:
            if p[0] == 'd':
                v = s.load(st, m)
                if v.op == 'mref' or (v.op == 'ite' and v.args[1].op == 'mref'): m = v
            elif p[0] == 'v': var = p[1]
            elif p[0] == 'f': m = s.ext(m, ('f', p[1], var or '')); var = None
            elif p[0] == 'i':
                m = s.ext(m, ('i', s.full(st, st[F.cell(p[1])])))
            elif p[0] == 'ci':
                base = s.full(st, m)
                m = s.ext(m, ('i', sub(length(base), num(p[1])) if p[3] else num(p[1])))
            elif p[0] == 'ss':
                base = s.full(st, m)
                to = sub(length(base), num(p[2])) if p[3] else num(p[2])
                m = s.ext(m, ('s', num(p[1]), sub(to, num(p[1]))))
            else: raise Unsupported('place %s' % p)
        return m
    def read(s, F, st, pl):
        v = st.get(F.cell(pl['l']), UNDEF)
        var = None
        for p in pl['p']:
            if p[0] == 'd':
                if v.op == 'mref' or (v.op == 'ite' and v.args[1].op == 'mref'): v = s.load(st, v)
            elif p[0] == 'v': var = p[1]
            elif p[0] == 'f':
                v = fld(v, p[1], var); var = None
            elif p[0] == 'i': v = get(v, s.full(st, st[F.cell(p[1])]))
            elif p[0] == 'ci': v = get(v, sub(length(v), num(p[1])) if p[3] else num(p[1]))
            elif p[0] == 'ss':
                to = sub(length(v), num(p[2])) if p[3] else num(p[2])
                v = slice_(v, num(p[1]), sub(to, num(p[1])))
            else: raise Unsupported('place %s' % p)
        return v
    def write(s, F, st, pl, v):
        if not pl['p']: st[F.cell(pl['l'])] = v
        else: s.store(st, s.place_ref(F, st, pl), v)

    # ------------------------------------------------------------ operands and rvalues
    def operand(s, F, st, o):
        k = o['k']
        if k in ('copy', 'move'): return s.read(F, st, o['p'])
        if k == 'fn': return mk('agg', 'fn:' + (o['f'].get('res') or o['f']['def']), '', ())
        return s.const(F, st, o)
    def const(s, F, st, o):
        ty = o['ty']
        if ty.get('k') == 'tuple' and not ty['a']: return UNIT
        if ty.get('k') == 'prim' and 'v' in o:
            if ty['s'] == 'bool': return TRUE if o['v'] else FALSE
            return num(o['v'])
        it = o.get('item')
        if it:
            n = it['def']
            if n in s.consts: return s.consts[n]
            r = it.get('res') or n
            if r in s.P.bodies and r not in s.stack:
                try: return s.call_body(s.P.bodies[r], [], {})[0]
                except Unsupported: pass
            return sym('const', n, str(o['s']) if '<' not in str(o['s']) else '')
        if o.get('static'): return sym('static', o['static'])
        if ty.get('k') in ('fndef', 'closure'): return mk('agg', 'fn:' + str(ty.get('s')), '', ())
        return sym('lit', o.get('s', ''))
    def rvalue(s, F, st, r, dst=None):
        k = r['k']
        if k == 'use': return s.operand(F, st, r['o'])
        if k == 'ref':
            if r['m']:
                return s.place_ref(F, st, r['p'])
            return s.read(F, st, r['p'])
        if k == 'bin': return s.binop(r['op'], s.operand(F, st, r['a']), s.operand(F, st, r['b']))
        if k == 'agg':
            kd = r['kind']; ops = [s.operand(F, st, o) for o in r['ops']]
            a = kd.get('a')
            if a == 'tuple': return tup(*ops) if ops else UNIT
            if a == 'array': return lit(*ops)
            if a == 'closure': return closure(kd['def'], ops)
            if a == 'adt':
                if kd['adt'] == RES and kd['variant'] == 'Err': return err(E)
                if kd['adt'] == 'core::ops::range::Range':
                    return agg('Range', '', [('start', ops[0]), ('end', ops[1])])
                names = r['names']
                return agg(kd['adt'], kd['variant'] if kd.get('enum') else '', list(zip(names, ops)))
            raise Unsupported('aggregate %s' % a)
        if k == 'discr': return mk('discr', s.full(st, s.read(F, st, r['p'])), r['ty'].get('s', '?'))
        if k == 'cast':
            return s.operand(F, st, r['o'])if r.get('c', '').startswith('PointerC') else s.cast(s.operand(F, st, r['o']), r['ty'], s.opty(F, r['o']))
        if k == 'un':
            o = s.operand(F, st, r.get('a') or r.get('o'))
            if r['op'] == 'PtrMetadata': return length(s.full(st, o))
            if r['op'] == 'Not':
                return NOT(o) if not is_ring(o) or o in (TRUE, FALSE) else mk('bitnot', o)
            if r['op'] == 'Neg': return neg(o)
        if k == 'rawptr': return s.read(F, st, r['p'])
        if k == 'repeat':
            o = s.operand(F, st, r['o'])
            try: n = num(int(r['n']))
            except ValueError: n = s.consts.get(r['n']) or sym('const', r['n'], '')
            return tab(n, lambda i: o)
        if k == 'len': return length(s.full(st, s.read(F, st, r['p'])))
        raise Unsupported('rvalue %s' % k)
    def opty(s, F, o):
        if o['k'] == 'const': return o['ty']
        if o['k'] in ('copy', 'move') and not o['p']['p']: return F.body.locals[o['p']['l']]['ty']
        return {}
    def cast(s, o, ty, src={}):
        if ty.get('k') == 'prim' and ty['s'] in ('usize', 'u64', 'u32', 'u128', 'i64', 'i32', 'isize', 'u8', 'u16'):
            if o.op in BOOLISH: return mkind(o)
            if o.op == 'discr':
                return o
            if ty['s'] in ('u8', 'u16') and src.get('s') not in ('u8', 'bool', ty['s']) and o.op not in BOOLISH:
                return imod(o, num(1 << (8 if ty['s'] == 'u8' else 16)))
        return o
    def binop(s, op, a, b):
        if op.endswith('WithOverflow'):
            return tup(s.binop(op[:-12], a, b), FALSE)
        if op.endswith('Unchecked'): op = op[:-9]
        if op == 'Add': return add(a, b)
        if op == 'Sub': return sub(a, b)
        if op == 'Mul': return mul(a, b)
        if op == 'Div': return idiv(a, b)
        if op == 'Rem': return imod(a, b)
        if op == 'Eq': return simp_cond(eq(a, b))
        if op == 'Ne': return NOT(simp_cond(eq(a, b)))
        if op == 'Lt': return simp_cond(lt(a, b))
        if op == 'Le': return simp_cond(le(a, b))
        if op == 'Gt': return simp_cond(lt(b, a))
        if op == 'Ge': return simp_cond(le(b, a))
        if op == 'Shl': return mul(a, power(TWO, b))
        if op == 'Shr': return idiv(a, power(TWO, b))
        if op == 'BitAnd':
            if a.op in BOOLISH and b.op in BOOLISH: return AND(a, b)
            return band(a, b)
        if op == 'BitOr':
            if a.op in BOOLISH and b.op in BOOLISH: return OR(a, b)
            return mk('bor', *sorted((a, b), key=lambda t: t.id))
        if op == 'BitXor':
            if a.op in BOOLISH and b.op in BOOLISH: return OR(AND(a, NOT(b)), AND(NOT(a), b))
            return bxor(a, b)
        raise Unsupported('binop %s' % op)

    # ------------------------------------------------------------ blocks
    def sure(s, F, b):
        """every execution that goes on passes this block: what is asserted there holds from then on"""
        return unskippable(F, b) and all(unskippable(*x) for x in s.calls)
    def assume(s, c, v=True):
        """a condition that holds on every surviving path: record rewrites"""
        if not v: c = NOT(c)
        if c.op == 'and':
            for x in c.args[0]: s.assume(x)
            return
        if c.op == 'eq0':
            p = poly(c.args[0])
            lens = [(m[0][0], k) for m, k in p.items() if len(m) == 1 and m[0][1] == 1 and m[0][0].op == 'len' and abs(k) == 1]
            if lens:
                a, k = max(lens, key=lambda x: (len(show(x[0])), x[0].id))
                rest = dict(p); del rest[((a, 1),)]
                r = mkP(rest)
                if k == 1: r = neg(r)
                if a not in subterms(r): FACTS[a] = r
        if c.op == 'ispow2':
            x = c.args[0]
            if x.op != 'P': terms.POW2.add(x); seqs.POS.add(x)
        seqs.order_fact(c)
    def known_now(s):
        """what was asserted so far"""
        return (tuple(seqs.ORDER), dict(FACTS), set(terms.POW2), set(seqs.POS)) if s.ARITH else None
    def set_known(s, k):
        seqs.ORDER[:] = k[0]
        for d, v in ((FACTS, k[1]), (terms.POW2, k[2]), (seqs.POS, k[3])): d.clear(); d.update(v)
    def add_known(s, k):
        seqs.ORDER.extend(x for x in k[0] if x not in seqs.ORDER)
        for d, v in ((FACTS, k[1]), (terms.POW2, k[2]), (seqs.POS, k[3])): d.update(v)
    def panic(s, F, ln, kind, lits, bad=TRUE, before=None):
        if not s.quiet:
            s.panics.append((F.body.name, ln, kind, AND(bad, *[lits_term(l) for l in s.lits + [lits]]), bad, before or s.known_now()))

    def block(s, F, b, st, lits):
        """run one block; yields (target, lits, st) out-edges"""
        bl = F.body.blocks[b]
        for x in bl['s']:
            if x['k'] == 'asg':
                if s.ARITH: s.arith(F, st, x, lits)
                s.write(F, st, x['p'], s.rvalue(F, st, x['r']))
        t = bl['t']; k = t['k']
        if k == 'goto': return [(t['t'], lits, st)]
        if k == 'drop': return [(t['t'], lits, st)]
        if k == 'return': return [('ret', lits, st)]
        if k in ('unreachable', 'resume'): return []
        if k == 'assert':
            c = s.operand(F, st, t['c'])
            if not t['e']: c = NOT(c)
            c = s.known(c, lits)
            if c is not TRUE:
                s.panic(F, t.get('ln'), t['msg'], lits, NOT(c))
            return [(t['t'], lits, st)]
        if k == 'switch': return s.switch(F, b, t, st, lits)
        if k == 'call': return s.docall(F, b, t, st, lits)
        raise Unsupported('terminator %s' % k)
    ARITH = False           # also record where unsigned arithmetic leaves its range
    def arith(s, F, st, x, lits):
        r = x['r']
        if r.get('k') != 'bin' or r['op'].replace('Unchecked', '').replace('WithOverflow', '') not in ('Add', 'Sub', 'Mul'): return
        if s.opty(F, r['a']).get('s') not in ('usize', 'u64', 'u32'): return
        a, b = s.operand(F, st, r['a']), s.operand(F, st, r['b'])
        if r['op'].startswith('Sub'): bad = simp_cond(lt(a, b))
        else:
            z = s.binop(r['op'][:3], a, b)
            bad = FALSE if as_num(z) is not None else mk('app', 'overflows', (z,))
        bad = s.known(bad, lits)
        if bad is not FALSE: s.panic(F, x.get('ln'), 'overflow', lits, bad)
    def known(s, c, lits):
        if c in (TRUE, FALSE): return c
        d = {}
        for l in s.lits + [lits]:
            for x, v in l:
                d[x] = TRUE if v else FALSE
                if x.op == 'and' and v:
                    for y in x.args[0]:
                        if y.op == 'not': d[y.args[0]] = FALSE
                        else: d[y] = TRUE
                if x.op == 'not': d[x.args[0]] = FALSE if v else TRUE
        if not d: return c
        r = acond(c, d)
        return simp_cond(r)
    def switch(s, F, b, t, st, lits):
        o = s.operand(F, st, t['o'])
        arms = []
        if t['ty'].get('s') == 'bool':
            vals = {v: tb for v, tb in t['vals']}
            if 0 in vals: arms = [(o, vals.get(1, t.get('else'))), (NOT(o), vals[0])]
            else: arms = [(o, vals[1]), (NOT(o), t.get('else'))]
        elif o.op == 'discr' or (o.op == 'ite'):
            if o.op == 'discr':
                x, adt = o.args
                vs = ENUMS.get(adt) or s.P.adt_variants(adt)
                if vs is None: raise Unsupported('enum %s' % adt)
                ENUMS.setdefault(adt, vs)
                rest = []
                for v, tb in t['vals']:
                    c = isvar(x, adt, vs[v]); arms.append((AND(c, *rest), tb)); rest.append(NOT(c))
                if t.get('else') is not None and len(t['vals']) < len(vs): arms.append((AND(*rest), t['else']))
            else: raise Unsupported('switch on %s' % o.op)
        else:
            rest = []
            for v, tb in t['vals']:
                c = simp_cond(eq(o, num(v))); arms.append((AND(c, *rest), tb)); rest.append(NOT(c))
            if t.get('else') is not None: arms.append((AND(*rest), t['else']))
        out = []
        live = []
        for c, tb in arms:
            c = s.known(c, lits)
            if c is FALSE or tb is None: continue
            tbk = F.body.blocks[tb]
            if tbk['t']['k'] == 'unreachable' and not tbk['s']: continue
            live.append((c, tb))
        surv = [x for x in live if x[1] not in F.div]
        if s.ARITH and not s.quiet:
            for c, tb in live:
                if tb in F.div and tb not in F.pre: F.pre[tb] = s.known_now()
        if len(surv) == 1 and len(live) > 1:      # all other arms stop the program: an assertion
            for c, tb in live:
                if tb in F.div:
                    out.append((tb, lits + ((c, True),) if c is not TRUE else lits, dict(st)))
            c, tb = surv[0]
            if s.sure(F, b): s.assume(c)
            out.append((tb, lits, st))
            return out
        if len(live) == 2:
            c = live[0][0]
            out.append((live[0][1], lits + ((c, True),), dict(st)))
            out.append((live[1][1], lits + ((c, False),), st))
            if c.op == 'not': out = [(a, lits + ((c.args[0], i == 1),), z) for i, (a, _, z) in enumerate(out)]
            if s.loops_ and s.loops_[-1][0] is F and (live[0][1] in s.loops_[-1][1]) != (live[1][1] in s.loops_[-1][1]):
                stays = next(l for t, l, _ in out if t in s.loops_[-1][1])[-1]
                if stays[1]: s.bound(stays[0])
            return out
        if len(live) == 1: return [(live[0][1], lits, st)]
        # several arms: a chain of decisions
        l2 = lits
        for i, (c, tb) in enumerate(live):
            if i == len(live) - 1: out.append((tb, l2, st)); break
            cc = s.known(c, l2)
            out.append((tb, l2 + ((cc, True),), dict(st))); l2 = l2 + ((cc, False),)
        return out
    def bound(s, c):
        """v < X on the surviving side of a loop test bounds the loop variable"""
        if c.op == 'not': c = c.args[0]
        if c.op == 'lt0':
            d = c.args[0]
            for m, k in poly(d).items():
                if k == 1 and len(m) == 1 and m[0][1] == 1 and m[0][0].op == 'var' and m[0][0].args[0].startswith('mu#'):
                    v = m[0][0]
                    if v not in (s.loops_[-1][2] if s.loops_ else s.own): continue
                    X = sub(v, d)
                    if v not in X.fs and v not in BOUND: BOUND[v] = X
                    return

    # ------------------------------------------------------------ regions
    def prune(s, F, b, st):
        """drop cells of this frame that are dead at block b and not referenced"""
        live = F.live.get(b)
        if live is None: return st
        pre = F.fid + '.'
        keep = {}; rest = {}
        for c, v in st.items():
            if c.startswith(pre):
                if int(c[len(pre):]) in live: keep[c] = v
                else: rest[c] = v
            else: keep[c] = v
        if rest:
            work = list(keep.values())
            while work:
                v = work.pop()
                for c in cells(v):
                    if c in rest: keep[c] = rest.pop(c); work.append(keep[c])
        return keep
    def fold(s, F, b, entries):
        """merge (lits, st) entries into one (lits, st)"""
        if len(entries) == 1:
            return entries[0][0], entries[0][1]
        n = 0
        m = min(len(e[0]) for e in entries)
        while n < m and all(e[0][n] == entries[0][0][n] for e in entries): n += 1
        pre = entries[0][0][:n]
        ents = [(e[0][n:], e[1]) for e in entries]
        lits, st = s.fold2(ents)
        return pre + lits, st
    def fold2(s, ents):
        if len(ents) == 1: return ents[0]
        if any(not e[0] for e in ents):
            # overlapping conditions can only come from abandoned assertions: first one wins
            for e in ents:
                if not e[0]: return e
        c = ents[0][0][0][0]
        A = [(e[0][1:], e[1]) for e in ents if e[0][0] == (c, True)]
        B = [(e[0][1:], e[1]) for e in ents if e[0][0] == (c, False)]
        X = [e for e in ents if e[0][0][0] is not c]
        if X:
            # general case: decide by complete conditions
            st = ents[-1][1]; pc = lits_term(ents[-1][0])
            for l, x in reversed(ents[:-1]):
                q = lits_term(l)
                st = s.merge2(q, x, st); pc = OR(q, pc)
            return (((pc, True),) if pc is not TRUE else ()), st
        if not B:
            l, st = s.fold2(A); return ((c, True),) + l, st
        if not A:
            l, st = s.fold2(B); return ((c, False),) + l, st
        la, sa = s.fold2(A); lb, sb = s.fold2(B)
        st = s.merge2(c, sa, sb)
        if not la and not lb: return (), st
        pc = OR(AND(c, lits_term(la)), AND(NOT(c), lits_term(lb)))
        return (((pc, True),) if pc is not TRUE else ()), st
    def merge2(s, c, sa, sb):
        if sa is sb: return sa
        out = {}
        for k, v in sa.items():
            w = sb.get(k)
            if w is None or w is v: out[k] = v
            else: out[k] = mkite(c, v, w)
        for k, w in sb.items():
            if k not in out: out[k] = w
        return out

    def region(s, F, entry, st0, blocks, header=None):
        """run the blocks (acyclic after collapsing inner loops); exits: (target|'ret'|'latch', lits, st)"""
        pend = {entry: [((), st0)]}
        exits = []
        skip = set()
        for b in F.order:
            if b not in blocks or b not in pend or b in skip: continue
            ents = pend.pop(b)
            lp = F.loops.get(b)
            if len(ents) > 1: ents = [(l, s.prune(F, b, x)) for l, x in ents]
            lits, st = s.fold(F, b, ents)
            if b in F.div:
                s.panic(F, F.body.blocks[b]['t'].get('ln') or 0, 'panic', lits, before=F.pre.get(b))
                continue
            if lp is not None and b != header:
                s.lits.append(lits)
                outs = [(t, lits + l, x) for t, l, x in s.run_loop(F, b, st, lp[0])]
                s.lits.pop()
                skip |= lp[0]
            else:
                st = dict(st)
                outs = s.block(F, b, st, lits)
            for t, l, x in outs:
                if t == 'ret': exits.append((t, l, x))
                elif header is not None and t == header: exits.append(('latch', l, x))
                elif t in blocks: pend.setdefault(t, []).append((l, x))
                else: exits.append((t, l, x))
        return exits

    def call_body(s, body, args, st, tenv=None):
        """value of a call to a crate function; None result when it never returns"""
        s.calls_seen.add(body.name)
        if len(s.stack) > s.limit: raise Unsupported('depth')
        s.fid += 1
        fid = 'f%d' % s.fid
        F = Frame(body, fid, s, tenv)
        st = dict(st)
        for i, a in enumerate(args): st[F.cell(i + 1)] = a
        s.stack.append(body.name)
        saved = s.lits
        try:
            exits = s.region(F, 0, st, set(F.order))
        finally:
            s.stack.pop(); s.lits = saved
        rets = [(l, x) for t, l, x in exits if t == 'ret']
        if not rets: return None, st
        lits, st2 = s.fold(F, None, rets)
        r = st2.get(F.cell(0), UNIT)
        pre = fid + '.'
        if cells(r) and any(c.startswith(pre) for c in cells(r)):
            # a reference to a local can only be to a reference parameter: resolve one level
            r = s.resolve(st2, r, pre)
        out = {k: v for k, v in st2.items() if not k.startswith(pre)}
        return r, out
    def resolve(s, st, r, pre):
        if r.op == 'mref' and r.args[0].startswith(pre): return s.load(st, r)
        return transform(r, lambda n: s.load(st, n) if n.op == 'mref' and n.args[0].startswith(pre) else None)

    def call_closure(s, st, f, args):
        """call a closure value with an argument list; returns (value, st)"""
        cell = None
        if f.op == 'mref':
            m = s.target(st, f)
            cv = s.load(st, m)
        else: m, cv = None, f
        if cv.op == 'ite':
            ra, sa = s.call_closure(dict(st), cv.args[1], args)
            rb, sb = s.call_closure(dict(st), cv.args[2], args)
            return mkite(cv.args[0], ra, rb), s.merge2(cv.args[0], sa, sb)
        if cv.op == 'agg' and cv.args[0].startswith('fn:'):
            return s.invoke_name(cv.args[0][3:], args, st)
        if not is_closure(cv):
            return s.uninterpreted('call:' + show(cv)[:40], [cv] + args, st)
        body = s.P.bodies.get(cv.args[0][8:])
        if body is None: raise Unsupported('closure body %s' % cv.args[0])
        s.fid += 1
        cell = 'c%d' % s.fid
        st = dict(st)
        envty = body.ty(1)
        if envty.get('k') == 'ref' and envty.get('m'):
            st[cell] = cv
            a0 = mref(cell)
        else: a0 = cv
        # closure call with a tuple argument list
        r, st2 = s.call_body(body, [a0] + list(args), st)
        if cell in st2:
            nv = st2.pop(cell)
            if m is not None and nv is not cv: s.store(st2, m, nv)
        return r, st2
    def invoke_name(s, name, args, st):
        b = s.P.bodies.get(name)
        t = {'f': {'k': 'fn', 'f': {'def': name, 'name': name.split('::')[-1]}}, 'args': [], 'dty': {}}
        r = s.dispatch(name, name, args, st, t)
        return r
    def uninterpreted(s, name, args, st):
        s.unknown.add(name)
        st = dict(st)
        vals = [s.full(st, a) for a in args]
        vals = [s.resolve_all(st, v) for v in vals]
        muts = [i for i, a in enumerate(args) if a.op == 'mref']
        for a in args:
            if a.op == 'agg' and a.args[0] == 'indexmap::entry': raise Unsupported('what %s does to the entry of a map' % name)
            if a.op != 'mref' and cells(a) and not name.startswith('core::fmt') and not name.startswith('alloc::fmt') and not name.startswith('std::io'): raise Unsupported('what %s does through %s' % (name, show(a)[:120]))
        r = mk('app', name, tuple(vals))
        for i in muts:
            m = s.target(st, args[i])
            if m.op == 'mref': s.store(st, m, mk('appm', name, i, tuple(vals)))
        return r, st
    def resolve_all(s, st, v):
        if not cells(v): return v
        return transform(v, lambda n: s.full(st, n) if n.op == 'mref' else None)

    def docall(s, F, b, t, st, lits):
        args = [s.operand(F, st, a) for a in t['args']]
        f = t['f']
        s.lits.append(lits); s.calls.append((F, b))
        try:
            if f.get('k') == 'fn':
                g = f['f']
                d = g['def']; r = g.get('res') or d
                s.cur = (F, b, t, lits)
                res = s.dispatch(r, d, args, st, t)
            else:
                fv = s.operand(F, st, f)
                res = s.call_closure(st, fv, args)
        finally: s.lits.pop(); s.calls.pop()
        v, st2 = res[0], res[1]
        if v is None or t.get('t') is None:
            if v is None: pass
            return []
        s.write(F, st2, t['d'], v)
        return [(t['t'], lits, st2)]
    def dispatch(s, r, d, args, st, t):
        for n in (r, d):
            h = s.opaque.get(n)
            if h is not None:
                if h is True: return s.uninterpreted(n, args, st)
                x = h(s, args, st, t)
                if x is not NotImplemented: return x if isinstance(x, tuple) else (x, st)
        rb = s.P.bodies.get(r)
        for n in (r,) if rb is not None and r != d and not is_derived(rb) else (r, d):
            h = s.models.lookup(n, t)
            if h is not None:
                x = h(s, args, st, t)
                if x is not NotImplemented: return x if isinstance(x, tuple) else (x, st)
        b = s.P.bodies.get(r) or s.P.bodies.get(d)
        if b is None and t['f'].get('k') == 'fn' and t['f']['f'].get('trait'):
            g = t['f']['f']
            imp = s.traits.get(g['trait'])
            if imp is not None:
                c = [x for n, x in s.P.bodies.items() if n.endswith('::' + g['name']) and x.d.get('impl_trait') == g['trait']
                     and imp in str(x.d.get('impl_self')) and x.kind == 'AssocFn']
                if len(c) == 1: b = c[0]
                elif len(c) > 1: raise Unsupported('ambiguous %s' % d)
            if b is None and args and '<' not in g['trait'][:1]:
                # dynamic dispatch on a receiver whose type is known
                b = s.method_of(s.full(st, args[0]), g['trait'], g['name'])
        if b is not None and b.kind in ('AssocFn', 'Fn', 'Closure') and s.stack.count(b.name) < 3 and b.argc == len(args):
            return s.call_body(b, args, st)
        return s.uninterpreted(r if not (t['f'].get('k') == 'fn' and t['f']['f'].get('trait') and '<' in r[:1]) else d, args, st)

    def method_of(s, v, trait, name):
        if v.op != 'agg' or not v.args[0].startswith('crate::'): return None
        for i in s.P.impls:
            if i.get('trait') == trait and i['self'].get('s') == v.args[0]:
                for it in i['items']:
                    if it['n'] == name: return s.P.bodies.get(it['def'])
        return None

    # ------------------------------------------------------------ entry
    def run(s, body, names=None, init=None, muts=None):
        """analyse a function on symbolic parameters: (result, {param: final value}, panics)"""
        st = {}
        args = []
        cellsof = {}
        init = dict(init or {})
        ren = s.renamed(body, init)
        for a, b in ren.items(): init[b] = init.pop(a)
        back = {b: a for a, b in ren.items()}
        for i in range(1, body.argc + 1):
            l = body.locals[i]; n = l.get('n') or 'arg%d' % i
            ty = l['ty']
            v = init.get(n) if n in init else sym(n)
            if ty.get('k') == 'ref' and ty.get('m'):
                c = 'p:' + n
                st[c] = v; cellsof[n] = c
                args.append(mref(c))
            else: args.append(v)
        r, st2 = s.call_body(body, args, st)
        return r, {back.get(n, n): st2.get(c) for n, c in cellsof.items()}
    @staticmethod
    def renamed(body, init):
        """parameters whose names changed: the given names that are gone, matched in order with the parameters nothing was given for"""
        ps = [(body.locals[i].get('n') or 'arg%d' % i, body.locals[i]['ty']) for i in range(1, body.argc + 1)]
        gone = [a for a in init if a not in [n for n, _ in ps]]
        def worker(ty): return ty.get('k') == 'ref' and (ty['t'].get('s') or '').endswith('::Worker')
        free = [n for n, ty in ps if n not in init and not worker(ty)]
        return dict(zip(gone, free)) if len(gone) == len(free) else {}

    # ------------------------------------------------------------ loops
    def run_loop(s, F, h, st, blks):
        st = s.prune(F, h, st)
        def step(sth):
            s.loops_.append((F, blks, s.own)); s.own = ()
            try: exits = s.region(F, h, sth, blks, header=h)
            finally: s.loops_.pop()
            return [e for e in exits if e[0] != 'latch'], [(l, s.prune(F, h, x)) for t, l, x in exits if t == 'latch']
        return s.solve_loop(F, st, step, '%s:%d' % (F.body.name, h))

    def solve_loop(s, F, st, step, where=''):
        from . import loops as L
        return L.solve_loop(s, F, st, step, where)

def lamof(n, f):
    v = fresh('i'); BOUND[v] = n
    return close(v, f(v))

BOOLISH = ('true', 'false', 'not', 'and', 'or', 'eq0', 'lt0', 'is', 'any', 'ispow2')
def ispow2(x):
    n = as_num(x)
    if n is not None: return TRUE if isinstance(n, int) and n > 0 and n & (n - 1) == 0 else FALSE
    if is_pow2_term(x): return TRUE
    if x.hc:
        r = split_on(x, ispow2)
        if r is not None: return r
    return mk('ispow2', x)
def band(a, b):
    for x, y in ((a, b), (b, a)):
        n = as_num(y)
        if n == 0: return ZERO
        y1 = add(y, ONE)
        if isinstance(n, int) and n > 0 and (n & (n + 1)) == 0: return imod(x, num(n + 1))
        if n is None and is_pow2_term(y1): return imod(x, y1)
    return mk('band', *sorted((a, b), key=lambda t: t.id))
def bxor(a, b):
    for x, y in ((a, b), (b, a)):
        if as_num(y) == 0: return x
        if as_num(y) == 1:
            return sub(add(x, mul(TWO, mkind(eq0(imod(x, TWO))))), ONE)
    return mk('bxor', *sorted((a, b), key=lambda t: t.id))
BUILD['ispow2'] = ispow2
BUILD['band'] = band
BUILD['bxor'] = bxor
BUILD['discr'] = lambda x, a: mk('discr', x, a)
BUILD['mref'] = lambda c, p: mk('mref', c, p)
