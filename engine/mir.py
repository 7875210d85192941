"""The resolved program: bodies, control flow, uses.  Built from the driver's dump."""
from . import extract

OPTION = 'core::option::Option'; RESULT = 'core::result::Result'

class Body:
    def __init__(s, d, prog):
        s.d = d; s.prog = prog
        s.name = d['def']; s.kind = d['kind']; s.file = d['file']; s.line = d['line']
        s.locals = d['locals']; s.blocks = d['blocks']; s.argc = d['argc']
        s._succ = {}
        s._pdom = None; s._dom = None
    def __repr__(s): return s.name
    def ty(s, l): return s.locals[l]['ty']
    def is_closure(s): return s.kind == 'Closure' or '{closure#' in s.name.split('::')[-1]
    def succ(s, b):
        r = s._succ.get(b)
        if r is None:
            t = s.blocks[b]['t']; k = t['k']
            if k == 'goto': r = [t['t']]
            elif k == 'switch': r = [x[1] for x in t['vals']] + ([t['else']] if t.get('else') is not None else [])
            elif k in ('drop', 'assert'): r = [t['t']]
            elif k == 'call': r = [t['t']] if t.get('t') is not None else []
            else: r = []
            r = [x for x in dict.fromkeys(r) if not s.blocks[x].get('c')]
            s._succ[b] = r
        return r
    def reach(s):
        if not hasattr(s, '_reach'):
            seen = set(); st = [0]
            while st:
                b = st.pop()
                if b in seen: continue
                seen.add(b); st.extend(s.succ(b))
            s._reach = seen
        return s._reach
    def calls(s):
        for b in sorted(s.reach()):
            t = s.blocks[b]['t']
            if t['k'] == 'call': yield b, t
    def can_return(s, from_b=0):
        """can control starting at block from_b reach a return"""
        seen = set(); st = [from_b]
        while st:
            b = st.pop()
            if b in seen: continue
            seen.add(b)
            if s.blocks[b]['t']['k'] == 'return': return True
            st.extend(s.succ(b))
        return False
    def loc(s, ln=None): return '%s:%s' % (s.file, ln if ln else s.line)

def cname(t):
    """resolved callee name of a call terminator (or None)"""
    f = t['f']
    if f.get('k') == 'fn':
        g = f['f']
        return g.get('res') or g['def']
    return None

class Program:
    def __init__(s, dump=None):
        d = dump or extract.load()
        s.d = d
        s.bodies = {}
        s.all = []
        for b in d['bodies']:
            B = Body(b, s)
            s.all.append(B)
            s.bodies[B.name] = B
        s.adts = {a['def']: a for a in d['adts']}
        s.impls = d['impls']
    def find(s, *parts):
        """bodies whose name contains all parts and is not a closure/nested item of the match"""
        r = [b for n, b in s.bodies.items() if all(p in n for p in parts)]
        return r
    def one(s, suffix):
        r = [b for n, b in s.bodies.items() if n == suffix or n.endswith(suffix)]
        if len(r) != 1: raise KeyError('anchor %r matches %d bodies: %s' % (suffix, len(r), [x.name for x in r][:5]))
        return r[0]
    def user(s):
        """bodies of the crate's own source files"""
        return [b for b in s.all if b.file.startswith('src/')]
    def adt_variants(s, name):
        a = s.adts.get(name)
        return [v['n'] for v in a['variants']] if a else None

def op_places(o):
    if o['k'] in ('copy', 'move'): yield o['p'], o['k']

def rv_operands(r):
    k = r['k']
    for key in ('o', 'a', 'b', 'x'):
        v = r.get(key)
        if isinstance(v, dict) and v.get('k') in ('copy', 'move', 'const', 'fn'): yield v
    for v in r.get('ops', []) or []:
        yield v

# ---------------------------------------------------------------- control-flow structure
def dominators(body):
    """immediate-free dominator sets over the reachable normal-flow blocks"""
    if body._dom is not None: return body._dom
    reach = body.reach(); order = rpo(body)
    preds = {b: [] for b in order}
    for b in order:
        for t in body.succ(b):
            if t in preds: preds[t].append(b)
    dom = {b: None for b in order}
    dom[0] = {0}
    ch = True
    while ch:
        ch = False
        for b in order:
            if b == 0: continue
            ps = [dom[p] for p in preds[b] if dom[p] is not None]
            if not ps: continue
            n = set.intersection(*ps) | {b}
            if n != dom[b]: dom[b] = n; ch = True
    body._dom = dom; body._preds = preds
    return dom

def rpo(body):
    seen = set(); post = []
    st = [(0, iter(body.succ(0)))]; seen.add(0)
    while st:
        b, it = st[-1]
        for t in it:
            if t not in seen:
                seen.add(t); st.append((t, iter(body.succ(t)))); break
        else:
            post.append(b); st.pop()
    return post[::-1]

def loops(body):
    """natural loops: header -> (set of blocks, latches)"""
    dom = dominators(body)
    r = {}
    for b in dom:
        for t in body.succ(b):
            if t in dom[b]:
                blocks, latches = r.setdefault(t, (set([t]), []))
                latches.append(b)
                st = [b]
                while st:
                    x = st.pop()
                    if x in blocks: continue
                    blocks.add(x); st.extend(body._preds[x])
    return r

def innermost_loop(body, b):
    best = None
    for h, (bl, la) in loops(body).items():
        if b in bl and (best is None or len(bl) < len(best[1])): best = (h, bl, la)
    return best

def is_derived(b):
    """body belongs to a derived impl (its whole impl comes from an attribute): judged by trait"""
    t = b.d.get('impl_trait') or ''
    return any(x in t for x in ('core::fmt::', 'core::clone::Clone', 'core::cmp::', 'core::hash::', 'core::marker', 'core::default'))
