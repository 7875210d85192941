"""C19: unsupported constraint densities are refused, never silently dropped."""
from engine.mir import *
from .outcome import Tracker
DENS = 'crate::air::ConstraintDensity'
ENTRIES = [   # (what, suffix of the entry point)
    ('witness checking', 'ARP<F> for arp::ARPInstance<F, arp::PerRegisterARP>>::is_satisfied'),
    ('proving setup', 'ALIInstance::<F, arp::PerRegisterARP>::from_arp'),
    ('verification', 'Verifier::<F, T, I, P, PR, FRI, arp::PerRegisterARP>::verify'),
]

def dispatches(P, b):
    """switches on the discriminant of a density: (block, place, {variant: target})"""
    vs = P.adt_variants(DENS)
    for bb in sorted(b.reach()):
        bl = b.blocks[bb]
        dl = {}
        for s in bl['s']:
            if s['k'] == 'asg' and s['r']['k'] == 'discr' and s['r']['ty'].get('s') == DENS and not s['p']['p']:
                dl[s['p']['l']] = s
        t = bl['t']
        if t['k'] == 'switch' and t['o'].get('k') in ('copy', 'move') and t['o']['p']['l'] in dl:
            d = {v: t.get('else') for v in vs}
            for v, tb in t['vals']: d[vs[v]] = tb
            yield bb, d, dl[t['o']['p']['l']].get('ln')

def on_every_path(T, b, bb):
    """the block is passed in every iteration of every loop around it, and on every path to a successful return"""
    dom = dominators(b)
    node = bb
    lps = loops(b)
    while True:
        best = None
        for h, (bl, la) in lps.items():
            if node in bl and h != node and (best is None or len(bl) < len(best[1])): best = (h, bl, la)
        if best is None: break
        h, bl, la = best
        if not all(node in dom[x] for x in la): return False
        node = h
    T.reject = True
    try: return T.fail_ret(b, 0, True, (), node) is None
    finally: T.reject = False

def check(c):
    P = Program(); T = Tracker(P)
    c.rule('Every switch on the discriminant of a constraint density must, for every variant other than Dense, only stop the program or return a failure (which callers must not drop); '
           'each of witness checking, proving setup and verification reaches such a dispatch in every iteration over its constraints or densities; no reachable code rewrites a density.')
    if P.adt_variants(DENS) is None: raise KeyError('anchor: enum %s' % DENS)
    c.ob('variants', 'Dense' in P.adt_variants(DENS), 'no Dense variant')
    sites = {}
    failing_helpers = {}
    for b in P.user():
        if is_derived(b) or '::tests::' in b.name: continue
        for bb, d, ln in dispatches(P, b):
            sites.setdefault(b.name, []).append((bb, d, ln))
            for v, tb in d.items():
                if v == 'Dense': continue
                if tb is None or (b.blocks[tb]['t']['k'] == 'unreachable' and not b.blocks[tb]['s']): continue
                tr = T.fail_ret(b, tb, True)
                c.ob('%s: density %s refused' % (b.name, v), tr is None,
                     '%s: a constraint of density %s is not refused: control goes on to a normal return (blocks %s)' % (b.loc(ln), v, tr), key='C19:%s:%s' % (b.name, v))
                if b.ty(0).get('k') == 'adt' and b.ty(0)['s'] in (OPTION, RESULT) and b.can_return(tb):
                    failing_helpers[b.name] = b
            if b.ty(0).get('k') == 'prim' and b.ty(0).get('s') == 'bool': pass
    # failures of helpers must be handled by their callers
    for n, h in failing_helpers.items():
        for b in P.user():
            for bb, t in b.calls():
                if cname(t) != n or t['d']['p']: continue
                found = []
                T.track(b, t['d']['l'], n, found)
                for (B, blk, ln, w, why) in found:
                    c.ob('refusal of %s in %s' % (n, B.name), False, '%s: refusal by `%s` is %s' % (B.loc(ln or t.get('ln')), n, why), key='C19:%s:%s' % (B.name, n))
    # each entry point reaches a dispatch on every iteration
    callers = {}
    edges = callgraph(P)
    for what, suf in ENTRIES:
        e = P.one(suf)
        r = reachable(P, e.name, edges)
        hit = [n for n in r if n in sites]
        c.ob('%s reaches a density dispatch' % what, bool(hit), 'no density dispatch is reachable from %s: unsupported densities are not refused there' % e.name, key='C19:anchor:' + what)
        good = False
        for n in hit:
            for bb, d, ln in sites[n]:
                if must_reach(P, T, e.name, n, bb, edges, r): good = True
        if hit: c.ob('%s: dispatch on every constraint' % what, good, '%s: some iteration over the constraints can bypass the density dispatch' % P.bodies[hit[0]].loc(sites[hit[0]][0][2]), key='C19:bypass:' + what)
    # densities are never rewritten on the way
    for what, suf in ENTRIES + [('prover preprocessing', 'ARP<F> for arp::ARPInstance<F, arp::PerRegisterARP>>::from_instance'), ('verifier preprocessing', 'Verifier::<F, T, I, P, PR, FRI, arp::PerRegisterARP>::new'), ('trace conversion', 'TestTraceSystem<F> as arp::IntoARP<F>>::into_arp')]:
        for n in reachable(P, P.one(suf).name, edges):
            b = P.bodies[n]
            if is_derived(b) or b.file == 'src/air/constraint.rs': continue
            for bb in b.reach():
                for s in b.blocks[bb]['s']:
                    if s['k'] != 'asg': continue
                    if s['p']['p'] and s['p']['p'][-1] == ['f', 'density']:
                        c.ob('density rewritten in %s' % n, False, '%s: a constraint\'s density is overwritten' % b.loc(s.get('ln')), key='C19:rewrite:' + n)
                    if s['r']['k'] == 'agg' and s['r']['kind'].get('adt') == DENS:
                        c.ob('density built in %s' % n, False, '%s: a density is constructed while processing an instance' % b.loc(s.get('ln')), key='C19:build:' + n)
    c.floor('density dispatches', sum(len(v) for v in sites.values()), 3)

def callgraph(P):
    """body -> bodies it may call, closures it builds, and trait methods resolved to any local impl"""
    if hasattr(P, '_cg'): return P._cg
    impls = {}
    for im in P.impls:
        for it in im['items']:
            if it.get('of'): impls.setdefault(it['of'], []).append(it['def'])
    P._impls = impls
    g = {}
    for b in P.all:
        out = {}
        for bb in b.reach():
            bl = b.blocks[bb]
            ops = []
            for s in bl['s']:
                if s['k'] == 'asg':
                    ops += list(rv_operands(s['r']))
                    k = s['r'].get('kind') or {}
                    if s['r']['k'] == 'agg' and k.get('a') == 'closure':
                        out.setdefault(k.get('def') or k.get('s'), []).append(bb)
                    d = s['r'].get('ty')
            t = bl['t']
            if t['k'] == 'call':
                ops += t['args'] + [t['f']]
            for o in ops:
                if o.get('k') == 'fn':
                    f = o['f']
                    n = f.get('res') or f['def']
                    if n in P.bodies: out.setdefault(n, []).append(bb)
                    elif f['def'] in P.bodies: out.setdefault(f['def'], []).append(bb)
                    for m in impls.get(f['def'], []):
                        if m in P.bodies and not f.get('res'): out.setdefault(m, []).append(bb)
        g[b.name] = out
    P._cg = g
    return g

def reachable(P, root, g):
    seen = set(); st = [root]
    while st:
        n = st.pop()
        if n in seen: continue
        seen.add(n); st.extend(g.get(n, {}))
    return seen

def must_reach(P, T, root, target, bb, g, within):
    """block bb of target is passed on every iteration, all the way up to root along some call chain"""
    if not on_every_path(T, P.bodies[target], bb): return False
    if target == root: return True
    for n in within:
        for cb in g.get(n, {}).get(target, []):
            if n != target and must_reach(P, T, root, n, cb, g, within): return True
    return False
