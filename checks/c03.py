"""C03: acceptance requires every opening to be authenticated at the drawn index."""
from .claim import *

FQ, FR, GQ, GR = sym('f_queries'), sym('f_iop_roots'), sym('g_query'), sym('g_iop_root')
def ql(q): return app('path', q)
def check(c):
    c.rule('Verifier::verify is brought into closed form for an arbitrary proof and instance. Its acceptance condition must imply, for every opening: as many openings as registers and roots, Merkle verification against the own root, '
           'a path of the tree\'s depth, and the index that was drawn from the transcript and handed to the low-degree check; and it must imply that both low-degree checks succeed on values that depend on no other openings.')
    c.assume('IOP::verify_query and FriIop::verify_proof are what C08/C09 and C04/C06 say', 'the values entering the low-degree checks are the quotients of C14')
    K = Compare(c)
    try: q = Claim(K)
    except Unsupported as e: c.undecided('Verifier::verify', str(e)[:300]); return
    n = length(FQ); i1, i2 = q.idx
    each = lambda f: forall(n, lambda i: f(get(FQ, i), i))
    drop = lambda j: lambda a, b: (a, b) != (Op('q', j), Op('r', j))
    q.require('one witness opening for each register', eq(n, NREG), 'openings', ('one opening and one root for two registers', dict(queries=1, roots=1)), ('three openings for two registers', dict(queries=3, roots=3)))
    q.require('one witness root for each opening', eq(n, length(FR)), 'roots', ('one root more than openings', dict(roots=3)), ('one root less than openings', dict(roots=1)))
    q.require('every witness opening is verified against its own root', each(lambda x, i: app('verify_query', x, get(FR, i))), 'witness opening',
              *[('opening %d not authenticated' % j, dict(verify=drop(j))) for j in (0, 1)], ('openings valid for other roots only', dict(verify=lambda a, b: a.k[0] == 'gq' or (a.k[0] == 'q' and b.k != ('r', a.k[1])))),
              *[('all openings valid for root %d only' % j, dict(verify=lambda a, b, j=j: a.k[0] == 'gq' or b.k == ('r', j))) for j in (0, 1)])
    off = lambda who: lambda index, x: index(1 if x == Op('gq') else 0) + (1 if x == who else 0)
    q.require('every witness opening is at the first drawn index', each(lambda x, i: eq(app('natural_index', x), i1)) if i1 is not None else None, 'witness index',
              *[('opening %d at another index' % j, dict(natural=off(Op('q', j)))) for j in (0, 1)], ('witness openings at the second index', dict(natural=lambda index, x: index(1))),
              ('witness openings half a domain away', dict(natural=lambda index, x: index(1) if x == Op('gq') else (index(0) + 4) % 8)))
    q.require('every witness path has the depth of its tree', each(lambda x, i: eq(length(app('path', x)), log2(mul(CD, FAC)))), 'witness path',
              *[('path of opening %d %s' % (j, w), dict(path=lambda x, j=j, d=d: d if x == Op('q', j) else 0)) for j in (0, 1) for w, d in (('shortened', -1), ('extended', 1))])
    q.require('the composition opening is verified against the composition root', app('verify_query', GQ, GR), 'composition opening', ('an unauthenticated composition opening', dict(verify=lambda a, b: a.k[0] == 'q' and b.k == ('r', a.k[1]))))
    q.require('the composition opening is at the second drawn index', eq(app('natural_index', GQ), i2) if i2 is not None else None, 'composition index',
              ('the composition opening at another index', dict(natural=off(Op('gq')))), ('the composition opening at the first index', dict(natural=lambda index, x: index(0))),
              ('the composition opening half a domain away', dict(natural=lambda index, x: (index(1) + 8) % 16 if x == Op('gq') else index(0))))
    q.require('the composition path has the depth of its tree', eq(length(app('path', GQ)), log2(mul(GD, FAC))), 'composition path',
              *[('its path %s' % w, dict(path=lambda x, d=d: d if x == Op('gq') else 0)) for w, d in (('shortened', -1), ('extended', 1))])
    for k, (p, nm) in enumerate(((PROOF1, 'p1'), (PROOF2, 'p2'))):
        f = q.fri.get(p, [])
        q.require('low-degree check %d accepts' % (k + 1), AND(isvar(f[0], RESULT_, 'Ok'), fld(f[0], '0', 'Ok')) if len(f) == 1 else None, 'low-degree check %d' % (k + 1),
                  ('low-degree check %d rejecting' % (k + 1), dict(fri={nm: 'reject'})), ('low-degree check %d failing' % (k + 1), dict(fri={nm: 'error'})))
    # indices are drawn
    for k in (0, 1):
        what = 'index %d is drawn from the transcript' % (k + 1)
        if q.idx[k] is None: c.undecided(what, 'no single call of the low-degree check'); continue
        ds = q.logs(q.idx[k], ('CHB', 'CH')); used = proof_parts(q.idx[k])
        c.ob(what, len(ds) == 1 and not used, '%s%s is computed from %s' % (q.where, what, ', '.join(sorted({show(x)[:60] for x in used})) or '%d challenges' % len(ds)), key='index %d' % (k + 1))
    if None not in q.idx:
        a, b = q.logs(q.idx[0]), q.logs(q.idx[1])
        c.ob('the two indices come from different draws', not (a and b and a[0] is b[0]), q.where + 'both query indices are derived from the same challenge', key='same draw')
    # nothing else of the openings enters
    for k, ok_ in ((0, lambda x: fam(x, FQ) or x is sym('f_at_z_m')), (1, lambda x: x is app('value', GQ) or x is sym('f_at_z_m'))):
        what = 'value %d handed to the low-degree check uses authenticated values only' % (k + 1)
        if q.val[k] is None: c.undecided(what, 'no single call of the low-degree check'); continue
        bad = [x for x in proof_parts(q.val[k]) if not ok_(x)]
        if bad and q.unresolved and not q.depends(q.val[k], value=lambda x, k=k: (x == Op('gq')) == (k == 0)): c.undecided(what, show(bad[0])[:100]); continue
        c.ob(what, not bad, '%s%s also depends on %s' % (q.where, what, ', '.join(sorted({show(x)[:80] for x in bad}))), key='value %d' % (k + 1))
    c.floor('requirements', c.counts.get('requirements', 0), 10)
def fam(x, s_): return x.op == 'app' and x.args[0] == 'value' and x.args[1][0].op == 'get' and x.args[1][0].args[0] is s_
def proof_parts(t):
    """maximal parts of the proof that a value depends on other than through challenges"""
    out = set()
    syms = {sym(x) for x in PARTS}
    def f(x):
        if x.op == 'app' and x.args[0] in ('CH', 'CHB'): return False
        if x.op == 'app' and x.args[0] == 'INDEX': return False if not any(y in syms for a in x.args[1][1:] for y in subterms(a)) else None
        if x.op == 'app' and x.args[0] in ('value', 'path', 'natural_index', 'get_roots', 'get_final_coefficients', 'verify_query', 'verify_proof'): out.add(x); return False
        if x.op == 'len': return False
        if x in syms: out.add(x)
    binder_walk(t, f)
    return out
