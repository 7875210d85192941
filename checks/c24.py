"""C24: errors are propagated, never discarded or turned into success."""
from engine.mir import *
from .outcome import Tracker
ERR_OPTIONS = ('::inverse', '::from_str', '::sqrt', '::checked_', 'checked_next_power_of_two')
SKIP_CALLEES = {'branch', 'from_residual', 'from_output', 'next', 'into_iter', 'iter'}

def fallible(t, prog):
    """does this call produce an outcome whose failure state is an error"""
    n = cname(t)
    if n is None:
        ty = t['dty']
        return ty.get('k') == 'adt' and ty['s'] == RESULT
    last = n.split('::')[-1]
    ty = t['dty']
    if ty.get('k') != 'adt': return False
    if last in SKIP_CALLEES or last in ('map', 'map_err', 'and_then', 'ok', 'clone', 'as_ref', 'as_mut'): return False
    if ty['s'] == RESULT: return True
    if ty['s'] == OPTION: return any(x in n for x in ERR_OPTIONS)
    return False

def check(c):
    P = Program()
    c.rule('Every call returning a Result (and the Options of inverse/from_str/sqrt/checked_*) is followed along its MIR uses; it must be propagated, passed on, or stop the program; '
           'a drop, a default (ok/unwrap_or*/map_or/or/iter...) or a match whose failure arm can reach a normal return is a violation.')
    T = Tracker(P)
    n = 0
    fn = set()
    for b in P.user():
        if '::tests::' in b.name or b.file in ('src/bn256.rs',) or is_derived(b): continue
        if 'PrimeFieldRepr' in (b.d.get('impl_trait') or '') or 'ff_ce::' in (b.d.get('impl_trait') or ''): continue
        if b.is_closure():
            for l in range(1, b.argc + 1):
                if b.ty(l).get('k') == 'adt' and b.ty(l)['s'] == RESULT and T.uses(b, l):
                    found = []
                    T.track(b, l, 'closure parameter', found)
                    for (B, blk, ln, w, why) in found:
                        c.ob('parameter of %s' % B.name, False, '%s: a Result parameter is %s' % (B.loc(ln), why), key='C24:%s:param:%s' % (B.name, why.split('(')[0].strip()))
        for bb, t in b.calls():
            for o in t['args']:
                if o['k'] == 'fn' and RESULT in o['f']['def'] and o['f']['name'] in ('ok', 'err', 'unwrap_or', 'unwrap_or_default', 'is_ok', 'is_err'):
                    c.ob('adaptor in %s' % b.name, False, '%s: `Result::%s` is handed to an iterator adaptor' % (b.loc(t.get('ln')), o['f']['name']), key='C24:%s:adaptor:%s' % (b.name, o['f']['name']))
            n_ = cname(t) or ''
            if n_.split('::')[-1] in ('flatten', 'flat_map') and 'iter' in n_.lower() and RESULT in str(t['f'].get('f', {}).get('args', '')) + str(t['f'].get('f', {}).get('res_args', '')):
                c.ob('flatten in %s' % b.name, False, '%s: Results are flattened, errors vanish' % b.loc(t.get('ln')), key='C24:%s:flatten' % b.name)
            if n_.split('::')[-1] == 'flat_map' and 'iter' in n_.lower():
                for o in t['args'][1:]:
                    B = P.bodies.get((b.ty(o['p']['l']) if o['k'] in ('copy', 'move') and not o['p']['p'] else {}).get('s'))
                    if B is not None and B.ty(0).get('s') == RESULT:
                        c.ob('flatten in %s' % b.name, False, '%s: Results are flattened, errors vanish' % b.loc(t.get('ln')), key='C24:%s:flatten' % b.name)
            if not fallible(t, P): continue
            n += 1; fn.add(b.name)
            what = cname(t) or 'a closure value'
            found = []
            if t['d']['p']: continue          # stored into a place with a longer life
            T.track(b, t['d']['l'], what, found)
            for (B, blk, ln, w, why) in found:
                c.ob('error of %s in %s' % (w, B.name), False, '%s: the outcome of `%s` is %s' % (B.loc(ln or t.get('ln')), w, why), key='C24:%s:%s:%s' % (B.name, w, why.split('(')[0].strip()))
            if not found: c.ob('error of %s in %s@%d' % (what, b.name, bb), True)
    c.counts['functions'] = len(fn)
    c.floor('fallible call sites', n, 150)
    # positive control: the tracker must recognise a dropped outcome on a synthetic body
    ctl = Body(dict(DROPPED), P)
    f = []
    T.track(ctl, 1, 'control', f)
    c.ob('positive control', len(f) == 1, 'the tracker no longer recognises a dropped Result')

DROPPED = {'def': 'control', 'kind': 'Fn', 'file': 'src/control', 'line': 0, 'argc': 0,
           'locals': [{'ty': {'k': 'tuple', 'a': []}}, {'ty': {'k': 'adt', 's': RESULT, 'a': []}}],
           'blocks': [{'s': [], 't': {'k': 'drop', 'p': {'l': 1, 'p': []}, 't': 1}, 'c': False}, {'s': [], 't': {'k': 'return'}, 'c': False}]}
