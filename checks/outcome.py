"""Tracking of outcome values (Result / Option / bool tests) from their producers to their consumers.

An outcome is discharged when its failure state can only stop the program or make the enclosing function
return a failure; it is lost when it is dropped unused, defaulted, or when the failure branch goes on to a
normal return."""
from engine.mir import *

PASS_SAME = {   # methods that keep the failure state in their result
    'map', 'map_err', 'and_then', 'ok_or', 'ok_or_else', 'ok', 'branch', 'as_ref', 'as_mut', 'cloned', 'copied', 'transpose',
    'clone', 'inspect', 'inspect_err', 'as_deref', 'to_owned', 'and', 'zip', 'take', 'into', 'from',
}
STOP = {'unwrap', 'expect', 'unwrap_err', 'expect_err'}
TESTS = {'is_ok': 1, 'is_some': 1, 'is_err': 0, 'is_none': 0}      # value of the boolean in the good state
DIVERGING_IF_CLOSURE = {'unwrap_or_else', 'map_or_else', 'or_else'}
BAD_VARIANT = {'Err', 'None', 'Break'}

def is_outcome_ty(t):
    return t.get('k') == 'adt' and t['s'] in (OPTION, RESULT, 'core::ops::control_flow::ControlFlow')

class Tracker:
    def __init__(s, prog):
        s.p = prog
        s.sites = 0
        s.reject = False      # count Ok(false) as a failure too
    def uses(s, body, local):
        """every mention of a local as a source, in reachable normal-flow blocks"""
        if not hasattr(body, '_uses'):
            u = {}
            for b in sorted(body.reach()):
                bl = body.blocks[b]
                for i, st in enumerate(bl['s']):
                    if st['k'] != 'asg': continue
                    r = st['r']
                    ps = []
                    for o in rv_operands(r):
                        for p, k in op_places(o): ps.append((p, k))
                    if r['k'] in ('ref', 'rawptr', 'discr') : ps.append((r['p'], r['k']))
                    for p, k in ps:
                        u.setdefault(p['l'], []).append(('stmt', b, i, st, p, k))
                        for e in p['p']:
                            if e[0] == 'i': u.setdefault(e[1], []).append(('stmt', b, i, st, p, 'index'))
                    if st['p']['p']:
                        pass
                t = bl['t']
                if t['k'] == 'call':
                    for ai, o in enumerate(t['args']):
                        for p, k in op_places(o): u.setdefault(p['l'], []).append(('arg', b, ai, t, p, k))
                    f = t['f']
                    if f.get('k') in ('copy', 'move'): u.setdefault(f['p']['l'], []).append(('callee', b, 0, t, f['p'], 'x'))
                elif t['k'] == 'switch':
                    for p, k in op_places(t['o']): u.setdefault(p['l'], []).append(('switch', b, 0, t, p, k))
            body._uses = u
        return body._uses.get(local, [])

    def fail_ret(s, body, start, bad_ret, badl=(), avoid=None):
        """every return reachable from block start returns a failure.  Returns None if so, else a block trail"""
        # _0 state: True = failure, False = anything else, None = unassigned
        seen = set(); st = [(start, None, (start,))]
        while st:
            b, r0, trail = st.pop()
            if (b, r0) in seen or b == avoid: continue
            seen.add((b, r0))
            bl = body.blocks[b]
            for x in bl['s']:
                if x['k'] == 'asg' and x['p']['l'] == 0 and not x['p']['p']:
                    r0 = s.bad_rvalue(body, x['r'], badl)
            t = bl['t']
            if t['k'] == 'call' and t['d']['l'] == 0 and not t['d']['p']:
                n = cname(t) or ''
                r0 = n.endswith('::from_residual') or s.always_bad(t)
            if t['k'] == 'return':
                if r0 is not True: return trail + (b,)
                continue
            for n in body.succ(b): st.append((n, r0, trail + (n,) if len(trail) < 12 else trail))
        return None

    def bad_rvalue(s, body, r, badl=()):
        if r['k'] == 'agg' and r['kind'].get('variant') in BAD_VARIANT: return True
        if s.reject and r['k'] == 'agg' and r['kind'].get('variant') == 'Ok' and len(r['ops']) == 1 and r['ops'][0]['k'] == 'const' \
                and r['ops'][0]['ty'].get('s') == 'bool' and r['ops'][0].get('v') in (0, False): return True
        if r['k'] == 'use':
            o = r['o']
            if o['k'] in ('copy', 'move') and not o['p']['p'] and o['p']['l'] in badl: return True
            if o['k'] in ('copy', 'move') and not o['p']['p']:
                # a local holding a failure: all its definitions are failures
                ds = s.defs(body, o['p']['l'])
                return bool(ds) and all(s.bad_def(body, d) for d in ds)
            if o['k'] == 'const' and o.get('ty', {}).get('s') == 'bool': return o.get('v') in (0, False)
        return False
    def defs(s, body, l):
        r = []
        for b in sorted(body.reach()):
            for x in body.blocks[b]['s']:
                if x['k'] == 'asg' and x['p']['l'] == l and not x['p']['p']: r.append(('s', x['r']))
            t = body.blocks[b]['t']
            if t['k'] == 'call' and t['d']['l'] == l and not t['d']['p']: r.append(('c', t))
        return r
    def bad_def(s, body, d):
        if d[0] == 's': return s.bad_rvalue(body, d[1])
        n = cname(d[1]) or ''
        return n.endswith('::from_residual') or s.always_bad(d[1])
    def always_bad(s, t):
        n = cname(t) or ''
        if n in s.p.bodies:
            B = s.p.bodies[n]
            if not hasattr(B, '_abad'):
                B._abad = False
                B._abad = s.fail_ret(B, 0, True) is None
            return B._abad
        last = n.split('::')[-1]
        if last in ('map_err', 'err') and t['args']: return False
        return False

    def closure_diverges(s, body, o):
        """operand is a closure that never returns"""
        if o['k'] in ('copy', 'move') and not o['p']['p']:
            ty = body.ty(o['p']['l'])
        else: ty = o.get('ty') or {}
        n = ty.get('s') if ty.get('k') in ('closure', 'adt') else None
        B = s.p.bodies.get(n) if n else None
        return B is not None and not B.can_return(0)

    def track(s, body, local, what, found, proj=(), good_bool=None, depth=0, seen=None, optional_from_result=False):
        """follow an outcome held in a local; append lost outcomes to found"""
        top = seen is None
        if top: seen = set(); s.tested = []
        tested = s.tested
        if local in seen or depth > 25: return
        seen.add(local)
        s.sites += 1
        if local == 0:                     # returned to the caller
            if optional_from_result and body.is_closure(): found.append((body, None, None, what, 'turned into an Option and left to the iterator adaptor'))
            return
        us = [u for u in s.uses(body, local)]
        real = False
        mine = []; outer = found
        if top: found = mine
        for kind, b, i, x, p, k in us:
            if p['p'] and k != 'discr':
                # payload access: happens after a discriminant test (or is a field of a shared aggregate)
                if k == 'index': real = True
                continue
            real = True
            if kind == 'stmt':
                r = x['r']; d = x['p']
                if k == 'discr':
                    n0 = len(found)
                    s.switch_on(body, b, d['l'], what, found, p, seen)
                    if len(found) == n0: tested.append(b)
                elif k in ('copy', 'move', 'ref'):
                    if r['k'] in ('use', 'ref', 'cast') and not d['p']:
                        s.track(body, d['l'], what, found, (), good_bool, depth + 1, seen, optional_from_result)
                    elif r['k'] == 'un' and r.get('op') == 'Not' and good_bool is not None and not d['p']:
                        s.track(body, d['l'], what, found, (), 1 - good_bool, depth + 1, seen)
                    elif r['k'] == 'bin':
                        found.append((body, b, x.get('ln'), what, 'compared instead of handled')) if r['op'] not in ('BitAnd', 'BitOr', 'Eq', 'Ne') else None
                    # stored in an aggregate or field: escapes as a value, still an outcome for whoever reads it
            elif kind == 'arg':
                n = cname(x) or ''
                last = n.split('::')[-1]
                foreign = n not in s.p.bodies
                if foreign and (OPTION in n or RESULT in n or 'core::ops::try_trait' in n or 'Option' in n or 'Result' in n):
                    if i > 0:    # an outcome passed as an argument of a combinator
                        if last in ('and', 'zip', 'and_then', 'eq', 'ne'): pass
                        elif last in ('or', 'xor'): found.append((body, b, x.get('ln'), what, 'used as an alternative by `%s`' % last))
                        continue
                    if last in STOP: continue
                    if last in TESTS:
                        n0 = len(found)
                        if not x['d']['p']: s.track(body, x['d']['l'], what, found, (), TESTS[last], depth + 1, seen)
                        if len(found) == n0: tested.append(b)
                        continue
                    if last in DIVERGING_IF_CLOSURE and any(s.closure_diverges(body, o) for o in x['args'][1:]): continue
                    if last in PASS_SAME or last == 'from_residual' or last == 'from_output':
                        if not x['d']['p']: s.track(body, x['d']['l'], what, found, (), None, depth + 1, seen, (optional_from_result or last == 'ok') and last != 'ok_or' and last != 'ok_or_else')
                        continue
                    if last in ('eq', 'ne', 'fmt', 'cmp', 'partial_cmp', 'hash'): continue
                    found.append((body, b, x.get('ln'), what, 'discarded by `%s`' % last))
                # any other callee receives the outcome itself
                elif last in ('drop', 'forget') and foreign:
                    found.append((body, b, x.get('ln'), what, 'dropped'))
            elif kind == 'switch':
                if good_bool is not None:
                    bad = [tb for v, tb in x['vals'] if v != good_bool]
                    if x.get('else') is not None and not any(v != good_bool for v, _ in x['vals']): bad.append(x['else'])
                    for tb in bad: s.bad_arm(body, tb, b, what, found, x, seen)
        if not real:
            found.append((body, None, None, what, 'dropped without being looked at'))
        if not top: return
        # a later look at an outcome whose failure state was already ruled out is harmless
        dom = dominators(body)
        for f in mine:
            if f[1] is not None and any(t != f[1] and t in dom.get(f[1], ()) for t in tested): continue
            outer.append(f)

    def switch_on(s, body, b, dl, what, found, place, badl=()):
        """a match on the outcome whose discriminant was read into dl"""
        for kind, sb, i, x, p, k in s.uses(body, dl):
            if kind != 'switch': continue
            ty = None
            vs = s.variants_of_place(body, place)
            if vs is None: continue
            listed = {}
            for v, tb in x['vals']: listed[vs[v] if v < len(vs) else '?'] = tb
            for v in vs:
                if v in BAD_VARIANT:
                    tb = listed.get(v, x.get('else'))
                    if tb is not None: s.bad_arm(body, tb, sb, what, found, x, badl)
    def variants_of_place(s, body, place):
        t = body.ty(place['l'])
        for e in place['p']:
            if e[0] == 'd' and t.get('k') == 'ref': t = t['t']
            elif e[0] == 'd': return None
        if t.get('k') != 'adt': return None
        return {OPTION: ['None', 'Some'], RESULT: ['Ok', 'Err'], 'core::ops::control_flow::ControlFlow': ['Continue', 'Break']}.get(t['s'])
    def bad_arm(s, body, tb, b, what, found, x, badl=()):
        if body.blocks[tb]['t']['k'] == 'unreachable' and not body.blocks[tb]['s']: return
        tr = s.fail_ret(body, tb, True, badl)
        if tr is not None:
            found.append((body, b, x.get('ln'), what, 'the failure branch continues to a normal return (blocks %s)' % (list(tr)[-6:],)))
