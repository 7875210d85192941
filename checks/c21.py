"""C21: no unsynchronised shared mutable state; all spawned work is joined."""
import re
from engine.mir import *
from .outcome import Tracker
INTERIOR = re.compile(r'core::cell::|std::cell::|sync::atomic|::Atomic[A-Z]|sync::.*(Mutex|RwLock|OnceLock|OnceCell|LazyLock|Condvar)|crossbeam_utils::(atomic|sync)|parking_lot|UnsafeCell')
ALLOWED_STATIC = 'lazy_static::lazy::Lazy'

def walk(t):
    st = [t]
    while st:
        x = st.pop()
        if isinstance(x, dict):
            yield x
            st.extend(x.values())
        elif isinstance(x, list): st.extend(x)

def interior(t):
    return next((x['s'] for x in walk(t) if isinstance(x.get('s'), str) and INTERIOR.search(x['s'])), None)
def has_raw(t):
    return any(x.get('k') == 'ptr' or x.get('k') == 'rawptr' for x in walk(t))

def check(c):
    P = Program(); T = Tracker(P)
    c.rule('No unsafe block, unsafe fn or unsafe impl in the crate\'s own source; no mutable static and no static or task capture with interior mutability; threads start only inside a joining scope whose outcome '
           'is not discarded; values sent through channels are received only after the scope joined.')
    user_unsafe = [u for u in P.d['unsafe_blocks'] if u.get('user') and u['file'].startswith('src/')]
    for u in user_unsafe: c.ob('unsafe block', False, '%s:%s: unsafe block in %s' % (u['file'], u['line'], u['in']), key='C21:unsafe:' + u['in'])
    for b in P.user():
        if b.d.get('unsafe'): c.ob('unsafe fn', False, '%s: unsafe fn %s' % (b.loc(), b.name), key='C21:unsafefn:' + b.name)
    for im in P.impls:
        if im.get('unsafe') and not (im.get('trait') or '').startswith('core::clone::'): c.ob('unsafe impl', False, 'unsafe impl of %s for %s' % (im.get('trait'), im['self'].get('s')), key='C21:unsafeimpl:%s:%s' % (im.get('trait'), im['self'].get('s')))
    c.ob('unsafe scan', True); c.count('bodies scanned for unsafe', len(P.user()))
    for s in P.d['statics']:
        c.ob('static ' + s['def'], not s['mut'] and (s['ty'].get('s') == ALLOWED_STATIC or not interior(s['ty'])), 'static %s is mutable or has interior mutability' % s['def'], key='C21:static:' + s['def'])
    for n, a in P.adts.items():
        if '::tests::' in n: continue
        for v in a['variants']:
            for f in v['f']:
                c.count('fields')
                if interior(f['ty']) and shared_by_tasks(P, n): c.ob('field %s.%s' % (n, f['n']), False, 'shared field %s.%s has interior mutability' % (n, f['n']), key='C21:field:%s.%s' % (n, f['n']))
    spawns = scopes = 0
    for b in P.user():
        if '::tests::' in b.name: continue
        dom = None
        for bb, t in b.calls():
            n = cname(t) or ''
            last = n.split('::')[-1]
            if n.startswith('std::thread::') and last in ('spawn', 'spawn_unchecked') and 'Scope' not in n:
                c.ob('thread in ' + b.name, False, '%s: a thread is started outside a joining scope' % b.loc(t.get('ln')), key='C21:detached:' + b.name)
            if last == 'spawn' and 'Scope' in n:
                spawns += 1
                for o in t['args'][1:]:
                    ty = b.ty(o['p']['l']) if o['k'] in ('copy', 'move') else o.get('ty', {})
                    w = interior(ty)
                    c.ob('captures of task in %s@%d' % (b.name, bb), w is None and not has_raw(ty), '%s: a worker task captures %s' % (b.loc(t.get('ln')), w or 'a raw pointer'), key='C21:capture:' + b.name)
            if n in ('crossbeam_utils::thread::scope', 'crossbeam::scope', 'crossbeam::thread::scope'):
                scopes += 1
                found = []
                T.track(b, t['d']['l'], n, found)
                c.ob('scope outcome in ' + b.name, not found, '%s: the outcome of the joined tasks is lost: %s' % (b.loc(t.get('ln')), found and found[0][4]), key='C21:scope:' + b.name)
            if 'CpuPool' in n and last in ('spawn', 'spawn_fn'):
                # the future must leave the function (its owner polls or drops it)
                c.ob('pool task in ' + b.name, reaches_return(b, t['d']['l']), '%s: a pool task is started and its future does not reach the caller' % b.loc(t.get('ln')), key='C21:pool:' + b.name)
            if last == 'compute' and 'Worker' in n:
                c.ob('pool task in ' + b.name, any(k == 'arg' and (cname(x) or '').split('::')[-1] == 'wait' for k, _, _, x, _, _ in T.uses(b, t['d']['l'])), '%s: a pool task is not waited for' % b.loc(t.get('ln')), key='C21:compute:' + b.name)
            if 'channel' in n and last in ('recv', 'try_recv', 'recv_timeout', 'iter', 'try_iter', 'is_empty', 'into_iter'):
                dom = dominators(b)
                js = [x for x, y in b.calls() if (cname(y) or '').endswith('Worker::scope') or (cname(y) or '').endswith('thread::scope')]
                c.ob('receive in %s@%d' % (b.name, bb), any(j in dom[bb] and j != bb for j in js), '%s: a channel is read before the tasks feeding it were joined' % b.loc(t.get('ln')), key='C21:recv:' + b.name)
    # the scope wrapper hands its closure to the joining scope
    w = P.one('crate::fft::multicore::Worker::scope')
    c.ob('Worker::scope joins', any((cname(t) or '').endswith('thread::scope') or (cname(t) or '').endswith('crossbeam::scope') for _, t in w.calls()), 'Worker::scope no longer runs its tasks inside a joining scope', key='C21:worker-scope')
    c.floor('spawned tasks', spawns, 50)
    c.floor('joining scopes', scopes, 1)

def shared_by_tasks(P, adt):
    """some task captures (a reference to) this type"""
    for b in P.user():
        for bb, t in b.calls():
            n = cname(t) or ''
            if n.split('::')[-1] in ('spawn', 'spawn_fn'):
                for o in t['args'][1:]:
                    if o['k'] in ('copy', 'move') and any(x.get('s') == adt for x in walk(b.ty(o['p']['l']))): return True
    return False

def reaches_return(b, l):
    """value flows by moves and aggregates into the return place"""
    live = {l}
    ch = True
    while ch:
        ch = False
        for bb in b.reach():
            for s in b.blocks[bb]['s']:
                if s['k'] == 'asg' and s['p']['l'] not in live and any(p['l'] in live for o in rv_operands(s['r']) for p, _ in op_places(o)):
                    live.add(s['p']['l']); ch = True
    return 0 in live
