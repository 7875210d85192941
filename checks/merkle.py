"""The hash tree: its operations in closed form, and what they have to be."""
from .hashes import *
TREE = 'crate::<iop::blake2s_trivial_iop::Blake2sIopTree<F> as iop::IopTree<F>>::'
IOPF = 'crate::<iop::blake2s_trivial_iop::TrivialBlake2sIOP<F> as iop::IOP<F>>::'
QRY = 'crate::<iop::blake2s_trivial_iop::TrivialBlake2sIopQuery<F> as iop::IopQuery<F>>::'
HASHER = 'crate::<iop::blake2s_trivial_iop::Blake2sTreeHasher<F> as iop::IopTreeHasher<F>>::'
def HL(v): return mk('app', 'HL', (v,))
def HN(a, b): return mk('app', 'HN', (a, b))
def tree_models():
    def leaf(ex, a, st, t): return HL(ex.full(st, a[0]))
    def node(ex, a, st, t):
        x = ex.full(st, a[0]); return HN(get(x, ZERO), get(x, ONE))
    return {HASHER + 'hash_leaf': leaf, HASHER + 'hash_node': node, 'crate::iop::IopTreeHasher::hash_leaf': leaf, 'crate::iop::IopTreeHasher::hash_node': node}
M_ = sym('m')                       # half the number of leaves, a power of two
N_ = mul(TWO, M_)
def leafs(): return vec('leafs', N_)
def nodes(base=None):
    """node i hashes nodes 2i and 2i+1, the lowest level hashes pairs of leaf hashes"""
    if base is None: base = tab(N_, lambda i: tab(num(32), lambda j: ZERO))
    v, k, i = fresh('tree'), fresh('k'), fresh('i')
    leaf = lambda k: HL(get(leafs(), sub(k, N_)))
    bottom = mk('rstore', base, M_, M_, close(i, HN(leaf(mul(TWO, i)), leaf(add(mul(TWO, i), ONE)))))
    return mk('wf', bottom, ONE, M_, close(v, close(k, HN(get(v, mul(TWO, k)), get(v, add(mul(TWO, k), ONE))))))
def base_of(t):
    """what the cells hold that are never written"""
    return t.args[0].args[0] if t.op == 'wf' and t.args[0].op == 'rstore' else None
def half(x, l): return idiv(x, power(TWO, l))
def flip(x): return add(sub(x, ONE), mul(TWO, mk('ind', eq(imod(x, TWO), ZERO))))     # x xor 1
def path_of(T, idx):
    """hash of the neighbouring leaf, then of the neighbour of every node above it"""
    return concat(lit(HL(get(leafs(), flip(idx)))), tab(log2(M_), lambda l: get(T, add(idiv(M_, power(TWO, l)), flip(half(idx, add(l, ONE)))))))
def arg(K, name, k):
    b = K.body(name)
    return b.locals[k].get('n') or 'arg%d' % k
def fold(leaf, path, d, idx):
    """verification: the hash of the leaf combined with the path on the side given by the bits of the index"""
    l, h = fresh('l'), fresh('h')
    e = get(path, l)
    step = mkite(eq(imod(half(idx, l), TWO), ZERO), HN(h, e), HN(e, h))
    return mk('rec', ZERO, d, (HL(leaf),), close(l, close(h, step)))
def verification(c, K):
    """verification is the fold of the path, applied to what the opening reports"""
    idx = sym('index')
    root, leaf, d = sym('root'), sym('leaf'), sym('d')
    K.fn(TREE + 'verify', {arg(K, TREE + 'verify', 1): root, arg(K, TREE + 'verify', 2): leaf, arg(K, TREE + 'verify', 3): lambda: vec('path', d), arg(K, TREE + 'verify', 4): idx}, ret=lambda: eq(fold(leaf, vec('path', d), d, idx), root), ints=(idx, d))
    q = sym('opening')
    try:
        b = K.body(IOPF + 'verify_query')
        Q = 'crate::iop::blake2s_trivial_iop::TrivialBlake2sIopQuery'
        Kq = Compare(c, P=K.P, opaque={TREE + 'verify': lambda ex, a, st, t: mk('app', 'VERIFY', tuple(ex.full(st, x) for x in a))})
        q = lambda: agg(Q, '', [(f, {'index': idx, 'value': leaf, 'path': vec('path', d)}.get(f)) for f in ('index', 'value', 'path')])
        r, m, ex = Kq.value(IOPF + 'verify_query', {b.locals[1].get('n'): q, b.locals[2].get('n'): root}, ints=(idx, d))
        Kq.inputs.add('VERIFY')
        Kq.same('an opening is verified with its own value, path and position', r, mk('app', 'VERIFY', (root, leaf, vec('path', d), idx)))
        K.undecided += Kq.undecided
    except (Unsupported, KeyError, AttributeError) as e: c.undecided('verify_query', str(e)[:300]); K.undecided += 1
