"""C08: Merkle commitments open: create, path and verify agree at every index."""
from .merkle import *
from engine import evalt

def check(c):
    c.rule('Blake2sIopTree::create, get_root, get_path and verify, and the oracle operations built on them, are brought into closed form for a symbolic power-of-two number of leaves, index and chunk size, hash functions opaque. The node array must be the heap '
           'T[i] = H(T[2i], T[2i+1]) over the leaf hashes, the root T[1], the path of an index the leaf and node next to it on every level, and verification the fold of the path on the side given by the index bits.')
    c.assume('the number of leaves is a power of two and at least two; the index is below it', 'hash_leaf and hash_node hash their complete input, left before right (C10)')
    K = Compare(c, opaque=tree_models())
    Y = dict(pow2=(M_,), ints=(M_, sym('index')))
    idx = sym('index')
    low = lambda: [NOT(lt0(idx)), lt(idx, N_)]
    tree = None
    try:
        a = arg(K, TREE + 'create', 1)
        tree, _, ex = K.value(TREE + 'create', {a: leafs}, **Y)
        if tree is None: c.ob('create returns', False, 'create never returns for a power-of-two number of leaves')
    except Unsupported as e: c.undecided('create', str(e)[:300]); K.undecided += 1
    if tree is not None:
        arrays = [x for _, x in tree.args[2]] if tree.op == 'agg' else []
        base = next((b for b in map(base_of, arrays) if b is not None), None)
        T = nodes(base)
        def on(name, ps, want, what):
            try:
                r, m, ex = K.value(name, ps(K.body(name)), facts=low(), **Y)
            except Unsupported as e: c.undecided(what, str(e)[:300]); K.undecided += 1; return None
            if r is None: c.ob(what, False, '%s never returns' % name); return None
            K.same(what, r, want(), where='%s:%s: ' % (K.body(name).file, K.body(name).line)); return r
        P = lambda *vs: lambda b: {b.locals[i + 1].get('n') or 'arg%d' % (i + 1): v for i, v in enumerate(vs)}
        T = nodes(base)
        on(TREE + 'get_root', P(tree), lambda: get(nodes(base), ONE), 'the root is the top of the heap over the leaf hashes')
        on(TREE + 'get_path', P(tree, idx, leafs), lambda: path_of(nodes(base), idx), 'the path lists the sibling on every level')
        iop = None
        try:
            iop, _, _ = K.value(IOPF + 'create', P(leafs)(K.body(IOPF + 'create')), **Y)
        except Unsupported as e: c.undecided('IOP create', str(e)[:300]); K.undecided += 1
        if iop is not None:
            on(IOPF + 'get_root', P(iop), lambda: get(nodes(base), ONE), 'the root of the oracle is the root of its tree')
            q = None
            try: q, _, _ = K.value(IOPF + 'query', P(iop, idx, leafs)(K.body(IOPF + 'query')), facts=low(), **Y)
            except Unsupported as e: c.undecided('query', str(e)[:300]); K.undecided += 1
            if q is not None:
                for f, want, what in (('value', lambda: get(leafs(), idx), 'an opening carries the leaf at the requested position'), ('natural_index', lambda: idx, 'an opening carries its natural position'),
                                      ('tree_index', lambda: idx, 'an opening carries its position in the tree'), ('path', lambda: path_of(nodes(base), idx), 'an opening carries the path of its position')):
                    on(QRY + f, P(q), want, what)
    verification(c, K)
    lemma(c)
    c.floor('value equations', c.counts.get('value equations', 0), 9 if not K.undecided else 0)
def lemma(c):
    """the three definitions agree: evaluated (as formulas) for sizes 2..32 at every index"""
    n = 0; idx = sym('index')
    path = path_of(nodes(), idx)
    holds = AND(eq(fold(get(leafs(), idx), path, length(path), idx), get(nodes(), ONE)), eq(length(path), log2(N_)))
    for h in range(5):
        for i in range(2 << h):
            if not evalt.Ev({M_: 1 << h, idx: i}, {M_, idx}, 7, 2).bool(holds): c.ob('lemma', False, 'the definitions of tree, path and verification disagree at size %d, index %d' % (2 << h, i)); return
            n += 1
    c.ob('lemma: tree, path and verification as defined agree', True, sample='%d openings of trees with 2 to 32 leaves' % n)
