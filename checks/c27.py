"""C27: trace registers keep their identity when turned into an instance."""
from .instance import *
from contextlib import ExitStack

KINDS = ('ProgramCounter', 'Register', 'Constant', 'Aux')
LISTS = {'ProgramCounter': ('pc_registers', 'n_pc'), 'Register': ('registers', 'n_reg'), 'Constant': ('constant_registers', 'n_const'), 'Aux': ('aux_registers', 'n_aux')}
ROWS = add(sym('last_row'), ONE)
def pick(kind, of):
    """of(k) for the kind of register given by the number kind"""
    r = of(KINDS[3])
    for k in (2, 1, 0): r = mkite(eq(kind, num(k)), of(KINDS[k]), r)
    return r
class System(Raw):
    """a trace system's description, registers of every kind; with map: the description with registers rewritten"""
    def __init__(s, P, map_=None): super().__init__(P); s.map = map_
    def reg(s, tag, *i):
        k, x = at(tag + '_kind', *i), at(tag + '_idx', *i)
        return pick(k, lambda v: agg(A_ + 'Register', v, [('0', x)]) if s.map is None else Reg(s.map(v, x)))
    def put(s, a, r): return agg(a.args[0], a.args[1], [(f, r if f == 'register' else v) for f, v in a.args[2]])
    def uni(s, tag, *i): return s.put(super().uni(tag, *i), s.reg(tag, *i))
    def bc(s, i): return s.put(super().bc(i), s.reg('bc', i))
    def constraints(s): return tab(NC, s.raw)
    def boundary(s): return tab(NBC, s.bc)
def column(v, x): return tab(ROWS, lambda r: at('w_' + v, x, r))
def check(c):
    c.rule('The conversion of a trace system into an instance is brought into closed form for any number of registers of each kind, any constraints and boundary constraints over them and any witness. The mapping of registers to columns is read off the converted boundary '
           'constraints; every term must be rewritten by the same mapping and left unchanged otherwise; the witness column at the image of a register must be that register\'s column; the reported numbers of registers and rows must be those of the columns.')
    c.assume('Every register has a witness column with a value for every row (asserted by the conversion, up to empty columns)')
    K = Compare(c); P = K.P
    l = [n for n in P.bodies if n.endswith('::into_arp') and 'TestTraceSystem' in n]
    if len(l) != 1: c.undecided('into_arp', '%d functions' % len(l)); return
    S_ = System(P)
    def system():
        d = dict(constraints=S_.constraints(), boundary_constraints=S_.boundary(), current_step=sub(ROWS, ONE))
        for v, (f, n) in LISTS.items():
            d[f] = vec('name_' + v, sym(n)); d[f + '_witness'] = tab(sym(n), lambda x, v=v: column(v, x))
        return struct(P, A_ + 'test_trace_system::TestTraceSystem', **d)
    b = P.bodies[l[0]]; where_ = '%s:%s: ' % (b.file, b.line)
    try: r, m, ex = K.value(l[0], {b.locals[1].get('n') or 'arg1': system}, ints=tuple(sym(n) for _, n in LISTS.values()))
    except Unsupported as e: c.undecided('into_arp', str(e)[:300]); return
    if r is None: c.ob('into_arp returns', False, where_ + 'the conversion never returns'); return
    every = lambda t: FALSE if t is eq0(ROWS) else t.args[0] if t.op == 'cnt' and t.args[1].args[-1] is TRUE else None
    for _ in 'ab': r = transform(r, every)          # every column has rows
    wit, props = fld(r, '0'), fld(r, '1')
    total = ZERO
    for _, n in LISTS.values(): total = add(total, sym(n))
    # the mapping
    j, x = fresh('j'), sym('x')
    BOUND[j] = NBC
    got = get(fld(props, 'boundary_constraints'), j)
    col = {}
    reg = fld(got, 'register')
    for k, v in enumerate(KINDS):
        e = fld(replace(reg, {at('bc_kind', j): num(k), at('bc_idx', j): x}), '0', 'Register')
        if j in e.fs or any(y.op == 'app' for y in subterms(e)): c.undecided('mapping of registers', show(e)[:200]); return
        col[v] = e
    map_ = lambda v, i: replace(col[v], {x: i})
    c.count('register kinds', len(KINDS))
    K.given = [lt(ZERO, total)]
    K.ctx = dict(facts=(), pow2=(), ints=tuple(sym(n) for _, n in LISTS.values()) + (x,))
    T = System(P, map_)
    K.same('every boundary constraint is rewritten with one mapping', fld(props, 'boundary_constraints'), T.boundary(), where=where_)
    K.same('every constraint term is rewritten with the mapping of the boundary constraints', fld(props, 'constraints'), T.constraints(), where=where_)
    K.same('the number of registers is that of the columns', fld(props, 'num_registers'), total, where=where_)
    K.same('the number of rows is that of the columns', fld(props, 'num_rows'), ROWS, where=where_)
    w = fld(wit, '0', 'Some') if wit.op != 'ite' else None
    if wit.op == 'ite':
        for y in wit.args[1:]:
            if y.op == 'agg' and y.args[1] == 'Some': w = fld(y, '0', 'Some')
    if w is None: c.undecided('witness', show(wit)[:200]); return
    K.holds('a witness is returned when there are registers', OR(eq0(total), isvar(wit, OPT, 'Some')), where=where_)
    K.same('as many columns as registers', length(w), total, where=where_)
    for v, (f, n) in LISTS.items():
        K.given = [lt(x, sym(n))]
        with ExitStack() as es:
            es.enter_context(seqs.given(lt(x, sym(n))))
            K.same('the column of a register of kind %s is its witness' % v, get(w, col[v]), column(v, x), where=where_)
    c.floor('value equations', c.counts.get('value equations', 0), 9)
