"""C15: prover and verifier derive the same protocol data from an instance."""
from .instance import *

FIELDS = [('instance properties', 'properties', 'instance'), ('maximum constraint power', 'max_constraint_power', 'max_constraint_power'), ('trace domain', 'column_domain', 'column_domain'),
          ('composition domain', 'constraints_domain', 'constraints_domain'), ('masks', 'all_masks', 'all_masks'),
          ('constraints by density', 'constraints_batched_by_density', 'constraints_batched_by_density')]
def stored(c, K):
    P = K.P
    l = [n for n in P.bodies if n.endswith('PerRegisterARP>::new') and '::prover::' in n or n.endswith('Prover::<F, T, I, P, PR, FRI, arp::PerRegisterARP>::new')]
    if len(set(l)) != 1: raise Unsupported('%d constructors of the prover' % len(l))
    b = P.bodies[l[0]]; A = [x.get('n') or 'arg%d' % i for i, x in enumerate(b.locals) if 1 <= i <= b.argc]
    A0 = lambda a: mk('app', 'ARP of', (a,)); L0 = lambda a: mk('app', 'ALI of', (a,))
    may = lambda nm, f: lambda ex, a, st, t: mkite(mk('app', nm + ' fails', (ex.full(st, a[0]),)), err(E), ok(f(ex.full(st, a[0]))))
    h = {n: may('ARP', A0) for n in P.bodies if n.endswith(ARP_FROM)}
    h.update({n: may('ALI', L0) for n in P.bodies if n.endswith('::from_arp')})
    d = sym('instance'); a = A0(d)
    r, m, ex = K.value(l[0], {A[0]: d, A[1]: FAC, A[2]: sym('fri_final')}, opaque=h, ints=())
    where = '%s:%s: ' % (b.file, b.line)
    K.given = []
    good = AND(NOT(mk('app', 'ARP fails', (d,))), NOT(mk('app', 'ALI fails', (a,))))
    K.same('Prover::new fails exactly if preprocessing fails', isvar(r, 'core::result::Result', 'Ok'), good, key='prover preprocessing', where=where)
    v = fld(r, '0', 'Ok')
    for f, x in (('arp', a), ('ali', L0(a)), ('lde_factor', FAC), ('fri_final_degree_plus_one', sym('fri_final'))):
        K.same('Prover::new stores %s' % f, fld(v, f), x, key='prover field %s' % f, where=where)
KEYS = ['crate::air::Register', 'crate::air::constraint::StepDifference', 'crate::ali::MaskProperties', 'crate::air::ConstraintDensity', 'crate::air::DenseConstraint']
COPIED = KEYS + ['crate::air::constraint::' + x for x in ('Constraint', 'ConstraintTerm', 'UnivariateTerm', 'PolyvariateTerm', 'BoundaryConstraint')] + ['crate::arp::InstanceProperties']
def faithful(c, K):
    P = K.P; K.given = []
    def discriminant(ex, a, st, t):
        x = ex.full(st, a[0])
        if x.op == 'agg' and x.args[0] in P.adts: return num([v['n'] for v in P.adts[x.args[0]]['variants']].index(x.args[1]))
        return mk('app', 'discriminant', (x,))
    h = {'core::intrinsics::discriminant_value': discriminant}
    def values(T, tag):
        d = P.adts[T]
        for v in d['variants']:
            yield v['n'], agg(T, '' if d['kind'] == 'Struct' else v['n'], [(f['n'], sym('%s %s' % (tag, f['n']))) for f in v['f']])
    for T in COPIED:
        if T not in P.adts: c.undecided(T, 'the type is gone'); continue
        l = [n for n in P.bodies if n.startswith('crate::<' + T[7:]) and n[8 + len(T) - 7:][:1] in ('<', ' ')]
        b = lambda suf: next((n for n in l if n.endswith(suf)), None)
        n = b(' as core::clone::Clone>::clone')
        for v, x in values(T, 'x') if n else ():
            A = P.bodies[n].locals[1].get('n') or 'arg1'
            try: r, _, ex = K.value(n, {A: x})
            except Unsupported as e: c.undecided('copy of %s' % T, str(e)[:200]); continue
            K.same('copy of %s%s' % (T, '' if v == T.split('::')[-1] else '::' + v), r, x, key='copy %s' % T)
        n = b(' as core::cmp::PartialEq>::eq') if T in KEYS else None
        for v, x in values(T, 'x') if n else ():
            for u, y in values(T, 'y'):
                A = [z.get('n') or 'arg%d' % i for i, z in enumerate(P.bodies[n].locals) if 1 <= i <= 2]
                try: r, _, ex = K.value(n, {A[0]: x, A[1]: y}, opaque=h)
                except Unsupported as e: c.undecided('comparison of %s' % T, str(e)[:200]); continue
                want = FALSE if u != v else TRUE
                for (_, p), (_, q) in zip(x.args[2], y.args[2]) if u == v else (): want = AND(want, eq0(sub(p, q)))
                K.same('%s are equal exactly if all fields are (%s, %s)' % (T, v, u), r, want, key='comparison %s' % T)
def check(c):
    c.rule('ARPInstance::from_instance followed by ALIInstance::from_arp (the prover) and Verifier::new are brought into closed form on one symbolic instance description: any number of constraints, terms of both kinds, factors, '
           'step differences, densities and boundary constraints. The derived data of both sides must have the same normal form; and the mask of every term, factor and boundary constraint must be a member of the mask set.')
    c.assume('Register descriptions are plain registers and densities are dense (other descriptions are refused: C19)', 'IndexMap and IndexSet keep insertion order (indexmap)')
    K = Compare(c)
    try: p = Prep(K)
    except Unsupported as e: c.undecided('preprocessing', str(e)[:300]); K.undecided += 1; return
    for what, a, v in FIELDS:
        try: x, y = fld(p.ali, a), fld(p.ver, v)
        except Unsupported as e: c.undecided(what, str(e)[:200]); continue
        K.same('%s of prover and verifier' % what, y, x, key='derived:' + what)
    # the prover keeps what preprocessing returned
    try: stored(c, K)
    except Unsupported as e: c.undecided('Prover::new', str(e)[:300])
    # the keys of the sets and maps are compared, and the description is copied, field by field
    faithful(c, K)
    # every register/step pair is a mask
    for side, val in (('prover', p.ali), ('verifier', p.ver)):
        ms = fld(val, 'all_masks'); cs = fld(fld(val, 'properties' if side == 'prover' else 'instance'), 'constraints')
        MP = 'crate::ali::MaskProperties'; M = lambda t: struct(p.P, MP, register=fld(t, 'register'), steps_difference=fld(t, 'steps_difference'))
        gen = root_of(npow2(sym('num_rows')))
        uni = lambda tag, *i: struct(p.P, MP, register=Reg(at(tag + '_reg', *i)), steps_difference=Mask(power(gen, at(tag + '_steps', *i))))
        univ = forall(NC, lambda j: forall(at('num_terms', j), lambda k: OR(NOT(eq0(at('kind', j, k))), MD.setmem(ms, uni('uni', j, k)))))
        facs = forall(NC, lambda j: forall(at('num_terms', j), lambda k: OR(eq0(at('kind', j, k)), forall(at('num_factors', j, k), lambda q: MD.setmem(ms, uni('fac', j, k, q))))))
        bcs = forall(NBC, lambda i: MD.setmem(ms, struct(p.P, MP, register=Reg(at('bc_reg', i)), steps_difference=Mask(ONE))))
        for what, f in (('univariate terms', univ), ('factors of products', facs), ('boundary constraints', bcs)):
            K.holds('%s: the masks of all %s are listed' % (side, what), f, key='masks:%s:%s' % (side, what))
    c.floor('value equations', c.counts.get('value equations', 0) + c.counts.get('conditions', 0), 12 if not K.undecided else 0)
