"""Entailment between quantified conditions: a refutation by witnesses and instantiation.

holds(f) shows that f is true for all values of its inputs: the negation is taken apart, existential parts get fresh witnesses,
universal parts are instantiated at the witnesses that have the same range, and every fact simplifies the others."""
from fractions import Fraction
from engine.engine import *
from engine import seqs, terms
from engine.seqs import many
from engine.fields import norm

LIMIT = 3000
class Budget(Exception): pass
def refute(facts, ranges=None, depth=0, fuel=None):
    """True when the facts cannot hold together"""
    fuel = fuel if fuel is not None else [LIMIT]
    ranges = dict(ranges or {}); todo = list(facts); known = []; univ = []; disj = []
    used = set()
    def simp(f):
        if not known: return f
        d = {x: (TRUE if v else FALSE) for x, v in known}
        return assume(transform(f, d.get), tuple(known))
    def add_lit(f, val): known.append((f, val))
    while True:
        fuel[0] -= 1
        if fuel[0] < 0: return False
        while todo:
            fuel[0] -= 1
            if fuel[0] < 0: return False
            f = simp_cond(simp(todo.pop()))
            if f is TRUE: continue
            if f is FALSE: return True
            if f.op == 'and': todo.extend(f.args[0]); continue
            if f.op == 'any':
                v, b = terms.open_lam(f.args[1], tuple(x for x, _ in known), f.args[0])
                w = fresh('w'); BOUND[w] = f.args[0]; ranges[w] = f.args[0]
                todo.append(subst(b, {v: w}))
                continue
            if f.op == 'not':
                g = f.args[0]
                if g.op == 'any':
                    if f not in univ: univ.append(f)
                    continue
                if g.op in ('and', 'ite'):
                    if f not in disj: disj.append(f)
                    continue
                add_lit(g, False)
            elif f.op == 'ite':
                if f not in disj: disj.append(f)
                continue
            else:
                add_lit(f, True)
                s_ = equation(f)
                if s_:
                    m = {s_[0]: s_[1]}
                    known[:] = [(subst(x, m), v) for x, v in known if x is not f]
                    todo += [(subst(x, m) if v else NOT(subst(x, m))) for x, v in known]; known.clear()
                    univ[:] = [subst(x, m) for x in univ]; disj[:] = [subst(x, m) for x in disj]; todo = [subst(x, m) for x in todo]
                    if s_[0] in ranges: todo += [lt0(sub(s_[1], subst(ranges[s_[0]], m))), NOT(lt0(s_[1]))]
                    ranges = {subst(x, m): subst(y, m) for x, y in ranges.items()}
            # a new literal: look again at what was simplified before
            todo += disj; disj = []
        # instantiate
        new = []
        for u in univ:
            n, l = u.args[0].args
            n2 = simp(n)
            for w, r in list(ranges.items()):
                if (u, w) in used: continue
                if not (r is n2 or norm(sub(r, n2)) is ZERO): continue
                used.add((u, w))
                v, b = terms.open_lam(l, (w,), n)
                new.append(NOT(subst(b, {v: w})))
        if new: todo = new + disj; disj = []; continue
        if disj and depth < 6:
            # case split on the smallest disjunction
            f = min(disj, key=lambda d: len(subterms(d)))
            rest = [d for d in disj if d is not f]
            base = [x if v else NOT(x) for x, v in known] + univ + rest
            if f.op == 'ite': cases = [[f.args[0], f.args[1]], [NOT(f.args[0]), f.args[2]]]
            elif f.args[0].op == 'ite': g = f.args[0]; cases = [[g.args[0], NOT(g.args[1])], [NOT(g.args[0]), NOT(g.args[2])]]
            else: cases = [[NOT(x)] for x in f.args[0].args[0]]
            return all(refute(base + cs, ranges, depth + 1, fuel) for cs in cases)
        return linear(known)
def linear(known):
    """the order facts among these literals have no solution (Fourier-Motzkin; only facts that follow from integer order are used)"""
    rows = set()
    for f, v in known:
        if f.op == 'lt0':
            p = terms.poly(f.args[0])
            if any(c.denominator != 1 for c in map(Fraction, p.values())): continue
            k = p.get((), 0)
            r = {m: Fraction(c) for m, c in p.items() if m != ()}
            row = (r, Fraction(k) + 1) if v else ({m: -c for m, c in r.items()}, -Fraction(k))       # r + k <= 0
            rows.add((frozenset(row[0].items()), row[1]))
    for a in {x for r, _ in rows for m, _ in r for x, e in m if x.op in ('max', 'min')}:
        for x in a.args[0]:
            p = terms.poly(sub(x, a) if a.op == 'max' else sub(a, x))
            rows.add((frozenset((m, Fraction(c)) for m, c in p.items() if m != ()), Fraction(p.get((), 0))))
    for _ in range(12):
        if any(not r and k > 0 for r, k in rows): return True
        vs = {}
        for r, k in rows:
            for m, c in r: vs.setdefault(m, [0, 0])[c > 0] += 1
        if not vs: return False
        m = min(vs, key=lambda m: (vs[m][0] * vs[m][1] - sum(vs[m]), str(m)))
        pos = [(dict(r), k) for r, k in rows if dict(r).get(m, 0) > 0]; neg_ = [(dict(r), k) for r, k in rows if dict(r).get(m, 0) < 0]
        rows = {(r, k) for r, k in rows if m not in dict(r)}
        for a, ka in pos:
            for b, kb in neg_:
                x, y = -b[m], a[m]
                q = {z: a.get(z, 0) * x + b.get(z, 0) * y for z in set(a) | set(b)}
                rows.add((frozenset((z, c) for z, c in q.items() if c), ka * x + kb * y))
        if len(rows) > 400: return False
    return False
def equation(f):
    """x = y for a witness x"""
    if f.op != 'eq0': return None
    p = terms.poly(f.args[0])
    for m, c in p.items():
        if len(m) == 1 and m[0][1] == 1 and abs(c) == 1 and m[0][0].op == 'var':
            x = m[0][0]; rest = sub(x, mul(num(1 / c if c in (1, -1) else c), f.args[0])) if True else None
            if x not in rest.fs: return x, rest
    return None
def holds(f):
    f = norm(f)
    if f is TRUE: return True
    if f is FALSE: return False
    try: return refute([NOT(f)])
    except (Unsupported, RecursionError): return False
