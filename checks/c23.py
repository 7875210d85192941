"""C23: value form and coefficient form cannot be confused (compile-fail witnesses with compiling twins, plus a
flow rule on the constructors)."""
import glob, os, re, subprocess, tempfile, shutil
from concurrent.futures import ThreadPoolExecutor
from engine.mir import *
from engine import extract
POLY = 'crate::polynomials::Polynomial'

PRE = '''#![allow(unused, dead_code, unreachable_code)]
extern crate ff; extern crate hodor;
use ff::PrimeField; use hodor::polynomials::*;
type C<F> = Polynomial<F, Coefficients>; type V<F> = Polynomial<F, Values>;
'''
# (name, expected error code, parameters, offending line, legal line); the worker type is not nameable outside the crate, so todo!() stands in
def w(name, code, params, bad, good): return (name, code, params, bad, good)
W = [
 w('fft-on-values', 'E0599', 'v: V<F>, c: C<F>', 'let _ = v.fft(todo!());', 'let _ = c.fft(todo!());'),
 w('coset-fft-on-values', 'E0599', 'v: V<F>, c: C<F>', 'let _ = v.coset_fft(todo!());', 'let _ = c.coset_fft(todo!());'),
 w('coset-fft-for-generator-on-values', 'E0599', 'v: V<F>, c: C<F>, g: F', 'let _ = v.coset_fft_for_generator(todo!(), g);', 'let _ = c.coset_fft_for_generator(todo!(), g);'),
 w('ifft-on-coefficients', 'E0599', 'v: V<F>, c: C<F>', 'let _ = c.ifft(todo!());', 'let _ = v.ifft(todo!());'),
 w('icoset-fft-on-coefficients', 'E0599', 'v: V<F>, c: C<F>', 'let _ = c.icoset_fft(todo!());', 'let _ = v.icoset_fft(todo!());'),
 w('icoset-fft-for-generator-on-coefficients', 'E0599', 'v: V<F>, c: C<F>, g: F', 'let _ = c.icoset_fft_for_generator(todo!(), g);', 'let _ = v.icoset_fft_for_generator(todo!(), g);'),
 w('lde-on-values', 'E0599', 'v: V<F>, c: C<F>', 'let _ = v.lde(todo!(), 4);', 'let _ = c.lde(todo!(), 4);'),
 w('coset-lde-on-values', 'E0599', 'v: V<F>, c: C<F>', 'let _ = v.coset_lde(todo!(), 4);', 'let _ = c.coset_lde(todo!(), 4);'),
 w('evaluate-at-on-values', 'E0599', 'v: V<F>, c: C<F>, z: F', 'let _ = v.evaluate_at(todo!(), z);', 'let _ = c.evaluate_at(todo!(), z);'),
 w('mul-on-coefficients', 'E0599', 'mut v: V<F>, mut c: C<F>, o: V<F>', 'c.mul_assign(todo!(), &o);', 'v.mul_assign(todo!(), &o);'),
 w('pow-on-coefficients', 'E0599', 'mut v: V<F>, mut c: C<F>', 'c.pow(todo!(), 2);', 'v.pow(todo!(), 2);'),
 w('square-on-coefficients', 'E0599', 'mut v: V<F>, mut c: C<F>', 'c.square(todo!());', 'v.square(todo!());'),
 w('add-constant-on-coefficients', 'E0599', 'mut v: V<F>, mut c: C<F>, k: F', 'c.add_constant(todo!(), &k);', 'v.add_constant(todo!(), &k);'),
 w('batch-inversion-on-coefficients', 'E0599', 'mut v: V<F>, mut c: C<F>', 'let _ = c.batch_inversion(todo!());', 'let _ = v.batch_inversion(todo!());'),
 w('add-values-to-coefficients', 'E0308', 'v: V<F>, mut c: C<F>, d: C<F>', 'c.add_assign(todo!(), &v);', 'c.add_assign(todo!(), &d);'),
 w('add-coefficients-to-values', 'E0308', 'mut v: V<F>, c: C<F>, d: V<F>', 'v.add_assign(todo!(), &c);', 'v.add_assign(todo!(), &d);'),
 w('sub-values-from-coefficients', 'E0308', 'v: V<F>, mut c: C<F>, d: C<F>', 'c.sub_assign(todo!(), &v);', 'c.sub_assign(todo!(), &d);'),
 w('sub-coefficients-from-values', 'E0308', 'mut v: V<F>, c: C<F>, d: V<F>', 'v.sub_assign(todo!(), &c);', 'v.sub_assign(todo!(), &d);'),
 w('scaled-add-values-to-coefficients', 'E0308', 'v: V<F>, mut c: C<F>, d: C<F>, k: F', 'c.add_assign_scaled(todo!(), &v, &k);', 'c.add_assign_scaled(todo!(), &d, &k);'),
 w('scaled-add-coefficients-to-values', 'E0308', 'mut v: V<F>, c: C<F>, d: V<F>, k: F', 'v.add_assign_scaled(todo!(), &c, &k);', 'v.add_assign_scaled(todo!(), &d, &k);'),
 w('mul-values-by-coefficients', 'E0308', 'mut v: V<F>, c: C<F>, d: V<F>', 'v.mul_assign(todo!(), &c);', 'v.mul_assign(todo!(), &d);'),
 w('assign-values-to-coefficients', 'E0308', 'v: V<F>, d: C<F>, mut c: C<F>', 'c = v;', 'c = d;'),
 w('assign-coefficients-to-values', 'E0308', 'c: C<F>, d: V<F>, mut v: V<F>', 'v = c;', 'v = d;'),
 w('fft-result-is-values', 'E0308', 'c: C<F>', 'let _: C<F> = c.fft(todo!());', 'let _: V<F> = c.fft(todo!());'),
 w('coset-fft-result-is-values', 'E0308', 'c: C<F>', 'let _: C<F> = c.coset_fft(todo!());', 'let _: V<F> = c.coset_fft(todo!());'),
 w('ifft-result-is-coefficients', 'E0308', 'v: V<F>', 'let _: V<F> = v.ifft(todo!());', 'let _: C<F> = v.ifft(todo!());'),
 w('icoset-fft-result-is-coefficients', 'E0308', 'v: V<F>', 'let _: V<F> = v.icoset_fft(todo!());', 'let _: C<F> = v.icoset_fft(todo!());'),
 w('lde-result-is-values', 'E0308', 'c: C<F>', 'let _: C<F> = c.lde(todo!(), 4).unwrap();', 'let _: V<F> = c.lde(todo!(), 4).unwrap();'),
 w('coset-lde-result-is-values', 'E0308', 'c: C<F>', 'let _: C<F> = c.coset_lde(todo!(), 4).unwrap();', 'let _: V<F> = c.coset_lde(todo!(), 4).unwrap();'),
 w('from-coeffs-is-coefficients', 'E0308', 'a: Vec<F>', 'let _: V<F> = Polynomial::<F, Coefficients>::from_coeffs(a).unwrap();', 'let _: C<F> = Polynomial::<F, Coefficients>::from_coeffs(a).unwrap();'),
 w('from-values-is-values', 'E0308', 'a: Vec<F>', 'let _: C<F> = Polynomial::<F, Values>::from_values(a).unwrap();', 'let _: V<F> = Polynomial::<F, Values>::from_values(a).unwrap();'),
 w('no-from-coeffs-for-values', 'E0599', 'a: Vec<F>', 'let _ = Polynomial::<F, Values>::from_coeffs(a);', 'let _ = Polynomial::<F, Coefficients>::from_coeffs(a);'),
 w('no-from-values-for-coefficients', 'E0599', 'a: Vec<F>', 'let _ = Polynomial::<F, Coefficients>::from_values(a);', 'let _ = Polynomial::<F, Values>::from_values(a);'),
 w('no-conversion-into', 'E0277', 'c: C<F>, v: V<F>', 'let _: V<F> = c.into();', 'let _: V<F> = v.into();'),
 w('no-conversion-back', 'E0277', 'c: C<F>, v: V<F>', 'let _: C<F> = v.into();', 'let _: C<F> = c.into();'),
 w('no-functional-update', 'E0451', 'c: C<F>, v: V<F>, a: Vec<F>', 'let _ = V::<F> { coeffs: a, ..v };', 'let _ = v;'),
 w('private-storage', 'E0616', 'mut c: C<F>', 'c.coeffs.push(F::zero());', 'let _ = c.as_ref();'),
 w('no-comparison-across-forms', 'E0308', 'c: C<F>, d: C<F>, v: V<F>', 'let _ = c == v;', 'let _ = c == d;'),
]

def externs():
    d = extract.dump_path()
    hod = glob.glob(d + '/target/debug/**/libhodor-*.rmeta', recursive=True)
    ff = glob.glob(d + '/target/debug/**/libff_ce-*.rmeta', recursive=True)
    if len(hod) != 1 or len(ff) != 1: raise KeyError('anchor: compiled crate metadata not found')
    dirs = {os.path.dirname(p) for p in glob.glob(d + '/target/debug/**/*.rmeta', recursive=True) + glob.glob(d + '/target/debug/**/*.so', recursive=True)}
    return hod[0], ff[0], sorted(dirs)

def compile_one(src, tmp, ex):
    hod, ff, dirs = ex
    p = os.path.join(tmp, 'w%d.rs' % abs(hash(src)))
    with open(p, 'w') as f: f.write(src)
    cmd = ['rustc', extract.TOOL, '--edition', '2018', '--crate-type', 'lib', '--emit=metadata', '--error-format=short', '--out-dir', tmp,
           '--extern', 'hodor=' + hod, '--extern', 'ff=' + ff]
    for d in dirs: cmd += ['-L', 'dependency=' + d]
    r = subprocess.run(cmd + [p], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, env=extract.env(), cwd=tmp)
    return r.returncode, set(re.findall(r'error\[(E\d+)\]', r.stdout)), r.stdout

def form(t): return t['a'][1].get('s', '?').split('::')[-1] if t.get('s') == POLY else None

def check(c):
    c.rule('For each way of mixing forms a witness program must be rejected by the type checker with the expected error code while its twin, differing only in the offending line, compiles against the current crate; '
           'inside the crate no storage of one form is re-tagged as the other without being handed mutably to a computation.')
    ex = externs()
    tmp = tempfile.mkdtemp(prefix='c23-')
    try:
        jobs = []
        for i, (name, code, params, bad, good) in enumerate(W):
            f = lambda body, k: PRE + 'pub fn f%d<F: PrimeField>(%s) {\n    %s\n}\n// %s' % (i, params, body, k)
            jobs.append((name, code, f(bad, 'bad'), f(good, 'good')))
        with ThreadPoolExecutor(8) as ex8:
            bads = list(ex8.map(lambda j: compile_one(j[2], tmp, ex), jobs))
            goods = list(ex8.map(lambda j: compile_one(j[3], tmp, ex), jobs))
        for (name, code, b, g), rb, rg in zip(jobs, bads, goods):
            c.count('witness programs', 2)
            c.ob('twin of ' + name, rg[0] == 0, 'the legal twin of witness `%s` no longer compiles: %s' % (name, rg[2][:400]), key='C23:twin:' + name)
            # the witness must be rejected; the expected code tells apart a typo from the typing rule
            c.ob('witness ' + name, rb[0] != 0 and bool(rb[1]), 'a program mixing the two forms compiles: `%s` (public API of Polynomial in src/polynomials/mod.rs)' % b.splitlines()[-3].strip(), key='C23:witness:' + name, sample='rejected with %s' % sorted(rb[1]))
    finally:
        shutil.rmtree(tmp, ignore_errors=True)
    retag(c)
    c.floor('witnesses', len(W), 35)

def retag(c):
    P = Program()
    n = 0
    a = P.adts.get(POLY)
    if a is None: raise KeyError('anchor: ' + POLY)
    # the storage stays private, so clients cannot re-tag it
    fs = a['variants'][0]['f']
    vec = [f for f in fs if f['ty'].get('s') == 'alloc::vec::Vec']
    c.ob('private storage', vec and not any(f['pub'] for f in vec), 'the value storage of Polynomial is public', key='C23:public-storage')
    for im in P.impls:
        if im.get('trait') == 'crate::polynomials::PolynomialForm': n += 1
    for b in P.user():
        if '::tests::' in b.name: continue
        src = {}
        for bb in sorted(b.reach()):
            bl = b.blocks[bb]
            for s in bl['s']:
                if s['k'] == 'asg' and s['r']['k'] == 'use' and not s['p']['p']:
                    for p, k in op_places(s['r']['o']):
                        if p['p'] and p['p'][-1] == ['f', vec[0]['n']] and form(b.ty(p['l'])): src[s['p']['l']] = form(b.ty(p['l']))
            t = bl['t']
            if t['k'] == 'call' and (cname(t) or '').endswith('::into_coeffs') and t['args'] and t['args'][0]['k'] in ('move', 'copy') and form(b.ty(t['args'][0]['p']['l'])):
                src[t['d']['l']] = form(b.ty(t['args'][0]['p']['l']))
        if not src: continue
        # moves keep the identity of the storage
        ch = True; grp = {l: {l} for l in src}
        while ch:
            ch = False
            for bb in b.reach():
                for s in b.blocks[bb]['s']:
                    if s['k'] == 'asg' and s['r']['k'] == 'use' and not s['p']['p']:
                        for p, k in op_places(s['r']['o']):
                            if not p['p'] and p['l'] in src and s['p']['l'] not in src:
                                src[s['p']['l']] = src[p['l']]; ch = True
        muts = set()
        for bb in b.reach():
            for s in b.blocks[bb]['s']:
                if s['k'] == 'asg' and s['r']['k'] == 'ref' and s['r']['m'] and s['r']['p']['l'] in src: muts.add(s['r']['p']['l'])
                if s['k'] == 'asg' and s['r']['k'] == 'ref' and s['r']['m'] and form(b.ty(s['r']['p']['l'])): muts.add('poly')
        for bb in b.reach():
            bl = b.blocks[bb]
            for s in bl['s']:
                if s['k'] == 'asg' and s['r']['k'] == 'agg' and s['r']['kind'].get('adt') == POLY:
                    f = form(b.ty(s['p']['l']))
                    for o in s['r']['ops']:
                        for p, k in op_places(o):
                            if p['l'] in src and not p['p'] and src[p['l']] != f and 'P' not in (f, src[p['l']]):
                                c.ob('form change in %s@%d' % (b.name, bb), bool(muts), '%s: %s storage is re-tagged as %s without a transform' % (b.loc(s.get('ln')), src[p['l']], f), key='C23:retag:' + b.name)
            t = bl['t']
            if t['k'] == 'call' and (cname(t) or '').split('::')[-1] in ('from_coeffs', 'from_values'):
                f = 'Coefficients' if cname(t).endswith('from_coeffs') else 'Values'
                for o in t['args']:
                    for p, k in op_places(o):
                        if p['l'] in src and not p['p'] and src[p['l']] != f and src[p['l']] != 'P':
                            c.ob('form change in %s@%d' % (b.name, bb), bool(muts), '%s: %s storage is rebuilt as %s without a transform' % (b.loc(t.get('ln')), src[p['l']], f), key='C23:retag:' + b.name)
    c.floor('forms', n, 2)
