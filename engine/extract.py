"""Produce (and cache by content hash) the MIR dump of /repo's current working tree."""
import hashlib, json, os, shutil, subprocess, sys, tempfile, fcntl

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get('HODOR_REPO', '/repo')
CACHE = os.path.join(VERIF, '.cache')
TOOL = '+nightly'

class ExtractError(Exception): pass

def run(cmd, **kw):
    p = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **kw)
    if p.returncode != 0:
        raise ExtractError('%s failed (%d):\n%s' % (' '.join(cmd), p.returncode, p.stdout[-4000:]))
    return p.stdout

def src_hash():
    h = hashlib.sha256()
    files = [os.path.join(VERIF, 'driver', 'main.rs')]
    for n in ('Cargo.toml', 'Cargo.lock', 'build.rs'):
        p = os.path.join(REPO, n)
        if os.path.exists(p): files.append(p)
    for d, ds, fs in os.walk(os.path.join(REPO, 'src')):
        ds.sort()
        for f in sorted(fs): files.append(os.path.join(d, f))
    for f in files:
        h.update(f.encode()); h.update(b'\0')
        with open(f, 'rb') as fh: h.update(fh.read())
        h.update(b'\0')
    return h.hexdigest()[:24]

def env():
    e = dict(os.environ)
    for k in ('RUSTC', 'RUSTC_WRAPPER', 'RUSTFLAGS', 'CARGO_TARGET_DIR', 'RUSTUP_TOOLCHAIN', 'CARGO_ENCODED_RUSTFLAGS'): e.pop(k, None)
    e['CARGO_NET_OFFLINE'] = 'true'
    return e

def driver():
    src = os.path.join(VERIF, 'driver', 'main.rs')
    h = hashlib.sha256(open(src, 'rb').read()).hexdigest()[:16]
    out = os.path.join(CACHE, 'driver-' + h)
    if not os.path.exists(out):
        os.makedirs(CACHE, exist_ok=True)
        tmp = out + '.%d.tmp' % os.getpid()
        run(['rustc', TOOL, '-O', '--edition', '2021', src, '-o', tmp], env=env(), cwd=CACHE)
        os.replace(tmp, out)
    return out

def dump_path():
    os.makedirs(CACHE, exist_ok=True)
    with open(os.path.join(CACHE, 'lock'), 'w') as lk:
        fcntl.flock(lk, fcntl.LOCK_EX)
        h = src_hash()
        d = os.path.join(CACHE, 'dump-' + h)
        if os.path.exists(os.path.join(d, 'dump.json')): return d
        drv = driver()
        for old in os.listdir(CACHE):          # keep the cache small
            if old.startswith('dump-'): shutil.rmtree(os.path.join(CACHE, old), ignore_errors=True)
        tmp = tempfile.mkdtemp(prefix='build-', dir=CACHE)
        try:
            e = env()
            sysroot = subprocess.check_output(['rustc', TOOL, '--print', 'sysroot'], text=True, env=e).strip()
            e.update(LD_LIBRARY_PATH=sysroot + '/lib', RUSTC_WORKSPACE_WRAPPER=drv, HODOR_DUMP_CRATE='hodor',
                     HODOR_DUMP_OUT=os.path.join(tmp, 'dump.json'), CARGO_TARGET_DIR=os.path.join(tmp, 'target'),
                     CARGO_INCREMENTAL='0', CARGO_PROFILE_DEV_OVERFLOW_CHECKS='false')
            had_lock = os.path.exists(os.path.join(REPO, 'Cargo.lock'))
            run(['cargo', TOOL, 'check', '--offline', '--lib'], env=e, cwd=REPO)
            if not had_lock and os.path.exists(os.path.join(REPO, 'Cargo.lock')) and not tracked('Cargo.lock'):
                os.remove(os.path.join(REPO, 'Cargo.lock'))
            if not os.path.exists(os.path.join(tmp, 'dump.json')):
                raise ExtractError('the driver wrote no dump')
            os.replace(tmp, d)
        except BaseException:
            shutil.rmtree(tmp, ignore_errors=True)
            raise
        return d

def tracked(f):
    return subprocess.run(['git', '-C', REPO, 'ls-files', '--error-unmatch', f], stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL).returncode == 0

_d = None
def load():
    global _d
    if _d is None:
        with open(os.path.join(dump_path(), 'dump.json')) as f: _d = json.load(f)
    return _d

if __name__ == '__main__':
    print(dump_path())
