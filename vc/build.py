"""Building: the MIR dumper, the MIR of /repo plus contracts, and the native replayer.
Everything is rebuilt from /repo's current working tree, keyed by content."""
import fcntl
import glob
import hashlib
import os
import re
import shutil
import subprocess
import sys
import time

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get('VC_REPO', '/repo')
BUILD = os.path.join(ROOT, 'build')
HARNESS = os.path.join(ROOT, 'harness', 'src')


class BuildError(Exception):
    pass


def nightly():
    home = os.environ.get('RUSTUP_HOME') or os.path.expanduser('~/.rustup')
    for h in (home, '/root/.rustup', '/usr/local/rustup', '/opt/rustup'):
        c = sorted(glob.glob(os.path.join(h, 'toolchains', 'nightly-*')), key=len)
        for x in c:
            if os.path.exists(os.path.join(x, 'bin', 'rustc')) and glob.glob(x + '/lib/rustlib/*/lib/librustc_driver*'):
                return x
    r = subprocess.run(['rustc', '+nightly', '--print', 'sysroot'], capture_output=True, text=True)
    if r.returncode == 0:
        return r.stdout.strip()
    raise BuildError('no nightly toolchain')


def run(cmd, env=None, cwd=None):
    e = dict(os.environ)
    e.pop('RUSTFLAGS', None)
    if env:
        e.update(env)
    r = subprocess.run(cmd, capture_output=True, text=True, env=e, cwd=cwd)
    if r.returncode != 0:
        raise BuildError(' '.join(cmd[:4]) + ' ...\n' + r.stderr[-4000:])
    return r


def sha(paths):
    h = hashlib.sha256()
    for p in paths:
        h.update(p.encode())
        h.update(open(p, 'rb').read())
    return h.hexdigest()[:20]


class Lock:
    def __enter__(self):
        os.makedirs(BUILD, exist_ok=True)
        self.f = open(os.path.join(BUILD, '.lock'), 'w')
        fcntl.flock(self.f, fcntl.LOCK_EX)

    def __exit__(self, *a):
        self.f.close()


def driver():
    n = nightly()
    src = os.path.join(ROOT, 'driver', 'src', 'main.rs')
    out = os.path.join(BUILD, 'mirdump-' + sha([src]))
    with Lock():
        if not os.path.exists(out):
            run([n + '/bin/rustc', '--edition', '2021', '-O', src, '-o', out + '.tmp', '-C', 'link-arg=-Wl,-rpath,' + n + '/lib'])
            os.rename(out + '.tmp', out)
    return out


def repo_sources():
    fs = []
    for d, _, names in os.walk(os.path.join(REPO, 'src')):
        for n in names:
            fs.append(os.path.join(d, n))
    return sorted(fs)


def harness_sources():
    fs = []
    for d, _, names in os.walk(HARNESS):
        for n in names:
            if n.endswith('.rs'):
                fs.append(os.path.join(d, n))
    return sorted(fs)


def contracts():
    """name -> module path, from the contract sources"""
    out = {}
    for f in harness_sources():
        b = os.path.basename(f)[:-3]
        if os.path.basename(os.path.dirname(f)) != 'contracts' or b == 'mod':
            continue
        for m in re.finditer(r'^pub fn (h_\w+)\s*\(', open(f).read(), re.M):
            out[m.group(1)] = 'contracts::%s::%s' % (b, m.group(1))
    return out


def prepare():
    """returns (directory with mir.json and the native binary)"""
    drv = driver()
    n = nightly()
    key = sha(repo_sources() + harness_sources()) + '-' + os.path.basename(drv)[8:14]
    out = os.path.join(BUILD, 'w-' + key)
    with Lock():
        if os.path.exists(os.path.join(out, 'done')):
            os.utime(out)
            return out
        # keep only a few earlier trees
        old = sorted(glob.glob(os.path.join(BUILD, 'w-*')), key=os.path.getmtime)
        for o in old[:-5]:
            shutil.rmtree(o, ignore_errors=True)
        shutil.rmtree(out, ignore_errors=True)
        os.makedirs(out)
        lib = os.path.join(REPO, 'src', 'lib.rs')
        common = ['--edition', '2021', '--cap-lints', 'allow']
        mir = ['-Zalways-encode-mir', '-Zmir-opt-level=0', '-Zub-checks=no', '-C', 'overflow-checks=on', '-C', 'debug-assertions=on']
        jobs = []
        reg = ['fn registry() -> Vec<(&\'static str, fn())> { vec![']
        for c, p in sorted(contracts().items()):
            reg.append('("%s", %s as fn()),' % (c, p))
        reg.append('] }')
        open(os.path.join(out, 'registry.rs'), 'w').write('\n'.join(reg))

        def sym():
            rm = os.path.join(out, 'libskillratings.rmeta')
            run([n + '/bin/rustc'] + common + ['--crate-name', 'skillratings', '--crate-type', 'lib', lib] + mir + ['--emit=metadata', '-o', rm])
            run([drv] + common + ['--crate-name', 'harness', '--crate-type', 'lib', os.path.join(HARNESS, 'lib.rs')] + mir +
                ['--emit=metadata', '-o', os.path.join(out, 'h.rmeta'), '--extern', 'skillratings=' + rm, '--sysroot', n],
                env={'MIR_OUT': os.path.join(out, 'mir.json')})

        def nat():
            rl = os.path.join(out, 'libskillratings.rlib')
            o = ['-C', 'opt-level=2', '-C', 'overflow-checks=on', '-C', 'debug-assertions=on']
            run([n + '/bin/rustc'] + common + ['--crate-name', 'skillratings', '--crate-type', 'rlib', lib] + o + ['-o', rl])
            run([n + '/bin/rustc'] + common + ['--crate-name', 'native', '-A', 'dead_code', os.path.join(HARNESS, 'main.rs')] + o +
                ['-o', os.path.join(out, 'native'), '--extern', 'skillratings=' + rl], env={'VC_GEN': out})
        import threading
        errs = []

        def wrap(f):
            try:
                f()
            except Exception as e:
                errs.append(e)
        ts = [threading.Thread(target=wrap, args=(f,)) for f in (sym, nat)]
        for t in ts:
            t.start()
        for t in ts:
            t.join()
        if errs:
            shutil.rmtree(out, ignore_errors=True)
            raise errs[0]
        open(os.path.join(out, 'done'), 'w').write(str(time.time()))
    return out


if __name__ == '__main__':
    driver()
    t = time.time()
    print(prepare(), time.time() - t)
