"""Compile a scratch copy of /repo's current sources with the MIR-dumping driver.

Nothing of the program is executed: `cargo check` type-checks the crate and the
driver (driver/src/main.rs) writes the monomorphised MIR as JSON.
"""
import fcntl, hashlib, json, os, pickle, shutil, subprocess, sys
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get('VP_REPO', '/repo')
CACHE = os.environ.get('VP_CACHE', os.path.join(VERIF, 'cache'))


class DumpError(Exception):
    pass


def run(cmd, env=None, cwd=None, timeout=800):
    p = subprocess.run(cmd, env=env, cwd=cwd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, timeout=timeout)
    return p.returncode, p.stdout


def sha(paths):
    h = hashlib.sha256()
    for p in sorted(paths):
        h.update(p.encode() + b'\0')
        with open(p, 'rb') as f:
            h.update(f.read())
        h.update(b'\0')
    return h.hexdigest()[:20]


def tree(d):
    out = []
    for r, ds, fs in os.walk(d):
        ds[:] = [x for x in ds if x not in ('target', '.git')]
        out += [os.path.join(r, f) for f in fs]
    return out


def base_env():
    env = dict(os.environ)
    rc, sysroot = run(['rustc', '+nightly', '--print', 'sysroot'])
    env['LD_LIBRARY_PATH'] = sysroot.strip() + '/lib'
    env['CARGO_NET_OFFLINE'] = 'true'
    for k in ('RUSTFLAGS', 'RUSTC_WRAPPER', 'RUSTC', 'CARGO_TARGET_DIR', 'RUSTC_WORKSPACE_WRAPPER', 'CARGO_BUILD_TARGET'):
        env.pop(k, None)
    return env


def driver(env):
    src = [os.path.join(VERIF, 'driver/Cargo.toml'), os.path.join(VERIF, 'driver/src/main.rs')]
    key = sha(src)
    out = os.path.join(CACHE, 'driver-' + key)
    if not os.path.exists(out):
        e = dict(env, RUSTFLAGS='-Awarnings')
        tgt = os.path.join(CACHE, 'drv_target')
        rc, o = run(['cargo', '+nightly', 'build', '--offline', '--target-dir', tgt], e, os.path.join(VERIF, 'driver'))
        if rc:
            raise DumpError('driver build failed:\n' + o[-3000:])
        shutil.copy2(os.path.join(tgt, 'debug/cniic-mir-dump'), out + '.tmp')
        os.rename(out + '.tmp', out)
    return out, key


def error_lines(out):
    """Lines of main.rs named by the compiler's errors."""
    res = set()
    for l in out.split('\n'):
        try:
            m = json.loads(l)
        except ValueError:
            continue
        m = m.get('message') if isinstance(m, dict) else None
        if not isinstance(m, dict) or m.get('level') != 'error':
            continue
        for s in m.get('spans', ()):
            while s and s.get('is_primary'):
                if s.get('file_name', '').endswith('src/main.rs'):
                    res.add(s['line_start'])
                s = dict((s.get('expansion') or {}).get('span') or (), is_primary=True) if s.get('expansion') else None
    return res


def dump():
    """Returns the parsed dump of the current /repo tree."""
    os.makedirs(CACHE, exist_ok=True)
    with open(os.path.join(CACHE, 'lock'), 'w') as lk:
        fcntl.flock(lk, fcntl.LOCK_EX)
        env = base_env()
        drv, dkey = driver(env)
        overlay = os.path.join(VERIF, 'tools/overlay.rs')
        files = [os.path.join(REPO, 'Cargo.toml'), overlay] + tree(os.path.join(REPO, 'src'))
        if os.path.exists(os.path.join(REPO, 'Cargo.lock')):
            files.append(os.path.join(REPO, 'Cargo.lock'))
        key = hashlib.sha256((sha(files) + dkey).encode()).hexdigest()[:20]
        pk = os.path.join(CACHE, 'mir-%s.pkl' % key)
        if os.path.exists(pk):
            with open(pk, 'rb') as f:
                return pickle.load(f)
        work = os.path.join(CACHE, 'work')
        shutil.rmtree(work, ignore_errors=True)
        os.makedirs(work)
        shutil.copytree(os.path.join(REPO, 'src'), os.path.join(work, 'src'))
        for f in ('Cargo.toml', 'Cargo.lock'):
            if os.path.exists(os.path.join(REPO, f)):
                shutil.copy2(os.path.join(REPO, f), work)
        with open(overlay) as f:
            ov = f.read()
        main = os.path.join(work, 'src/main.rs')
        with open(main) as f:
            own = f.read()
        own += '' if own.endswith('\n') else '\n'
        ov = ov.split('\n')
        first = next(i for i, l in enumerate(ov) if l.strip() == 'pub mod roots {') + 1
        out = os.path.join(CACHE, 'mir.json')
        if os.path.exists(out):
            os.unlink(out)
        e = dict(env, RUSTC_WORKSPACE_WRAPPER=drv, MIR_DUMP_CRATE='cniic', MIR_DUMP_OUT=out)
        tgt = os.path.join(CACHE, 'chk_target')
        fp = os.path.join(tgt, 'debug/.fingerprint')
        if os.path.isdir(fp):
            for d in os.listdir(fp):
                if d.startswith('cniic-'):
                    shutil.rmtree(os.path.join(fp, d), ignore_errors=True)
        cmd = ['cargo', '+nightly', 'check', '--offline', '--bin', 'cniic', '--target-dir', tgt]
        while True:
            with open(main, 'w') as f:
                f.write(own + '\n'.join(ov))
            rc, o = run(cmd + ['--message-format=json'], e, work)
            if not rc:
                break
            # a root that no longer fits the program's interface is left out; what depends on it is then undecided
            bad = {n - own.count('\n') - 1 for n in error_lines(o)}
            bad = {i for i in bad if first <= i < len(ov) and ov[i].startswith(('        pub fn', '        ser!', '        use crate'))}
            if not bad:
                rc, o = run(cmd, e, work)
                break
            for i in bad:
                ov[i] = ''
        if rc or not os.path.exists(out):
            raise DumpError('cargo check with the MIR driver failed:\n' + o[-6000:])
        with open(out) as f:
            d = json.load(f)
        os.unlink(out)
        shutil.rmtree(work, ignore_errors=True)
        for f in os.listdir(CACHE):
            if f.startswith('mir-') and f != os.path.basename(pk) and len([x for x in os.listdir(CACHE) if x.startswith('mir-')]) > 12:
                os.unlink(os.path.join(CACHE, f))
        with open(pk + '.tmp', 'wb') as f:
            pickle.dump(d, f, protocol=4)
        os.rename(pk + '.tmp', pk)
        return d


if __name__ == '__main__':
    import time
    t = time.time()
    d = dump()
    print(len(d['fns']), len(d['types']), time.time() - t)
