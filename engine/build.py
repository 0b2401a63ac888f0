"""Builds a harness crate against /repo's working tree and collects the IR."""
import os, subprocess, glob, hashlib, shutil, fcntl, json, time
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get('VP_REPO', '/repo')
BUILD = os.environ.get('VP_BUILD', os.path.join(VERIF, 'build'))

# flavour -> (harness crate, rustflags cfgs, extra cargo args, repo crate dir)
FLAVOURS = {
    'chacha-auto': ('chacha', '', [], 'chacha20'),
    'chacha-auto512': ('chacha', '--cfg chacha20_avx512', [], 'chacha20'),
    'chacha-soft': ('chacha', '--cfg chacha20_backend="soft"', [], 'chacha20'),
    'chacha-sse2': ('chacha', '--cfg chacha20_backend="sse2"', [], 'chacha20'),
    'chacha-avx2': ('chacha', '--cfg chacha20_backend="avx2" -C target-feature=+avx2', [], 'chacha20'),
    'chacha-avx512': ('chacha', '--cfg chacha20_avx512 --cfg chacha20_backend="avx512" -C target-feature=+avx512f,+avx512vl', [], 'chacha20'),
    'chacha-nocz': ('chacha', '', ['--no-default-features'], 'chacha20'),
    'salsa': ('salsa', '', [], 'salsa20'),
    'hc256': ('hc256', '', [], 'hc-256'),
    'rabbit': ('rabbit', '', [], 'rabbit'),
    'rc4': ('rc4', '', [], 'rc4'),
}


# the same sources as users' release builds compile them: no overflow checks, no debug assertions
for _f, (_c, _r, _e, _d) in list(FLAVOURS.items()):
    FLAVOURS[_f + '-rel'] = (_c, _r, _e + ['--config', 'profile.release.overflow-checks=false',
                                          '--config', 'profile.release.debug-assertions=false'], _d)


class BuildError(Exception):
    pass


def tree_hash(dirs):
    h = hashlib.sha256()
    for d in dirs:
        for root, ds, fs in os.walk(d):
            ds[:] = sorted(x for x in ds if x not in ('target', '.git'))
            for f in sorted(fs):
                p = os.path.join(root, f)
                h.update(p.encode())
                with open(p, 'rb') as fh:
                    h.update(fh.read())
    return h.hexdigest()[:16]


def build(flavour):
    """-> dict(ll=[paths], so=path, build_s=seconds)"""
    crate, cfgs, extra, rdir = FLAVOURS[flavour]
    hdir = os.path.join(VERIF, 'harness', crate)
    key = tree_hash([hdir, os.path.join(REPO, rdir)])
    os.makedirs(BUILD, exist_ok=True)
    tdir = os.path.join(BUILD, flavour)
    with open(os.path.join(BUILD, flavour + '.lock'), 'w') as lk:
        fcntl.flock(lk, fcntl.LOCK_EX)
        stamp = os.path.join(tdir, 'stamp.json')
        try:
            d = json.load(open(stamp))
            if d['key'] == key and os.path.exists(d['so']):
                d['cached'] = True
                return d
        except Exception:
            pass
        t0 = time.time()
        shutil.rmtree(tdir, ignore_errors=True)
        os.makedirs(tdir)
        src = hdir
        if REPO != '/repo':
            src = os.path.join(tdir, 'harness')
            shutil.copytree(hdir, src)
            p = os.path.join(src, 'Cargo.toml')
            s = open(p).read().replace('"/repo/', '"%s/' % REPO)
            open(p, 'w').write(s)
        env = dict(os.environ)
        for k in ('RUSTFLAGS', 'CARGO_ENCODED_RUSTFLAGS', 'CARGO_TARGET_DIR', 'RUSTC_WRAPPER'):
            env.pop(k, None)
        env.setdefault('HOME', '/root')
        env['PATH'] = '/root/.cargo/bin:' + env.get('PATH', '')
        env['RUSTUP_TOOLCHAIN'] = 'stable-x86_64-unknown-linux-gnu'
        env['CARGO_NET_OFFLINE'] = 'true'
        env['CARGO_INCREMENTAL'] = '0'
        env['RUSTFLAGS'] = cfgs + ' --emit=llvm-ir -C no-vectorize-loops -C no-vectorize-slp'
        r = subprocess.run(['cargo', 'build', '--release', '--offline', '--locked', '--target-dir', os.path.join(tdir, 't'),
                            '--manifest-path', os.path.join(src, 'Cargo.toml')] + extra,
                           env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
        if r.returncode:
            raise BuildError('harness %s does not build:\n%s' % (flavour, r.stdout[-4000:]))
        rel = os.path.join(tdir, 't', 'release')
        so = glob.glob(os.path.join(rel, '*.so'))
        ll = sorted(glob.glob(os.path.join(rel, 'deps', '*.ll')))
        d = dict(key=key, so=so[0], ll=ll, build_s=round(time.time() - t0, 2), flavour=flavour,
                 rustflags=env['RUSTFLAGS'])
        json.dump(d, open(stamp, 'w'))
        return d
