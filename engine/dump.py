"""Obtain the typed program of /repo's working tree: compiler driver + cargo check (analysis only, nothing is executed)."""
import os, subprocess, sys, glob, shutil, hashlib, fcntl, json
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
CACHE = os.path.join(VERIF, '.cache')
REPO = os.environ.get('VERIF_REPO', '/repo')

def sh(cmd, env=None, cwd=None):
    e = dict(os.environ); e.update(env or {})
    r = subprocess.run(cmd, env=e, cwd=cwd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    if r.returncode: raise RuntimeError('%s failed:\n%s' % (' '.join(cmd), r.stdout[-4000:]))
    return r.stdout

def driver():
    src = os.path.join(VERIF, 'driver', 'main.rs')
    h = hashlib.sha256(open(src, 'rb').read()).hexdigest()[:16]
    out = os.path.join(CACHE, 'mirdump-' + h)
    if not os.path.exists(out):
        tmp = out + '.tmp%d' % os.getpid()
        sh(['rustc', '+nightly', '-O', src, '-o', tmp, '--edition', '2021'])
        os.replace(tmp, out)
    return out

def ensure_lock(repo):
    """Cargo.lock is git-ignored; without it an offline resolution could pick different versions."""
    lk = os.path.join(repo, 'Cargo.lock')
    if not os.path.exists(lk) and os.path.exists('/opt/vp/Cargo.lock'): shutil.copy('/opt/vp/Cargo.lock', lk)

def dump(feature, repo=None):
    """path of the dump of the given feature set ('full' or 'none'), regenerated from the working tree."""
    repo = repo or REPO
    os.makedirs(CACHE, exist_ok=True)
    tag = hashlib.sha256(repo.encode()).hexdigest()[:8]
    with open(os.path.join(CACHE, 'lock-' + tag), 'w') as lk:
        fcntl.flock(lk, fcntl.LOCK_EX)
        drv = driver()
        ensure_lock(repo)
        tgt = os.path.join(CACHE, 'target-' + tag)
        # cargo must not consider the crate fresh: forget everything it built for it
        for d, ds, fs in os.walk(tgt):
            for x in list(ds):
                if x.replace('_', '-').startswith('parquet-format-safe'):
                    shutil.rmtree(os.path.join(d, x)); ds.remove(x)
        sysroot = subprocess.run(['rustc', '+nightly', '--print', 'sysroot'], stdout=subprocess.PIPE, text=True).stdout.strip()
        out = os.path.join(CACHE, 'dump-%s-%s.json' % (tag, feature))
        for x in (out, out + '.fp'):
            if os.path.exists(x): os.remove(x)
        env = {'LD_LIBRARY_PATH': sysroot + '/lib', 'RUSTC_WORKSPACE_WRAPPER': drv, 'CARGO_TARGET_DIR': tgt, 'MIRDUMP_OUT': out,
               'CARGO_NET_OFFLINE': 'true', 'RUSTFLAGS': ''}
        env.pop('RUSTFLAGS')
        cmd = ['cargo', '+nightly', 'check', '--offline', '--manifest-path', os.path.join(repo, 'Cargo.toml'), '--lib']
        if feature == 'full': cmd += ['--features', 'full']
        sh(cmd, env)
        if not os.path.exists(out): raise RuntimeError('the compiler driver produced no dump for feature set ' + feature)
        # private copy for this process: concurrent checks do not disturb each other
        mine = out + '.%d' % os.getpid()
        shutil.copy(out, mine)
        os.replace(out + '.fp', mine + '.fp')
        return mine
