"""Extract the type-checked MIR of /repo's current working tree (nothing is executed)."""
import fcntl, os, subprocess, tempfile, shutil
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get('VERIF_REPO', '/repo')
BUILD = os.path.join(VERIF, 'build')

def sysroot():
    return subprocess.run(['rustc', '+nightly', '--print', 'sysroot'], capture_output=True, text=True, check=True).stdout.strip()

def driver():
    src = os.path.join(VERIF, 'driver', 'main.rs')
    out = os.path.join(BUILD, 'mirdump')
    if not os.path.exists(out) or os.path.getmtime(out) < os.path.getmtime(src):
        os.makedirs(BUILD, exist_ok=True)
        with open(out + '.lock', 'w') as lk:
            fcntl.flock(lk, fcntl.LOCK_EX)
            if os.path.exists(out) and os.path.getmtime(out) >= os.path.getmtime(src): return out
            tmp = tempfile.mkdtemp(prefix='mirdump-', dir=BUILD)
            try:
                subprocess.run(['rustc', '+nightly', '-O', '--edition', '2021', src, '-o', os.path.join(tmp, 'mirdump')], check=True, capture_output=True)
                os.replace(os.path.join(tmp, 'mirdump'), out)
            finally: shutil.rmtree(tmp, ignore_errors=True)
    return out

class BuildError(Exception): pass
class DriverError(Exception): pass

def extract(outdir, repo=None):
    repo = repo or REPO
    drv = driver()
    tgt = tempfile.mkdtemp(prefix='mirdump-')
    try:
        env = dict(os.environ)
        env.update(CARGO_TARGET_DIR=tgt, LD_LIBRARY_PATH=sysroot() + '/lib', RUSTC_WORKSPACE_WRAPPER=drv,
                   MIRDUMP_CRATES='graphrox,graphrox-c', MIRDUMP_OUT=outdir,
                   RUSTFLAGS='-Zmir-opt-level=0 -Zmir-enable-passes=-CheckNull,-CheckAlignment,-CheckEnums -Cdebug-assertions=on -Coverflow-checks=on -Awarnings', CARGO_NET_OFFLINE='true')
        env.pop('RUSTC_WRAPPER', None)
        r = subprocess.run(['cargo', '+nightly', 'check', '--offline'], cwd=repo, env=env, capture_output=True, text=True)
        if r.returncode != 0:
            # a source that compiles without the driver is a limit of the driver, not of the source
            for k in ('RUSTC_WORKSPACE_WRAPPER', 'RUSTFLAGS'): env.pop(k)
            plain = subprocess.run(['cargo', 'check', '--offline'], cwd=repo, env=env, capture_output=True, text=True)
            raise (DriverError if plain.returncode == 0 else BuildError)(r.stderr[-3000:])
    finally:
        shutil.rmtree(tgt, ignore_errors=True)
    return [os.path.join(outdir, f) for f in ('graphrox.json', 'graphrox-c.json')]
