"""Builds the MIR fact extractor and runs it over /repo's current sources (cached by content hash)."""
import os, hashlib, subprocess, fcntl, json, sys, glob

V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get('VERIF_REPO', '/repo')
B = os.environ.get('VERIF_BUILD', os.path.join(V, 'build'))
CRATES = 'expander_compiler,ec_go_lib,circuit_std_rs,rsa_circuit,rsa_circuit_bin,verif_probe'
PKGS = ['expander_compiler', 'ec_go_lib', 'circuit-std-rs', 'rsa_circuit', 'verif_probe']


def sysroot():
    return subprocess.check_output(['rustc', '+nightly', '--print', 'sysroot'], text=True).strip()


def filehash(paths):
    h = hashlib.sha256()
    for p in sorted(paths):
        h.update(p.encode())
        with open(p, 'rb') as f:
            h.update(hashlib.sha256(f.read()).digest())
    return h.hexdigest()


def sources():
    out = []
    for root, ds, fs in os.walk(REPO):
        ds[:] = [d for d in ds if d not in ('.git', 'target', 'node_modules')]
        for f in fs:
            if f.endswith('.rs'):
                out.append(os.path.join(root, f))
    for root, ds, fs in os.walk(os.path.join(V, 'stubs')):
        ds[:] = [d for d in ds if d not in ('target',)]
        for f in fs:
            if f.endswith(('.rs', '.toml', '.lock')):
                out.append(os.path.join(root, f))
    out.append(os.path.join(V, 'driver', 'driver.rs'))
    return out


def driver():
    src = os.path.join(V, 'driver', 'driver.rs')
    h = filehash([src])[:16]
    out = os.path.join(B, 'driver-' + h)
    if not os.path.exists(out):
        os.makedirs(B, exist_ok=True)
        subprocess.run(['rustc', '+nightly', '-O', '--edition', '2021', src, '-o', out + '.tmp'], check=True,
                       stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL)
        os.rename(out + '.tmp', out)
    return out


def ensure():
    os.makedirs(B, exist_ok=True)
    with open(os.path.join(B, 'lock'), 'w') as lk:
        fcntl.flock(lk, fcntl.LOCK_EX)
        key = filehash(sources())[:24]
        d = os.path.join(B, 'facts-' + key)
        if os.path.exists(os.path.join(d, 'done')):
            return d
        for o in glob.glob(os.path.join(B, 'facts-*')):
            subprocess.run(['rm', '-rf', o])
        drv = driver()
        tgt = os.path.join(B, 'target')
        # the wrapped crates must be re-checked even when cargo believes them fresh
        for p in PKGS:
            for q in ('debug/build/' + p, ):
                subprocess.run(['rm', '-rf', os.path.join(tgt, q)])
        for f in glob.glob(os.path.join(tgt, 'debug', '.fingerprint', '*')):
            n = os.path.basename(f)
            if any(n.startswith(p + '-') or n.startswith(p.replace('-', '_') + '-') for p in PKGS):
                subprocess.run(['rm', '-rf', f])
        os.makedirs(d, exist_ok=True)
        sr = sysroot()
        env = dict(os.environ, LD_LIBRARY_PATH=sr + '/lib', RUSTC_WORKSPACE_WRAPPER=drv, VFACTS_CRATES=CRATES,
                   VFACTS_OUT=d, CARGO_NET_OFFLINE='true', CARGO_TARGET_DIR=tgt)
        env.pop('RUSTFLAGS', None)
        cmd = ['cargo', '+nightly', 'check', '--keep-going', '-p', 'expander_compiler', '-p', 'ec_go_lib', '-p', 'circuit-std-rs', '-p', 'rsa_circuit', '-p', 'verif_probe']
        r = subprocess.run(cmd, cwd=os.path.join(V, 'stubs'), env=env, capture_output=True, text=True)
        with open(os.path.join(d, 'log'), 'w') as f:
            f.write(r.stdout + r.stderr)
        if not os.path.exists(os.path.join(d, 'expander_compiler.jsonl')):
            raise RuntimeError('the program could not be analysed: ' + '\n'.join(
                l for l in r.stderr.splitlines() if l.startswith('error'))[:1500])
        open(os.path.join(d, 'done'), 'w').write('ok')
        return d


if __name__ == '__main__':
    print(ensure())
