#!/usr/bin/env python3
"""mkseed.py NAME...: builds /verif/seeded/<NAME>/ from tools/seeds/<NAME>.py (dict S: property, edits, needs, breaks, demo)
and confirms it in a scratch copy of /repo: applies, builds, baseline tests pass, demo passes without and fails with the patch."""
import sys, os, subprocess, runpy, json, tempfile, time, tarfile, io
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
DEMO = r'''#!/bin/bash
# Builds this demonstration against the sources in the current directory; stand-in dependencies are in stubs.tgz.
D="$(cd "$(dirname "$0")" && pwd)"
R="$PWD"
T="$(mktemp -d /tmp/demo.XXXXXX)" || exit 3
trap 'rm -rf "$T"' EXIT
tar xzf "$D/stubs.tgz" -C "$T" || exit 3
grep -rlF '"/repo/' "$T" --include=Cargo.toml | xargs sed -i "s|\"/repo/|\"$R/|g"
mkdir -p "$T/repo/demo/src"
cp "$D/main.rs" "$T/repo/demo/src/main.rs"
cat > "$T/repo/demo/Cargo.toml" <<X
[package]
name = "demo"
version = "0.1.0"
edition = "2021"
[dependencies]
expander_compiler = { path = "../expander_compiler" }
circuit-std-rs = { path = "../circuit-std-rs" }
serdes = { path = "../../ext/serdes" }
arith = { path = "../../ext/arith" }
gkr = { path = "../../ext/gkr" }
gkr_engine = { path = "../../ext/gkr_engine" }
ethnum = "1.5.0"
rand = "0.8.5"
num-bigint = { path = "../../ext/num-bigint" }
tiny-keccak = { version = "2.0.2", features = ["keccak"] }
X
sed -i 's|members = \[|members = ["repo/demo", |; s|opt-level = 1|opt-level = 0|' "$T/Cargo.toml"
cd "$T" || exit 3
export CARGO_TARGET_DIR="$T/target" CARGO_NET_OFFLINE=true
timeout 280 cargo +nightly build -q -p demo 2>"$T/log" || { tail -30 "$T/log"; exit 2; }
timeout 60 "$T/target/debug/demo"
'''


def sh(*a, **kw):
    return subprocess.run(a, capture_output=True, text=True, **kw)


def stubs(path):
    import gzip
    buf = io.BytesIO()
    with tarfile.open(fileobj=buf, mode='w') as t:
        base = os.path.join(V, 'stubs')
        for root, ds, fs in os.walk(base):
            ds[:] = sorted(d for d in ds if d != 'target')
            for f in sorted(fs):
                p = os.path.join(root, f)
                ti = tarfile.TarInfo(os.path.relpath(p, base))
                data = open(p, 'rb').read()
                ti.size = len(data)
                t.addfile(ti, io.BytesIO(data))
    with open(path, 'wb') as f:
        with gzip.GzipFile(fileobj=f, mode='wb', mtime=0, filename='') as g:
            g.write(buf.getvalue())


def make(name, confirm):
    S = runpy.run_path(os.path.join(V, 'tools', 'seeds', name + '.py'))['S']
    d = os.path.join(V, 'seeded', name)
    os.makedirs(d, exist_ok=True)
    T = tempfile.mkdtemp(prefix='seed.', dir='/tmp')
    R = os.path.join(T, 'repo')
    try:
        sh('cp', '-a', '/repo', R)
        sh('git', '-C', R, 'checkout', '--', '.')
        for f, o, n in S['edits']:
            s = open(os.path.join(R, f)).read()
            assert s.count(o) == 1, '%s: pattern %d times in %s' % (name, s.count(o), f)
            open(os.path.join(R, f), 'w').write(s.replace(o, n))
        diff = sh('git', '-C', R, 'diff').stdout
        assert diff
        open(os.path.join(d, 'patch.diff'), 'w').write(diff)
        stubs(os.path.join(d, 'stubs.tgz'))
        open(os.path.join(d, 'main.rs'), 'w').write(S['demo'])
        open(os.path.join(d, 'demo.sh'), 'w').write(DEMO)
        os.chmod(os.path.join(d, 'demo.sh'), 0o755)
        json.dump({'property': S['property'], 'needs': S['needs'], 'what_it_breaks': S['breaks']}, open(os.path.join(d, 'meta.json'), 'w'), indent=1)
        if confirm:
            t0 = time.time()
            b = sh(os.path.join(d, 'demo.sh'), cwd=R)
            t1 = time.time()
            sh('git', '-C', R, 'checkout', '--', '.')
            a = sh(os.path.join(d, 'demo.sh'), cwd=R)
            ok = a.returncode == 0 and b.returncode not in (0, 2, 3)
            print('%-22s %s clean=%d bug=%d (%.0fs) %s' % (name, 'OK' if ok else '*** BAD', a.returncode, b.returncode, t1 - t0,
                  '' if ok else (a.stdout + a.stderr)[-1500:] + '\n--\n' + (b.stdout + b.stderr)[-800:]))
            sys.stdout.flush()
    finally:
        sh('rm', '-rf', T)


if __name__ == '__main__':
    args = [a for a in sys.argv[1:] if a != '-n']
    for n in args or sorted(f[:-3] for f in os.listdir(os.path.join(V, 'tools', 'seeds')) if f.endswith('.py')):
        make(n, '-n' not in sys.argv)
