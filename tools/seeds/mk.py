#!/usr/bin/env python3
"""mk.py [ids...]: (re)builds /verif/seeded/<id>/ from seeds.py and confirms each in a scratch copy:
the patched tree builds, its tests pass, the demonstration fails with it and passes without"""
import importlib.util, json, os, shutil, subprocess, sys
HERE = os.path.dirname(os.path.abspath(__file__))
VERIF = os.path.dirname(os.path.dirname(HERE))
sys.path.insert(0, HERE)
import seeds
SCRATCH = '/tmp/seedrepo'
DEMO = '''#!/bin/bash
# run in the repository; exits 0 iff the property holds for the hive built by main.rs
here=$(cd "$(dirname "$0")" && pwd)
repo=$PWD
[ -f /opt/vp/env.sh ] && . /opt/vp/env.sh
export REPO=$repo
t=/tmp/nthive-demo-@ID@
mkdir -p "$t/src"
cp "$here/main.rs" "$here/hv.rs" "$t/src/"
cp "$repo/Cargo.lock" "$t/Cargo.lock"
cat > "$t/Cargo.toml" <<X
[package]
name = "demo"
version = "0.1.0"
edition = "2021"
[workspace]
[dependencies]
nt-hive = { path = "$repo" }
X
cd "$t" && CARGO_TARGET_DIR="$t/target" timeout 250 cargo run -q --offline
rc=$?
rm -rf /tmp/nthive-demo-@ID@
exit $rc
'''
def sh(cmd, cwd, env=None):
    p = subprocess.run(cmd, shell=True, cwd=cwd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, env=env)
    return p.returncode, p.stdout.decode(errors='replace')
def main():
    want = sys.argv[1:]
    if not os.path.isdir(SCRATCH):
        subprocess.check_call(['cp', '-a', '/repo', SCRATCH])
    for s in seeds.SEEDS:
        if want and s['id'] not in want:
            continue
        d = os.path.join(VERIF, 'seeded', s['id'])
        os.makedirs(d, exist_ok=True)
        sh('git fetch -q /repo HEAD && git checkout -q -f FETCH_HEAD', SCRATCH)
        for f, old, new in s['edits']:
            p = os.path.join(SCRATCH, 'src', f)
            t = open(p).read()
            assert t.count(old) == 1, (s['id'], f, t.count(old), old)
            open(p, 'w').write(t.replace(old, new))
        open(os.path.join(d, 'patch.diff'), 'w').write(sh('git diff', SCRATCH)[1])
        shutil.copy(os.path.join(HERE, 'hv.rs'), d)
        open(os.path.join(d, 'main.rs'), 'w').write('mod hv;\n#[allow(unused_imports)]\nuse hv::*;\n#[allow(unused_imports)]\nuse nt_hive::*;\n\n' + s['demo'].strip() + '\n')
        open(os.path.join(d, 'demo.sh'), 'w').write(DEMO.replace('@ID@', s['id']))
        os.chmod(os.path.join(d, 'demo.sh'), 0o755)
        json.dump(dict(property=s['property'], needs=s['needs'], what_it_breaks=s['breaks']), open(os.path.join(d, 'meta.json'), 'w'), indent=1)
        env = dict(os.environ, HOME='/root', CARGO_NET_OFFLINE='true', RUSTUP_TOOLCHAIN='stable', CARGO_TARGET_DIR=SCRATCH + '/target')
        a, o1 = sh('cargo test --workspace --all-features --offline -- --test-threads 8 && cargo build --workspace --all-features --offline && cargo build --workspace --no-default-features --offline', SCRATCH, env)
        b, o2 = sh(os.path.join(d, 'demo.sh'), SCRATCH)
        c, o3 = sh(os.path.join(d, 'demo.sh'), '/repo')
        ok = a == 0 and b != 0 and c == 0 and 'error' not in o2.split('thread')[0].lower()
        print('%-22s %s tests=%d demo(patched)=%d demo(clean)=%d' % (s['id'], 'OK' if ok else 'BAD', a, b, c), flush=True)
        if not ok:
            print(o1[-1500:] if a else '', o2[-1500:], o3[-1500:] if c else '')
    sh('git checkout -q -f FETCH_HEAD', SCRATCH)
main()
