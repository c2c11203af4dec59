"""Planted bugs.

plant.py add ID PROPERTY FILE... < spec   make seeded/ID from edits (see bugs/)
plant.py confirm ID...                    builds, stable tests, demo with and without, in a scratch copy
plant.py catch ID [PROP ...]              runs the checks against it, in /repo, and undoes it
"""
import json
import os
import re
import shutil
import subprocess
import sys

V = os.environ.get("VERIF_DIR", "/verif")
S = '/tmp/plant/repo'
DEMO = '''#!/bin/bash
# Runs main.rs against the crate in the current directory.
here=$(cd "$(dirname "$0")" && pwd)
repo=$(pwd)
t=$(mktemp -d) || exit 2
trap 'rm -rf "$t"' EXIT
mkdir "$t/src" && cp "$here/main.rs" "$t/src/main.rs" || exit 2
cat > "$t/Cargo.toml" <<T
[package]
name = "demo"
version = "0.0.0"
edition = "2021"
[workspace]
[dependencies]
libc = "0.2"
corosensei = { path = "$repo", default-features = false, features = [FEATURES] }
[profile.dev]
panic = "unwind"
T
export CARGO_TARGET_DIR="$t/target" CARGO_NET_OFFLINE=true RUSTUP_TOOLCHAIN=TCHAIN
unset RUSTFLAGS RUSTC_WRAPPER CARGO_BUILD_TARGET
cd "$t" || exit 2
ulimit -c 0
timeout 250 cargo run --offline -q FLAGS
'''


def sh(c, **k):
    return subprocess.run(c, shell=isinstance(c, str), stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **k)


def add(name, prop, edits, needs, breaks, main, flags='', features='"unwind", "default-stack"', toolchain='1.99.1', demo=None):
    """edits: [(file, old, new)]"""
    sh('git checkout -q -- . && git clean -fdq src', cwd=S)
    for f, a, b in edits:
        p = os.path.join(S, f)
        t = open(p).read()
        if t.count(a) != 1:
            raise SystemExit('%s: %d matches in %s of %r' % (name, t.count(a), f, a[:80]))
        open(p, 'w').write(t.replace(a, b))
    d = os.path.join(V, 'seeded', name)
    os.makedirs(d, exist_ok=True)
    open(d + '/patch.diff', 'w').write(sh('git diff', cwd=S).stdout)
    sh('git checkout -q -- .', cwd=S)
    open(d + '/main.rs', 'w').write(main)
    open(d + '/demo.sh', 'w').write(demo or DEMO.replace('FEATURES', features).replace('TCHAIN', toolchain).replace(' FLAGS\n', ' %s\n' % flags))
    os.chmod(d + '/demo.sh', 0o755)
    json.dump(dict(property=prop, needs=needs, what_it_breaks=breaks), open(d + '/meta.json', 'w'), indent=1)


def vp():
    for f in ('env.sh', 'build.sh', 'test.sh'):
        t = open('/opt/vp/' + f).read().replace('/repo', S).replace('. /opt/vp/env.sh', '. /tmp/plant/env.sh')
        open('/tmp/plant/' + f, 'w').write(t)


def confirm(name):
    d = os.path.join(V, 'seeded', name)
    sh('git checkout -q -- .; git fetch -q /repo HEAD; git reset -q --hard FETCH_HEAD', cwd=S)
    vp()
    r0 = sh(['bash', d + '/demo.sh'], cwd=S)
    if r0.returncode:
        return '%s: demo fails without the patch (%d)\n%s' % (name, r0.returncode, r0.stdout[-1500:])
    r = sh(['git', 'apply', d + '/patch.diff'], cwd=S)
    if r.returncode:
        return '%s: does not apply %s' % (name, r.stdout)
    try:
        r1 = sh(['bash', d + '/demo.sh'], cwd=S)
        if r1.returncode == 0:
            return '%s: demo passes with the patch\n%s' % (name, r1.stdout[-500:])
        r = sh(['bash', '/tmp/plant/build.sh'], cwd=S)
        if r.returncode:
            return '%s: does not build\n%s' % (name, r.stdout[-1500:])
        sh(['bash', '/tmp/plant/test.sh', '/tmp/plant/out.json'], cwd=S)
        o = json.load(open('/tmp/plant/out.json'))
        bl = json.load(open('/opt/vp/BASELINE.json'))
        lost = sorted(set(bl['stable']) - set(o['passed']))
        if lost:
            return '%s: tests notice: %d %s' % (name, len(lost), lost[:4])
    finally:
        sh('git checkout -q -- .', cwd=S)
    return '%s: ok (demo %d: %s)' % (name, r1.returncode, ' '.join(r1.stdout.split())[-160:])


def catch(name, props):
    d = os.path.join(V, 'seeded', name)
    props = props or [json.load(open(d + '/meta.json'))['property']]
    r = sh(['git', '-C', '/repo', 'apply', d + '/patch.diff'])
    if r.returncode:
        return '%s: does not apply' % name
    res = []
    try:
        for p in props:
            env = dict(os.environ, VERIF_SEED='1', VERIF_TIER='quick')
            r = sh(['python3', 'check.py', p, 'quick'], cwd=V, env=env)
            v = [l for l in r.stdout.splitlines() if l.startswith('VIOLATION')]
            res.append('%s=%d%s' % (p, r.returncode, '' if (r.returncode == 1) == bool(v) else '!'))
            if r.returncode not in (0, 1):
                res.append(r.stdout[-600:])
    finally:
        sh(['git', '-C', '/repo', 'checkout', '--', '.'])
    return '%s: %s' % (name, ' '.join(res))


if __name__ == '__main__':
    if sys.argv[1] == 'confirm':
        for n in sys.argv[2:]:
            print(confirm(n), flush=True)
    if sys.argv[1] == 'catch':
        n = [a for a in sys.argv[2:] if not re.match(r'C\d\d$', a)]
        p = [a for a in sys.argv[2:] if re.match(r'C\d\d$', a)]
        for x in n:
            print(catch(x, p), flush=True)
