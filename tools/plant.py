"""plant.py make FILE | plant.py try ID [PROPERTY..] -- write a planted bug into seeded/, or try one against the checks.

FILE is a Python file with: id, prop, edits = [(path, old, new)..], main (demo main.rs), needs, breaks; kind = 'oak' or 'runtime'."""
import json, os, subprocess, sys, shutil
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
DEMO = '''#!/bin/bash
# exit 0: behaves as stated; nonzero: does not. Everything is built and run in a scratch directory.
here=$(cd "$(dirname "$0")" && pwd)
repo=$PWD
. /opt/vp/env.sh
cd "$repo"
d=$(mktemp -d)
trap 'rm -rf "$d"' EXIT
export CARGO_TARGET_DIR=$d/target CARGO_INCREMENTAL=0
mkdir "$d/src" && cp "$here/main.rs" "$d/src/main.rs" && cp "$here/demo.lock" "$d/Cargo.lock"
cat > "$d/Cargo.toml" <<EOF
[package]
name = "demo"
version = "0.1.0"
edition = "2018"
[dependencies]
oak = { path = "$repo" }
oak_runtime = { path = "$repo/runtime" }
syntex_pos = "0.58.1"
[profile.dev]
debug = 0
[workspace]
EOF
cd "$d"
CARGO
'''
def sh(c, **k):
    return subprocess.run(c, shell=True, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors='replace', **k)

def make(f):
    g = {}
    exec(open(f).read(), g)
    d = os.path.join(HERE, 'seeded', g['id'])
    os.makedirs(d, exist_ok=True)
    assert sh('git -C /repo status --porcelain').stdout == ''
    try:
        for p, a, b in g['edits']:
            p = os.path.join('/repo', p)
            s = open(p).read()
            assert s.count(a) == 1, (p, s.count(a), a)
            open(p, 'w').write(s.replace(a, b))
        open(os.path.join(d, 'patch.diff'), 'w').write(sh('git -C /repo diff').stdout)
    finally:
        sh('git -C /repo checkout -- .')
    cargo = 'cargo build --offline --quiet || exit 2\ntimeout 60 "$d/target/debug/demo"'
    if g.get('compile_error'):
        cargo = 'cargo build --offline > out.txt 2>&1; rc=$?; cat out.txt; ' + g['compile_error']
    open(os.path.join(d, 'main.rs'), 'w').write(g['main'])
    shutil.copy(os.path.join(HERE, 'replay', 'Cargo.lock.oak'), os.path.join(d, 'demo.lock'))
    open(os.path.join(d, 'demo.sh'), 'w').write(DEMO.replace('CARGO', cargo, 1) if False else DEMO.replace('\nCARGO\n', '\n' + cargo + '\n'))
    os.chmod(os.path.join(d, 'demo.sh'), 0o755)
    json.dump({'property': g['prop'], 'needs': g['needs'], 'what_it_breaks': g['breaks']}, open(os.path.join(d, 'meta.json'), 'w'), indent=1)
    return g['id']

def demo(i):
    return sh('bash %s/seeded/%s/demo.sh' % (HERE, i), cwd='/repo')

def attempt(i, props, light=False):
    d = os.path.join(HERE, 'seeded', i)
    meta = json.load(open(os.path.join(d, 'meta.json')))
    base = set(json.load(open('/opt/vp/BASELINE.json')).get('stable', [])) if False else None
    r0 = demo(i)
    print(i, 'clean demo rc', r0.returncode, '' if r0.returncode == 0 else r0.stdout[-1500:])
    try:
        r = sh('git -C /repo apply %s/patch.diff' % d)
        assert r.returncode == 0, r.stdout
        r = sh('bash /opt/vp/build.sh')
        print(i, 'build rc', r.returncode, '' if r.returncode == 0 else r.stdout[-1500:])
        if r.returncode: return
        sh('bash /opt/vp/test.sh /tmp/plant_out.json')
        o = json.load(open('/tmp/plant_out.json'))
        b = json.load(open('/opt/vp/BASELINE.json'))
        names = lambda x: set(x.get('passed', x.get('stable_pass', [])))
        miss = [t for t in stable(b) if t not in passed(o)]
        print(i, 'stable tests lost:', miss[:5], len(miss))
        r1 = demo(i)
        print(i, 'patched demo rc', r1.returncode, r1.stdout[-300:])
        for p in props or [meta['property']]:
            r = sh('python3 check.py %s' % p, cwd=HERE)
            print(i, 'check', p, 'rc', r.returncode, '\n   '.join([''] + [l for l in r.stdout.split('\n') if l][-6:]))
            if r.returncode == 1:
                rp = [l for l in r.stdout.split('\n') if l.startswith('VIOLATION')][0].split('replay=')[1].split()[0]
                print('   ', '\n    '.join(open(rp).read().split('\n')[:6])[:900])
    finally:
        print(sh('git -C /repo checkout -- .').stdout)

def passed(o):
    return set(o['passed']) if isinstance(o.get('passed'), list) else {k for k, v in o.items() if v == 'pass'}
def stable(b):
    for k in ('stable', 'passed', 'stable_pass', 'tests'):
        if isinstance(b.get(k), list):
            return b[k]
    raise SystemExit(str(b.keys()))

if __name__ == '__main__':
    if sys.argv[1] == 'make':
        for f in sys.argv[2:]:
            print('made', make(f))
    else:
        attempt(sys.argv[2], sys.argv[3:])
