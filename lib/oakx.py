"""liboak (front, middle and back end) of /repo's working tree as a program that can be fed any number of grammars.

The sources are copied on every run into a scratch crate; what changes in the copy: lib.rs (the proc_macro entry) is
replaced by replay/oakx/src/main.rs, and `.unstable()` (the bridge to rustc's diagnostics, unavailable outside a macro
expansion) by a recorder of the same diagnostics; joining spans falls back to the first one where the fallback
implementation of proc_macro2 cannot join."""
import fcntl, json, os, re, shutil, subprocess, sys, tempfile, time
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import replay
REPO = os.environ.get('OAK_REPO', '/repo')
SEP = '\n\x01\n'

class Unavailable(Exception):
    pass

def sync(dst):
    src = os.path.join(REPO, 'src', 'liboak')
    want = set()
    for base, ds, fs in os.walk(src):
        rel = os.path.relpath(base, src)
        for f in fs:
            if not f.endswith('.rs') or (rel == '.' and f == 'lib.rs'):
                continue
            t = open(os.path.join(base, f), encoding='utf-8').read()
            t2 = re.sub(r'\.join\((.*)\)\.unwrap\(\)', r'.vx_join(\1).unwrap()', t.replace('.unstable()', '.vx_unstable()'))
            if t2 != t:
                t = t2 + '\n#[allow(unused_imports)] use vx_shim::VxUnstable as _;\n'
            p = os.path.normpath(os.path.join(dst, 'src', rel, f))
            want.add(p)
            os.makedirs(os.path.dirname(p), exist_ok=True)
            if not os.path.exists(p) or open(p, encoding='utf-8').read() != t:
                open(p, 'w', encoding='utf-8').write(t)
    main = os.path.join(dst, 'src', 'main.rs')
    for base, ds, fs in os.walk(os.path.join(dst, 'src')):
        for f in fs:
            p = os.path.join(base, f)
            if p not in want and p != main:
                os.remove(p)

def build():
    os.makedirs(replay.BUILD, exist_ok=True)
    with open(os.path.join(replay.BUILD, 'lock'), 'w') as lk:
        fcntl.flock(lk, fcntl.LOCK_EX)
        d = replay.crate('oakx')
        sync(d)
        p = subprocess.run(['cargo', 'build', '--offline', '--quiet'], cwd=d, env=replay.env(), stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=600)
        exe = os.path.join(replay.BUILD, 'target', 'debug', 'oakx')
        if p.returncode != 0:
            raise Unavailable('liboak does not build as a program: ' + p.stdout.decode('utf-8', 'replace')[-1500:])
    return exe

def feed(exe, grammars, stall):
    """-> what the program says of the first of the grammars, and how it ended (None: as it should)"""
    with tempfile.TemporaryFile() as i, tempfile.TemporaryFile() as o, tempfile.TemporaryFile() as e:
        i.write(SEP.join(grammars).encode('utf-8'))
        i.seek(0)
        p = subprocess.Popen([exe], stdin=i, stdout=o, stderr=e)
        size, t, end = 0, time.time(), None
        while True:
            try:
                p.wait(timeout=1)
                break
            except subprocess.TimeoutExpired:
                n = os.fstat(o.fileno()).st_size
                if n != size:
                    size, t = n, time.time()
                elif time.time() - t > stall:
                    p.kill()
                    p.wait()
                    end = 'no answer after %d s' % stall
        o.seek(0)
        e.seek(0)
        err = e.read().decode('utf-8', 'replace').strip()
        lines = o.read().decode('utf-8', 'replace').split('\n')
    if p.returncode != 0 and end is None:
        end = 'stack overflow' if 'overflowed its stack' in err else 'ended with %d: %s' % (p.returncode, err[-300:])
    return [json.loads(x) for x in lines[:-1]], lines[-1], end

def run(grammars, stall=60):
    """what liboak does with each of the grammars. Where it does not come back (it overflows its stack, aborts, or gives
    no answer), the answer is what was known until then, and 'crash' says how it ended; after 20 such grammars the rest is left."""
    exe = build()
    out, crashes = [], 0
    while len(out) < len(grammars):
        got, rest, end = feed(exe, grammars[len(out):], stall)
        out += got
        if end is None and len(out) != len(grammars):
            raise Unavailable('%d answers for %d grammars' % (len(out), len(grammars)))
        if end is None:
            break
        crashes += 1
        if len(out) >= len(grammars):
            raise Unavailable('liboak as a program: ' + end)
        try:
            o = json.loads(rest + '}')
        except ValueError:
            o = {}
        o.update(crash=end, panic='the compiler does not come back: ' + end)
        o.setdefault('diags', o.get('typing_diags', []))
        out.append(o)
        if crashes >= 20:
            break
    return out

if __name__ == '__main__':
    for r in run(sys.argv[1:]):
        c = r.pop('code', None)
        print(json.dumps(r, indent=1))
        if c:
            q = subprocess.run(['rustfmt', '--config', 'tab_spaces=2'], input=c.encode(), stdout=subprocess.PIPE)
            print(q.stdout.decode())
