"""mutate.py OUT WORKERS SECONDS [SEED] -- small random changes of /repo that build and pass the stable tests, tried against the checks.

Each worker has its own copy of /repo and /verif under /tmp/mw, bound over the real ones in a mount namespace of its own, so
nothing outside the copies is touched. OUT gets one JSON line per change: the change, and what the checks said."""
import json, os, random, re, subprocess, sys, threading, time
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(HERE, 'tools'))
from plant import passed, stable
RT = ['C01', 'C02', 'C03', 'C04', 'C05', 'C06', 'C07', 'C08', 'C09']
L = 'src/liboak/'
GENS = ['C19', 'C20', 'C21', 'C22', 'C24', 'C23', 'C10']
FILES = {'runtime/src/str_stream.rs': RT, 'runtime/src/file_map_stream.rs': RT, 'runtime/src/parse_state.rs': RT, 'runtime/src/lib.rs': RT,
         L + 'front/parser.rs': ['C11', 'C10'], L + 'front/ast.rs': ['C11', 'C10'], L + 'middle/analysis/duplicate.rs': ['C12'], L + 'middle/analysis/resolve_non_terminal.rs': ['C13'],
         L + 'middle/analysis/well_formedness.rs': ['C14'], L + 'middle/analysis/useless_chaining.rs': ['C16'], L + 'visitor.rs': ['C13', 'C14', 'C16', 'C17'], L + 'ast.rs': ['C12', 'C13', 'C14', 'C16', 'C17'],
         L + 'middle/typing/ast.rs': ['C17', 'C18'], L + 'middle/typing/type_rewriting.rs': ['C17', 'C18'], L + 'middle/typing/surface.rs': ['C17', 'C18'], L + 'middle/typing/depth.rs': ['C17', 'C18'],
         L + 'back/name_factory.rs': ['C23'], L + 'back/context.rs': GENS, L + 'back/continuation.rs': GENS, L + 'back/mod.rs': GENS}
for f in os.listdir('/repo/src/liboak/back/compiler'):
    FILES[L + 'back/compiler/' + f] = GENS

OPS = [(r' == ', [' != ']), (r' != ', [' == ']), (r' < ', [' <= ', ' > ']), (r' > ', [' >= ', ' < ']), (r' <= ', [' < ']), (r' >= ', [' > ']), (r' && ', [' || ']), (r' \|\| ', [' && ']),
       (r' \+ 1\b', ['', ' + 2']), (r' - 1\b', ['', ' - 2']), (r'\btrue\b', ['false']), (r'\bfalse\b', ['true']), (r'\.any\(', ['.all(']), (r'\.all\(', ['.any(']), (r'\.rev\(\)', ['']),
       (r'\bif (?!let)([^{]+) \{', [r'if !(\1) {']), (r'\b0\b', ['1']), (r'\b1\b', ['0']), (r'\bmin\b', ['max']), (r'\bmax\b', ['min']), (r' \|= ', [' &= ', ' = ']), (r' &= ', [' |= ', ' = ']), (r' \+= ', [' -= ']),
       (r'\.skip\(1\)', ['']), (r'\.take_while\(', ['.skip_while(']), (r'\bVisible\b', ['Invisible']), (r'\.push\(', ['.insert(0, ']), (r'\bunwrap_or\((\w+)\)', [r'unwrap_or(!\1)']),
       (r'\bsuccess\(', ['failure(']), (r'\bfailure\(', ['success(']), (r'\bis_failed\(', ['is_successful(']), (r'\bis_successful\(', ['is_failed(']), (r'\.restore\(', ['.restore_from_failure('])]

def mutants(rng):
    out = []
    for f in FILES:
        src = open('/repo/' + f).read()
        cut = src.find('#[cfg(test)]')
        lines = (src if cut < 0 else src[:cut]).split('\n')
        for i, l in enumerate(lines):
            if l.lstrip().startswith(('//', 'use ', 'pub use', '#', 'extern')):
                continue
            code = l.split('//')[0]
            for pat, reps in OPS:
                for m in re.finditer(pat, code):
                    for r in reps:
                        out.append((f, i, [l[:m.start()] + m.expand(r) + l[m.end():]], 1))
            if re.match(r'\s+(?!let|return|pub|fn|use|mod|type)[\w.]+[^{}]*;\s*$', l):
                out.append((f, i, [''], 1))
            if i + 1 < len(lines) and lines[i + 1].strip() and l.strip() and l.rstrip().endswith((';', ',')) and lines[i + 1].rstrip().endswith((';', ',')) and not l.lstrip().startswith(('let', 'pub')) and len(l) - len(l.lstrip()) == len(lines[i + 1]) - len(lines[i + 1].lstrip()):
                out.append((f, i, [lines[i + 1], l], 2))
    rng.shuffle(out)
    return out

def sh(c, t=900):
    try:
        p = subprocess.run(c, shell=True, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors='replace', timeout=t)
        return p.returncode, p.stdout
    except subprocess.TimeoutExpired:
        return 124, ''

lock = threading.Lock()
def worker(k, todo, out, end, base):
    w = '/tmp/mw/%d' % k
    os.makedirs(w, exist_ok=True)
    sh('rsync -a --delete /repo/ %s/repo/ 2>/dev/null || (rm -rf %s/repo && cp -a /repo %s/repo)' % (w, w, w))
    sh('rm -rf %s/verif && cp -a /verif %s/verif' % (w, w))
    run = lambda c, t=900: sh("unshare -Urm bash -c 'mount --bind %s/repo /repo && mount --bind %s/verif /verif && %s'" % (w, w, c), t)
    while time.time() < end:
        with lock:
            if not todo:
                return
            f, i, new, n = todo.pop()
        src = open('/repo/' + f).read()
        p = '%s/repo/%s' % (w, f)
        lines = src.split('\n')
        old = lines[i:i + n]
        lines[i:i + n] = new
        open(p, 'w').write('\n'.join(lines))
        rec = {'file': f, 'line': i + 1, 'old': old, 'new': new}
        try:
            rc, o = run('timeout 300 bash /opt/vp/build.sh', 320)
            if rc:
                rec['status'] = 'no build'
            else:
                run('timeout 300 bash /opt/vp/test.sh /verif/mut_out.json', 320)
                try:
                    got = passed(json.load(open(w + '/verif/mut_out.json')))
                except Exception:
                    got = set()
                if any(t not in got for t in base):
                    rec['status'] = 'tests fail'
                else:
                    rec['status'] = 'survives'
                    rec['checks'] = {}
                    for c in FILES[f]:
                        rc, o = run('cd /verif && timeout 900 python3 check.py %s' % c, 920)
                        v = [x for x in o.split('\n') if x.startswith(('VIOLATION', 'UNDECIDED'))]
                        rec['checks'][c] = [rc] + [x[:200] for x in v[:3]]
                        if rc == 1 and 'no-failing' not in ''.join(v):
                            break
        finally:
            open(p, 'w').write(src)
        if rec['status'] == 'survives':
            with lock:
                open(out, 'a').write(json.dumps(rec) + '\n')

if __name__ == '__main__':
    out, nw, secs = sys.argv[1], int(sys.argv[2]), int(sys.argv[3])
    rng = random.Random(int(sys.argv[4]) if len(sys.argv) > 4 else 1)
    base = stable(json.load(open('/opt/vp/BASELINE.json')))
    todo = mutants(rng)
    print(len(todo), 'changes')
    if len(sys.argv) > 5:
        todo = [t for t in todo if re.search(sys.argv[5], t[0])]
        print(len(todo), 'selected')
    end = time.time() + secs
    ts = [threading.Thread(target=worker, args=(k, todo, out, end, base)) for k in range(nw)]
    [t.start() for t in ts]
    [t.join() for t in ts]
