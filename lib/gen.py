"""Bounded replay of generated parsers: the grammars of the corpus are compiled with /repo's `oak!`, their parsers and
recognizers run on inputs, and what they do compared with the reference interpreter (lib/peg.py)."""
import fcntl, os, re, subprocess, sys, time
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(HERE, 'lib'))
import replay as rp, corpus, peg
BUILD = rp.BUILD

class NotBuilt(Exception):
    pass

def write(p, t):
    if not os.path.exists(p) or open(p, encoding='utf-8').read() != t:
        open(p, 'w', encoding='utf-8').write(t)

def build(entries, name='gen'):
    """-> (executable, kept entries, [(entry, error)], table (entry index, rule, is parser))"""
    os.makedirs(BUILD, exist_ok=True)
    with open(os.path.join(BUILD, 'lock'), 'w') as lk:
        fcntl.flock(lk, fcntl.LOCK_EX)
        d = rp.crate('gen')
        if name != 'gen':
            import shutil
            d2 = d + '_' + name
            shutil.copytree(d, d2, dirs_exist_ok=True)
            d = d2
            t = open(os.path.join(d, 'Cargo.toml')).read().replace('replay_gen', 'replay_gen_' + name)
            write(os.path.join(d, 'Cargo.toml'), t)
        kept, dropped = list(range(len(entries))), []
        for attempt in range(6):
            mods, table, arms = [], [], []
            for i in kept:
                e = entries[i]
                write(os.path.join(d, 'src', 'g%03d.rs' % i), '// %s\nuse oak::oak;\nuse crate::{Show, act, Node, Kind, Enum};\nuse oak_runtime::*;\noak! {\n%s}\n' % (e.name, e.text))
                mods.append('mod g%03d;\n' % i)
                for r, _ in e.g.rules:
                    for p in ('recognize', 'parse'):
                        arms.append('  %d => run(text, g%03d::%s_%s),\n' % (len(table), i, p, r))
                        table.append((i, r, p == 'parse'))
            write(os.path.join(d, 'src', 'mods.rs'), ''.join(mods) + 'fn dispatch(k: usize, text: &str) -> String { match k {\n' + ''.join(arms) + '  _ => unreachable!() } }\n')
            p = subprocess.run(['cargo', 'build', '--offline', '--quiet', '--message-format', 'short'], cwd=d, env=rp.env(), stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=800)
            out = p.stdout.decode('utf-8', 'replace')
            if p.returncode == 0:
                import shutil
                exe = os.path.join(BUILD, 'target', 'debug', 'replay_gen' + ('' if name == 'gen' else '_' + name))
                return exe, kept, dropped, table
            bad = {}
            for m in re.finditer(r'(?m)^src/g(\d+)\.rs:\d+:\d+: error(.*)$', out):
                bad.setdefault(int(m.group(1)), m.group(2))
            if not bad:
                raise NotBuilt('the generated parsers do not build: ' + out[-800:])
            for i, m in bad.items():
                if i in kept:
                    kept.remove(i)
                    dropped.append((entries[i], m))
            if not kept:
                raise NotBuilt('no grammar of the corpus compiles: ' + str(list(bad.items())[0]))
    raise NotBuilt('the generated parsers do not build')

def execute(exe, cases, timeout=120):
    """one line per case; a case in which the parser does not end or takes the process down gets a line saying so"""
    out, start = [], 0
    for attempt in range(4):
        todo = cases[start:]
        t0 = time.time()
        p = subprocess.Popen([exe], stdin=subprocess.PIPE, stdout=subprocess.PIPE, stderr=subprocess.PIPE)
        try:
            so, se = p.communicate('\x01'.join('%d\x02%s' % c for c in todo).encode('utf-8'), timeout=timeout if attempt == 0 else 30)
            why = 'the process ended with %d' % p.returncode
        except subprocess.TimeoutExpired:
            p.kill()
            so, se = p.communicate()
            why = 'no end within %d s' % (time.time() - t0)
        lines = so.decode('utf-8', 'replace').split('\n')[:-1]
        out += lines[:len(todo)]
        if len(lines) == len(todo):
            return out
        out.append('panic ' + why)
        start = len(out)
        if start >= len(cases):
            return out
    return out + ['skipped'] * (len(cases) - len(out))

def esc(s):
    return ''.join(peg.esc(c) for c in s)

def blen(s):
    return len(s.encode('utf-8'))

def byte_value(v, off):
    if isinstance(v, list):
        return [byte_value(x, off) for x in v]
    if isinstance(v, tuple) and v:
        if v[0] in ('span', 'range'):
            return (v[0], off[v[1]], off[v[2]])
        if v[0] == 'tuple':
            return ('tuple', [byte_value(x, off) for x in v[1]])
        if v[0] == 'call':
            return ('call', v[1], [byte_value(x, off) for x in v[2]])
        if v[0] == 'Some':
            return ('Some', byte_value(v[1], off))
    return v

def expected(e, rule, s, parser):
    ok, at, far, val = e.g.run(rule, s)
    off = [0]
    for c in s:
        off.append(off[-1] + blen(c))
    fp, what = far if far[0] > 0 else (0, far[1] if far[0] == 0 else frozenset())
    ty = e.g.rule[rule].ty
    data = '-' if not ok else '()' if not parser or ty == peg.UNIT else esc(peg.debug(byte_value(val, off)))
    kind = 'failure' if not ok else 'full' if at == len(s) else 'partial'
    return dict(ok='true' if ok else 'false', at=str(off[at]) if ok else None, far=str(off[fp]), what='\x02'.join(sorted(esc(x) for x in what)), data=data, kind=kind)

FIELDS = ('ok', 'at', 'far', 'what', 'data', 'kind')
# which observations decide which property
WANT = {'C19': ('ok', 'at', 'kind'), 'C20': ('ok', 'at', 'data', 'kind'), 'C21': ('far', 'what'), 'C22': ('ok', 'data'), 'C24': ('ok', 'at', 'data')}

def has(e, rule, kinds, seen=None):
    seen = set() if seen is None else seen
    if rule in seen:
        return False
    seen.add(rule)
    return any(n.k in kinds or n.k == 'nt' and has(e, n.a, kinds, seen) for n in peg.walk(e.g.rule[rule]))

def relevant(pid, e, rule, parser):
    if pid == 'C19':
        return not parser
    if pid == 'C20':
        return parser
    if pid == 'C22':
        return parser and has(e, rule, ('action',))
    if pid == 'C24':
        return parser and has(e, rule, ('span', 'range'))
    if pid == 'C10':
        return has(e, rule, ('class',))
    return True

def cached(entries_key):
    pass

def replay_files(files, pid, seed, budget, name='gen'):
    entries = []
    for f in files:
        entries += corpus.load(f)
    if pid == 'C10':
        entries.append(corpus.classes(seed, 160 if budget < 500 else 600))
    if name == 'gen' and pid != 'C10':
        entries += corpus.large(seed)
    if pid in ('C22', 'C20') and name == 'gen':
        entries.append(corpus.Paths())
    exe, kept, dropped, table = build(entries, name)
    cases, meta = [], []
    for k, (i, r, parser) in enumerate(table):
        e = entries[i]
        if not relevant(pid, e, r, parser):
            continue
        texts = corpus.class_inputs(e, r) if e.name == 'classes' else corpus.inputs(e, r, seed, budget) + corpus.pumped(e, r, seed, 3 if budget < 500 else 12)
        for s in texts:
            if '\x01' in s or '\x02' in s:
                continue
            cases.append((k, s))
            meta.append((e, r, parser, s))
    lines = execute(exe, cases)
    return entries, kept, dropped, list(zip(meta, lines))

def replay_run(pid, tier, seed):
    R = rp.Replay()
    want = WANT.get(pid, FIELDS)
    files = list(corpus.FILES)
    budget = 90 if tier == 'quick' else 900
    try:
        entries, kept, dropped, res = replay_files(files, pid, seed, budget)
    except (NotBuilt, subprocess.TimeoutExpired) as ex:
        R.error = str(ex)
        return R
    R.rule = ('grammars of corpus/%s compiled with oak!; and grammars with long literals, classes, choices and sequences, deep nesting and many rules; each rule on every short text over the characters it mentions and on random texts, %d per rule, and on texts that repeat a piece some hundred times; '
              'non-trivial: the expected outcome is a match of at least one character, or a failure past the start' % (', corpus/'.join(files), budget))
    R.cmd = 'replay/gen (lib/gen.py) against lib/peg.py'
    for (e, r, parser, s), line in res:
        if line == 'skipped':
            continue
        R.evaluations += 1
        try:
            x = expected(e, r, s, parser)
        except RecursionError:
            R.evaluations -= 1
            continue
        if e.name == 'classes' and x['ok'] == 'true':
            x['data'] = None      # how Debug escapes a character is no matter of ours
        got = dict(zip(FIELDS, line.split('\t'))) if not line.startswith('panic') else None
        nt = x['ok'] == 'true' and x['at'] != '0' or x['far'] != '0'
        R.nontrivial += nt
        if nt and len(R.samples) < 3 and R.nontrivial % 1013 == 7:
            R.samples.append('%s/%s on %r: %s' % (e.name, r, s, line))
        if got is None:
            bad = all_bad = [line]
        else:
            all_bad = [f for f in FIELDS if x[f] is not None and got[f] != x[f]]
            bad = ['%s: got %r, reference %r' % (f, got[f], x[f]) for f in all_bad if f in want]
        if all_bad and not bad:
            R.elsewhere += 1
        if bad and len(R.failures) < 5:
            rule = peg.show(e.g.rule[r])
            R.failures.append('%s_%s of grammar %s (%s = %s) on %r -- %s' % ('parse' if parser else 'recognize', r, e.name, r, rule, s, '; '.join(bad)))
    if dropped:
        import oakx
        notes = []
        for (e, m), o in zip(dropped, oakx.run([e.text for e, _ in dropped])):
            # the grammar is refused: no matter of the back end. Accepted, but no parser comes out: the back end's
            if any(d['level'] == 'error' for d in o.get('diags', [])) or o.get('syntax_error') or o.get('crash') and not o.get('typed'):
                notes.append('%s is refused' % e.name)
            elif any(relevant(pid, e, r, p) for r, _ in e.g.rules for p in (False, True)):
                R.failures.append('grammar %s is accepted and no parser comes out of it: %s' % (e.name, (o.get('panic') or m)[:200]))
        if notes and not R.failures:
            R.error = 'grammars of the corpus are refused now: ' + ', '.join(notes)[:300]
        R.failures = R.failures[:6]
    return R

def replay(arg, tier, seed):
    return replay_run(arg, tier, seed)

if __name__ == '__main__':
    t = time.time()
    R = replay_run(sys.argv[1], os.environ.get('VERIF_TIER', 'quick'), 1)
    print(R.evaluations, R.nontrivial, R.error, '%.1fs' % (time.time() - t))
    print('\n'.join(R.failures))
    print('\n'.join(R.samples))
