#!/usr/bin/env python3
"""check.py PROPERTY -- decides one property on /repo's current source.

  1. contracts: the functions the property depends on are taken out of /repo, their contracts put on, and Verus is
     run on the result (twice: the second time with `assert(false)` at every function entry and loop head, which must
     fail: no precondition or invariant is contradictory);
  2. replay: the same contracts as executable oracles against the compiled code, on a bounded set of inputs. It is
     what turns a failed obligation into a failing input where there is one.

exit 1 and a VIOLATION line: the replay has a failing input, or an obligation generated from the current source is
refuted. An obligation that cannot be posed (the code left the verifier's reach, or its contract lost its anchor) is
undecided: that is said on stdout and in the evidence, and the bounded replay stands in.
"""
import concurrent.futures as cf, importlib, json, os, re, subprocess, sys, time, traceback
HERE = os.path.dirname(os.path.abspath(__file__))
sys.path[:0] = [os.path.join(HERE, 'lib'), os.path.join(HERE, 'contracts')]
import vx, replay, props

TIER = os.environ.get('VERIF_TIER', 'quick')
SEED = int(os.environ.get('VERIF_SEED', '1') or 1)
WORK = os.path.join(HERE, 'build', 'verus')

class UnitResult:
    pass

def fn_of(name):
    return name.split('::', 1)[1] if '::' in name else name

def run_unit(uname, want, pid, canaries=True):
    U = UnitResult()
    U.name = uname
    U.undecided = []
    U.refuted = []
    U.fns = []
    U.obligations = U.discharged = 0
    U.smt_ms = 0
    U.assumed = []
    U.drops = []
    U.wall = 0
    U.cmd = ''
    mod_name, _, arg = uname.partition(':')     # module, or module:argument
    file = uname.replace(':', '_')
    d = os.path.join(WORK, pid, file)
    os.makedirs(d, exist_ok=True)
    if want is not None and not callable(want):
        names = want
        want = lambda lab, clause=None: lab in names
    else:
        names = ()
    try:
        mod = importlib.import_module(mod_name)
        make = (lambda: mod.unit(arg)) if arg else mod.unit
        u = make()
        text = u.render()
        umap = u.map
        u2 = make()
        canary = u2.render(True)
    except vx.Unsupported as e:
        U.undecided.append('%s: %s' % (uname, e))
        return U
    except Exception as e:
        U.undecided.append('%s: extraction failed: %s' % (uname, traceback.format_exc(limit=3).replace('\n', ' | ')))
        return U
    p = os.path.join(d, file + '.rs')
    q = os.path.join(d, file + '_canary.rs')
    open(p, 'w').write(text)
    open(q, 'w').write(canary)
    extra = []
    with cf.ThreadPoolExecutor(2) as ex:
        f1 = ex.submit(vx.run_verus, p, extra, 600)
        f2 = ex.submit(vx.run_verus, q, [], 600) if canaries else None
        R, C = f1.result(), f2.result() if f2 else None
    U.cmd = R.cmd.replace(HERE + '/', '')
    U.wall = R.wall
    U.smt_ms = R.smt_ms
    U.src = p
    U.drops = sorted(u.drops)
    U.assumed = sorted(u.assumed) + [a for a in scan_assumed(text)]
    U.inlined = sorted(set(u.inlined))
    lines = text.split('\n')
    mine = [(lo, hi, lab) for lo, hi, lab, f in umap if want is None or want(lab)]
    have = {lab for _, _, lab in mine}
    for w in sorted(names):
        if w not in have and w.split('::')[-1] != 'clone':
            U.undecided.append('%s: no contract is attached to %s' % (uname, w))
    sem, lim = vx.classify(R, os.path.basename(p))
    label = lambda ln: next((lab for lo, hi, lab, f in umap if ln and lo <= ln <= hi), None)
    for ln, msg, rendered, spans in lim:
        lab = label(ln)
        U.undecided.append('%s%s: %s' % (uname, ' ' + lab if lab else '', msg.split('\n')[0]))
    failed = set()
    for ln, msg, rendered, spans in sem:
        lab = label(ln)
        if lab is None:
            lab = next((label(s['line_start']) for s in spans if label(s['line_start'])), None)
        if lab is None:
            U.undecided.append('%s: %s outside any extracted function (line %s)' % (uname, msg, ln))
            continue
        failed.add(lab)
        if lab in have:
            clause = '; '.join(s['text'][0]['text'].strip() for s in spans if s.get('text'))
            if want is None or want(lab, clause):
                U.refuted.append((lab, msg, clause[:300], rendered))
    if not R.success and not sem and not lim:
        U.undecided.append('%s: the verifier gave no verdict: %s' % (uname, (R.stderr or R.stdout)[-300:]))
    # vacuity
    csem, clim = vx.classify(C, os.path.basename(q)) if C else ([], [])
    cl = canary.split('\n')
    canary_hits = 0
    hit_lines = set()
    for ln, msg, rendered, spans in csem:
        for s in spans:
            if 'vx_canary' in cl[s['line_start'] - 1]:
                hit_lines.add(s['line_start'])
    U.canaries = 0
    for lo, hi, lab, f in u2.map if C else ():
        if want is not None and not want(lab):
            continue
        for n in range(lo, hi + 1):
            if 'vx_canary' in cl[n - 1]:
                U.canaries += 1
                if n not in hit_lines and R.success:
                    U.undecided.append('%s: %s is vacuous (assert(false) is provable at its entry or in its loop)' % (uname, lab))
    # what was discharged, from the verifier's own account
    for fb in R.functions:
        nm = fn_of(fb['function'])
        U.obligations += 1
        if fb.get('success'):
            U.discharged += 1
    for lo, hi, lab in mine:
        U.fns.append({'function': lab, 'verified': lab not in failed and (R.success or bool(R.functions)), 'clauses': clauses(lines[lo - 1:hi])})
    return U

def clauses(ls):
    n = 0
    for l in ls:
        if l.strip() == '{':
            break
        n += 1
    return n

def scan_assumed(text):
    """mechanical scan of the verified text for what is trusted"""
    out = []
    for m in re.finditer(r'#\[verifier::external_body\]\s*(?:#\[[^\]]*\]\s*)*(pub (?:proof )?(?:fn|struct) [\w]+|fn \w+)', text):
        out.append('external_body: ' + m.group(1))
    for m in re.finditer(r'assume_specification[^\[]*\[\s*([^\]]*?)\s*\]', text):
        out.append('assume_specification: ' + m.group(1).strip())
    if re.search(r'\b(assume|admit)\s*\(', text):
        out.append('assume/admit present')
    for m in re.finditer(r'\buninterp spec fn (\w+)', text):
        out.append('uninterpreted: ' + m.group(1))
    for m in re.finditer(r'#\[verifier::(external|exec_allows_no_decreases_clause|loop_isolation\(false\))\]', text):
        out.append('attribute ' + m.group(1))
    return sorted(set(out))

def main():
    pid = sys.argv[1]
    t0 = time.time()
    P = props.PROPS[pid]
    os.makedirs(os.path.join(HERE, 'evidence'), exist_ok=True)
    os.makedirs(os.path.join(HERE, 'build', 'replays'), exist_ok=True)
    units, rp = [], None
    todo = P.units(TIER) if callable(P.units) else P.units
    with cf.ThreadPoolExecutor(8) as ex:
        frep = ex.submit(replay.run, P.replay, TIER, SEED) if P.replay else None
        fu = [ex.submit(run_unit, u, w, pid, P.canaries(u, TIER)) for u, w in todo.items()]
        extra = ex.submit(P.extra, TIER, SEED) if getattr(P, 'extra', None) else None
        units = [f.result() for f in fu]
        if extra is not None:
            units += extra.result()
        rp = frep.result() if frep else None
    if any(U.refuted for U in units) and TIER == 'quick' and rp and not rp.error and not rp.failures and not rp.elsewhere and time.time() - t0 < 300:
        # an obligation is refuted and no input is at hand: look further
        more = replay.run(P.replay, 'thorough', SEED + 1)
        if not more.error:
            more.evaluations += rp.evaluations
            more.nontrivial += rp.nontrivial
            rp = more
    undecided = [x for U in units for x in U.undecided]
    refuted = [(U, r) for U in units for r in U.refuted]
    known = load_known(pid)
    violation = None
    rpath = os.path.join(HERE, 'build', 'replays', pid + '.txt')
    fresh, old = [], []
    if rp and rp.failures:
        for f in rp.failures:
            (old if any(k in f for k in known) else fresh).append(f)
    for k in known:
        if any(k in f for f in old):
            print('KNOWN-FINDING: property=%s %s' % (pid, k))
    if fresh:
        violation = 'input'
        body = 'property %s\nfailing inputs against the compiled code of /repo (%s):\n' % (pid, rp.cmd)
        body += ''.join('  %s\n' % f for f in fresh)
        if refuted:
            body += '\nobligations refuted on the same source:\n'
    elif refuted and rp and rp.elsewhere:
        # one specification carries several properties; the running code is wrong in what another one is about
        undecided.append('%d obligations refuted, and the compiled code differs from the reference only in what other properties are about (%d cases)' % (len(refuted), rp.elsewhere))
        refuted = []
    elif refuted:
        violation = 'proof'
        body = 'property %s\nobligations generated from /repo\'s current source that the verifier refutes:\n' % pid
    if violation:
        for U, (lab, msg, clause, rendered) in refuted:
            body += '  %s :: %s -- %s: %s\n' % (U.name, lab, msg, clause)
        for U, (lab, msg, clause, rendered) in refuted:
            body += '\n---- %s (%s), %s\n%s\n' % (lab, U.name, U.cmd, rendered)
        open(rpath, 'w').write(body)
    for x in undecided:
        print('UNDECIDED: property=%s %s' % (pid, x[:400]))
    if rp and rp.error:
        print('UNDECIDED: property=%s replay: %s' % (pid, rp.error[:400]))
    write_evidence(pid, P, units, rp, refuted, undecided, fresh, t0)
    ob = sum(U.obligations for U in units)
    di = sum(U.discharged for U in units)
    print('%s: %d functions under contract, %d/%d obligations discharged, %d undecided; replay: %s; %.1fs'
          % (pid, sum(len(U.fns) for U in units), di, ob, len(undecided), ('%d cases, %d failures' % (rp.evaluations, len(rp.failures))) if rp and not rp.error else 'none', time.time() - t0))
    if violation == 'input':
        print('VIOLATION property=%s replay=%s' % (pid, rpath))
        sys.exit(1)
    if violation == 'proof':
        print('VIOLATION property=%s replay=%s no-failing-input-found' % (pid, rpath))
        sys.exit(1)
    sys.exit(0)

def load_known(pid):
    out = []
    p = os.path.join(HERE, 'known-findings.txt')
    if os.path.exists(p):
        for l in open(p):
            m = re.match(r'finding: property=(\S+) (.*)', l.strip())
            if m and m.group(1) == pid:
                out.append(m.group(2))
    return out

def write_evidence(pid, P, units, rp, refuted, undecided, fresh, t0):
    fns = [dict(f, unit=U.name) for U in units for f in U.fns]
    cov = {
        'obligations': sum(U.obligations for U in units),
        'discharged': sum(U.discharged for U in units),
        'checker_cmd': '; '.join(U.cmd for U in units if U.cmd) or 'none',
        'trusted_base': sorted(set(P.trusted)),
        'functions_under_contract': fns,
        'back_end': 'Verus (Z3)',
        'solver_ms': sum(U.smt_ms for U in units),
        'vacuity_canaries': sum(getattr(U, 'canaries', 0) for U in units),
        'helpers_inlined': sorted({x for U in units for x in getattr(U, 'inlined', [])}),
        'undecided': undecided,
    }
    if rp:
        cov['bounded_replay'] = {'label': 'bounded, not counted as proved', 'command': rp.cmd, 'error': rp.error, 'rule': rp.rule}
        cov['evaluations'] = rp.evaluations
        cov['distinct_nontrivial'] = rp.nontrivial
        cov['rule'] = rp.rule
        cov['samples'] = rp.samples
    if P.level == 'translation_validation':
        progs = [U for U in units if U.fns and ':' in U.name]
        ok = [U.name.split(':')[1] for U in progs if U.obligations == U.discharged and not U.undecided]
        cov['programs'] = len(progs)
        cov['programs_proved_for_all_inputs'] = ok
        cov['disagreements_checked'] = cov.pop('evaluations', 0)      # runs of the compiled parsers compared with the reference
        cov['samples'] = cov.get('samples') or ok[:3]
    for U in units:
        for k, v in getattr(U, 'cov', {}).items():
            cov[k] = v
    ev = {'property': pid, 'tier': TIER if TIER in ('quick', 'thorough') else 'quick', 'seed': SEED, 'level': P.level, 'coverage': cov,
          'assumptions': sorted({a for U in units for a in U.assumed}) + ['extraction drops: ' + d for d in sorted({d for U in units for d in U.drops})],
          'wall_s': round(time.time() - t0, 2), 'violations': len(refuted) + len(fresh)}
    json.dump(ev, open(os.path.join(HERE, 'evidence', pid + '.json'), 'w'), indent=1)

if __name__ == '__main__':
    main()
