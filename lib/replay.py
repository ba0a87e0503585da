"""Builds the replay crates against /repo's working tree and runs them."""
import fcntl, json, os, shutil, subprocess, time
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
BUILD = os.path.join(HERE, 'build')

class Replay:
    def __init__(self):
        self.evaluations = self.nontrivial = 0
        self.samples, self.failures = [], []
        self.rule = self.cmd = ''
        self.error = None
        self.elsewhere = 0     # cases that go wrong in what another property is about

def env():
    e = dict(os.environ)
    e.update(RUSTUP_TOOLCHAIN='1.80.0', RUSTC_BOOTSTRAP='1', CARGO_NET_OFFLINE='true', CARGO_TERM_COLOR='never',
             CARGO_TARGET_DIR=os.path.join(BUILD, 'target'), RUSTC_WRAPPER='', TERM='xterm', RUST_BACKTRACE='0',
             PATH='/root/.cargo/bin:' + e.get('PATH', '/usr/bin:/bin'))
    e.setdefault('HOME', '/root')
    return e

def crate(name):
    """a scratch copy of the crate with the lock file /repo is built with (the path dependency stays /repo itself)"""
    src = os.path.join(HERE, 'replay', name)
    dst = os.path.join(BUILD, 'crates', name)
    os.makedirs(os.path.join(dst, 'src'), exist_ok=True)
    for base, ds, fs in os.walk(src):
        rel = os.path.relpath(base, src)
        if rel.startswith('target'):
            continue
        os.makedirs(os.path.join(dst, rel), exist_ok=True)
        for f in fs:
            a, b = os.path.join(base, f), os.path.join(dst, rel, f)
            data = open(a, 'rb').read()
            repo = os.environ.get('OAK_REPO')
            if repo and f == 'Cargo.toml':
                data = data.replace(b'"/repo', b'"' + repo.encode())
            if not os.path.exists(b) or open(b, 'rb').read() != data:
                open(b, 'wb').write(data)
    lock = os.path.join(HERE, 'replay', 'Cargo.lock.oak')
    if not os.path.exists(os.path.join(dst, 'Cargo.lock')):
        shutil.copy(lock, os.path.join(dst, 'Cargo.lock'))
    return dst

def build(name, timeout=600):
    os.makedirs(BUILD, exist_ok=True)
    with open(os.path.join(BUILD, 'lock'), 'w') as lk:
        fcntl.flock(lk, fcntl.LOCK_EX)
        d = crate(name)
        p = subprocess.run(['cargo', 'build', '--offline', '--quiet'], cwd=d, env=env(), stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=timeout)
    return p.returncode, p.stdout.decode('utf-8', 'replace')

def run(spec, tier, seed):
    kind, arg = spec[0], spec[1]
    R = Replay()
    if kind == 'both':
        import concurrent.futures as cf
        with cf.ThreadPoolExecutor(len(arg)) as ex:
            rs = list(ex.map(lambda a: run(a, tier, seed), arg))
        for a in rs:
            R.evaluations += a.evaluations
            R.nontrivial += a.nontrivial
            R.elsewhere += a.elsewhere
            R.samples += a.samples[:2]
            R.failures += a.failures
        R.rule = ' || '.join(a.rule for a in rs)
        R.cmd = ' and '.join(a.cmd for a in rs)
        R.error = '; '.join(a.error for a in rs if a.error) or None
        return R
    try:
        if kind == 'runtime':
            rc, out = build('runtime')
            if rc != 0:
                R.error = 'the replay crate does not build against this tree: ' + out[-800:]
                return R
            cmd = [os.path.join(BUILD, 'target', 'debug', 'replay_runtime'), arg]
            R.cmd = 'replay/runtime: replay_runtime ' + arg
        else:
            import importlib
            return importlib.import_module(kind).replay(arg, tier, seed)
        e = env()
        e.update(VERIF_TIER=tier, VERIF_SEED=str(seed))
        p = subprocess.run(cmd, env=e, stdout=subprocess.PIPE, stderr=subprocess.PIPE, timeout=700)
        j = json.loads(p.stdout.decode('utf-8', 'replace'))
        R.evaluations, R.nontrivial, R.rule, R.samples, R.failures = j['evaluations'], j['nontrivial'], j['rule'], j['samples'], j['failures']
    except subprocess.TimeoutExpired:
        R.error = 'timed out'
    except Exception as ex:
        R.error = 'replay failed to run: %r' % (ex,)
    return R
