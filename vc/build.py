"""Build /repo's current tree (a copy of its tracked files) for wasm32 and emit the MIR of the crates a check needs."""
import os, re, subprocess, hashlib, shutil, glob, json, time, fcntl
from . import exec as ex

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get('VC_REPO', '/repo')
CACHE = os.environ.get('VC_CACHE') or os.path.join(VERIF, '.cache')
SRC = os.path.join(CACHE, 'src')
REL = os.path.join(SRC, 'target/wasm32-unknown-unknown/release')

# package, crate name, directory, extra cargo arguments
PKGS = {
    'token': ('soroban-token-contract', 'soroban_token_contract', 'contracts/token', []),
    'stake_rewards': ('phoenix-stake-rewards', 'phoenix_stake_rewards', 'contracts/stake_rewards', []),
    'stake': ('phoenix-stake', 'phoenix_stake', 'contracts/stake', []),
    'pool': ('phoenix-pool', 'phoenix_pool', 'contracts/pool', []),
    'pool_stable': ('phoenix-pool-stable', 'phoenix_pool_stable', 'contracts/pool_stable', []),
    'factory': ('phoenix-factory', 'phoenix_factory', 'contracts/factory', []),
    'multihop': ('phoenix-multihop', 'phoenix_multihop', 'contracts/multihop', []),
    'trader': ('phoenix-trader', 'phoenix_trader', 'contracts/trader', []),
    'vesting': ('phoenix-vesting', 'phoenix_vesting', 'contracts/vesting', ['--features', 'minter']),
    'curve': ('curve', 'curve', 'packages/curve', []),
    'decimal': ('soroban-decimal', 'soroban_decimal', 'packages/decimal', []),
    'phoenix': ('phoenix', 'phoenix', 'packages/phoenix', []),
}
WASM2KEY = {v[1] + '.wasm': k for k, v in PKGS.items()}
LIBS = ('curve', 'decimal', 'phoenix')


class BuildError(Exception):
    pass


def tracked():
    out = subprocess.run(['git', '-C', REPO, 'ls-files', '-z', '-co', '--exclude-standard'], stdout=subprocess.PIPE, check=True).stdout
    return [f for f in out.decode().split('\0') if f and os.path.isfile(os.path.join(REPO, f))]


def sync():
    """mirror the working tree into the cache (only changed files are rewritten)"""
    os.makedirs(SRC, exist_ok=True)
    files = set(tracked())
    h = hashlib.sha256()
    for f in sorted(files):
        a, b = os.path.join(REPO, f), os.path.join(SRC, f)
        data = open(a, 'rb').read()
        h.update(f.encode() + b'\0' + hashlib.sha256(data).digest())
        try:
            same = open(b, 'rb').read() == data
        except OSError:
            same = False
        if not same:
            os.makedirs(os.path.dirname(b), exist_ok=True)
            with open(b, 'wb') as o:
                o.write(data)
    for d, ds, fs in os.walk(SRC):
        rel = os.path.relpath(d, SRC)
        if rel == '.':
            ds[:] = [x for x in ds if x not in ('target', '.git')]
        for f in fs:
            p = os.path.normpath(os.path.join(rel, f))
            if p not in files:
                os.unlink(os.path.join(d, f))
    return h.hexdigest()


def seed():
    """reuse already compiled third-party crates of /repo/target when it is there (cargo re-checks them)"""
    t = os.path.join(SRC, 'target')
    if os.path.exists(os.path.join(t, '.seeded')):
        return
    os.makedirs(t, exist_ok=True)
    for d in ('release', 'wasm32-unknown-unknown/release'):
        for x in ('deps', 'build', '.fingerprint'):
            s = os.path.join(REPO, 'target', d, x)
            o = os.path.join(t, d, x)
            if os.path.isdir(s) and not os.path.exists(o):
                os.makedirs(os.path.dirname(o), exist_ok=True)
                subprocess.run(['cp', '-a', s, o], check=False)
    open(os.path.join(t, '.seeded'), 'w').write('')


def wasm_deps(key):
    """contracts whose wasm this crate imports"""
    d = os.path.join(SRC, PKGS[key][2], 'src')
    out = set()
    for r, ds, fs in os.walk(d):
        ds[:] = [x for x in ds if x != 'tests']
        for f in fs:
            if f.endswith('.rs') and f != 'tests.rs':
                for w in re.findall(r'([a-z0-9_]+\.wasm)', open(os.path.join(r, f)).read()):
                    if w in WASM2KEY:
                        out.add(WASM2KEY[w])
    out.discard(key)
    return out


def imports_of(key):
    """module name -> crate, from contractimport! declarations"""
    d = os.path.join(SRC, PKGS[key][2], 'src')
    res = {}
    for r, ds, fs in os.walk(d):
        ds[:] = [x for x in ds if x != 'tests']
        for f in fs:
            if not f.endswith('.rs'):
                continue
            s = open(os.path.join(r, f)).read()
            for m in re.finditer(r'mod\s+(\w+)\s*\{(.*?)contractimport!\s*\((.*?)\)', s, re.S):
                if '}' in m.group(2).replace('{', ''):
                    pass
                w = re.search(r'([a-z0-9_]+)\.wasm', m.group(3))
                if w:
                    res[m.group(1)] = w.group(1)
    return res


def closure(keys):
    need, todo = set(), list(keys)
    while todo:
        k = todo.pop()
        if k in need:
            continue
        need.add(k)
        todo.extend(wasm_deps(k))
    order = []

    def visit(k, seen=()):
        if k in order or k in seen:
            return
        for d in sorted(wasm_deps(k)):
            visit(d, seen + (k,))
        order.append(k)
    for k in sorted(need):
        visit(k)
    return order


def build(keys, log=None):
    """-> (source hash, seconds). Builds the crates `keys` with everything they import."""
    t0 = time.time()
    os.makedirs(CACHE, exist_ok=True)
    lock = open(os.path.join(CACHE, 'lock'), 'w')
    fcntl.flock(lock, fcntl.LOCK_EX)
    try:
        h = sync()
        seed()
        env = dict(os.environ)
        env.update(RUSTUP_TOOLCHAIN='1.79.0', CARGO_NET_OFFLINE='true', CARGO_TERM_COLOR='never', CARGO_INCREMENTAL='0',
                   RUSTC_WORKSPACE_WRAPPER=os.path.join(VERIF, 'vc/rustc_wrap.sh'), HOME='/root', RUSTC_WRAPPER='')
        env['PATH'] = '/root/.cargo/bin:/usr/local/cargo/bin:' + env.get('PATH', '/usr/bin:/bin')
        for v in ('CARGO_TARGET_DIR', 'RUSTFLAGS'):
            env.pop(v, None)
        order = closure(keys)
        stamps = os.path.join(CACHE, 'stamps')
        os.makedirs(stamps, exist_ok=True)
        for k in order:
            pkg, crate, d, extra = PKGS[k]
            # cargo does not see imported wasm files
            sums = ''.join(hashlib.sha256(open(os.path.join(REL, PKGS[w][1] + '.wasm'), 'rb').read()).hexdigest() for w in sorted(wasm_deps(k)))
            sf = os.path.join(stamps, k)
            old = open(sf).read() if os.path.exists(sf) else None
            if old != sums:
                for p in glob.glob(os.path.join(REL, '.fingerprint', pkg + '-' + '?' * 16)):
                    shutil.rmtree(p, ignore_errors=True)
            cmd = ['cargo', 'build', '--offline', '--locked', '--release', '--target', 'wasm32-unknown-unknown', '-p', pkg] + extra
            p = subprocess.run(cmd, cwd=SRC, env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
            if p.returncode != 0:
                raise BuildError('building %s failed:\n%s' % (pkg, p.stdout.decode()[-3000:]))
            open(sf, 'w').write(sums)
            if not mir_path(k):
                for p in glob.glob(os.path.join(REL, '.fingerprint', pkg + '-' + '?' * 16)):
                    shutil.rmtree(p, ignore_errors=True)
                p = subprocess.run(cmd, cwd=SRC, env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
                if p.returncode != 0 or not mir_path(k):
                    raise BuildError('no MIR for ' + pkg)
        for l in LIBS:
            if not mir_path(l):
                pkg = PKGS[l][0]
                for p in glob.glob(os.path.join(REL, '.fingerprint', pkg + '-' + '?' * 16)):
                    shutil.rmtree(p, ignore_errors=True)
                p = subprocess.run(['cargo', 'build', '--offline', '--locked', '--release', '--target', 'wasm32-unknown-unknown', '-p', pkg],
                                   cwd=SRC, env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
                if p.returncode != 0:
                    raise BuildError('building %s failed:\n%s' % (pkg, p.stdout.decode()[-3000:]))
        return h, time.time() - t0
    finally:
        fcntl.flock(lock, fcntl.LOCK_UN)
        lock.close()


def mir_path(key):
    crate = PKGS[key][1]
    c = glob.glob(os.path.join(REL, 'deps', crate + '.mir')) + glob.glob(os.path.join(REL, 'deps', crate + '-*.mir'))
    if not c:
        return None
    return max(c, key=os.path.getmtime)


def world(key):
    pkg, crate, d, _ = PKGS[key]
    mirs = {crate: mir_path(key)}
    src = {crate: os.path.join(SRC, d, 'src')}
    for l in LIBS:
        if l != key:
            mirs[PKGS[l][1]] = mir_path(l)
            src[PKGS[l][1]] = os.path.join(SRC, PKGS[l][2], 'src')
    imp = imports_of(key) if key not in LIBS else {}
    for c in set(imp.values()):
        k = WASM2KEY.get(c + '.wasm')
        if k:
            src.setdefault(c, os.path.join(SRC, PKGS[k][2], 'src'))
    mirs = {c: p for c, p in mirs.items() if p}
    return ex.World(SRC, crate, mirs, src, imp, LIBS)


def entries(W):
    """public entry points of a contract: name -> Fn, from the functions the host calls"""
    out = {}
    m = W.mirs[W.crate]
    for name, (kind, raw) in m.items.items():
        mm = re.match(r'(?:\w+::)*__(\w+)::invoke_raw$', name)
        if not mm or kind != 'fn':
            continue
        f = m.get(name)
        for b, ss in f.blocks.items():
            from . import mir
            t = mir.stmt(ss[-1])
            if t[0] == 'call':
                c = ex.norm(t[2])
                if c.split('::')[-1] == mm.group(1):
                    fn = W.find_fn(c, W.crate)
                    if fn is None:      # trait named through an alias: the one method of that name taking the Env itself
                        c2 = [m.get(n) for n, (k, _) in m.items.items() if k == 'fn' and '<impl at' in n and n.endswith('>::' + mm.group(1))]
                        c2 = [g for g in c2 if g.args and ex.lastseg(g.locals[g.args[0]]) == 'Env' and not g.locals[g.args[0]].startswith('&')]
                        fn = c2[0] if len(c2) == 1 else None
                        if fn is None:
                            raise BuildError('entry point %s not resolved' % c)
                    if fn is not None:
                        out[mm.group(1)] = fn
    return out
