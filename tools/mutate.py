"""Mutation experiment (not a check): sample one-token/one-statement mutants of the non-test sources of a crate, run the
checks of the properties it serves on a copy of the repository, and list the mutants no check reports.

    python3 mutate.py CRATE COUNT SEED WORKDIR [WORKERS]
"""
import os, re, random, subprocess, sys, json, shutil, threading, queue, time

PROPS = {
    'pool': 'C01 C03 C02 C04 C05 C06 C07 C11', 'pool_stable': 'C08 C10 C09 C03 C05 C06 C11',
    'stake': 'C15 C17 C16', 'stake_rewards': 'C18 C17 C15', 'token': 'C14', 'factory': 'C24 C25',
    'multihop': 'C26 C27', 'trader': 'C28', 'vesting': 'C19 C20 C21', 'curve': 'C22', 'decimal': 'C23',
    'phoenix': 'C11 C03 C01 C26'}
PKG = {'pool': 'phoenix-pool', 'pool_stable': 'phoenix-pool-stable', 'stake': 'phoenix-stake', 'stake_rewards': 'phoenix-stake-rewards',
       'token': 'soroban-token-contract', 'factory': 'phoenix-factory', 'multihop': 'phoenix-multihop', 'trader': 'phoenix-trader',
       'vesting': 'phoenix-vesting', 'curve': 'curve', 'decimal': 'soroban-decimal', 'phoenix': 'phoenix'}
EXTRA = os.environ.get('MUT_EXTRA', '').split()


def sources(repo, crate):
    base = os.path.join(repo, ('packages/' if crate in ('curve', 'decimal', 'phoenix') else 'contracts/') + crate + '/src')
    for f in sorted(os.listdir(base)):
        if f.endswith('.rs') and f not in ('lib.rs', 'tests.rs', 'test.rs', 'error.rs', 'decimal256.rs') or (crate == 'curve' and f == 'lib.rs'):
            yield os.path.join(base, f)


OPS = [(r' <= ', ' < '), (r' < ', ' <= '), (r' >= ', ' > '), (r' > ', ' >= '), (r' == ', ' != '), (r' != ', ' == '),
       (r' <= ', ' >= '), (r' \+ ', ' - '), (r' - ', ' + '), (r' \* ', ' / '), (r' / ', ' * '), (r' && ', ' || '), (r' \|\| ', ' && '),
       (r' \+= ', ' -= '), (r' -= ', ' += '), (r'\btrue\b', 'false'), (r'\bfalse\b', 'true'), (r'\.min\(', '.max('), (r'\.max\(', '.min('),
       (r'_a\b', '_b'), (r'_b\b', '_a'), (r'\bif !', 'if '), (r'\bif (?!let|!)', 'if !'), (r'\bSome\(\w+\)$', 'None'),
       (r'\.unwrap_or\(([^)]*)\)', r'.unwrap()'), (r'&sender\b', '&env.current_contract_address()'),
       (r'&env\.current_contract_address\(\)', '&sender'), (r'(?<![\w.])(\d+)(?![\w.])', lambda m: str(int(m.group(1)) + 1)),
       (r'persistent\(\)', 'temporary()'), (r'\.is_some\(\)', '.is_none()'), (r'\.is_none\(\)', '.is_some()'),
       (r'\boffer\b', 'ask'), (r'\bask\b', 'offer'), (r'\bto\b', 'from'), (r'\bfrom\b', 'to')]


def mutants(repo, crate):
    out = []
    for f in sources(repo, crate):
        src = open(f).read()
        cut = re.search(r'^#\[cfg\(test\)\]\s*\n(pub )?mod', src, re.M)
        body = src[:cut.start()] if cut else src
        lines = body.split('\n')
        off = 0
        intest = False
        for n, l in enumerate(lines):
            s = l.strip()
            start = off
            off += len(l) + 1
            if re.match(r'#\[cfg\(any\(test|#\[cfg\(test', s):
                intest = True
            if intest:
                if l.startswith('}') or l.startswith('    }'):
                    intest = False
                continue
            if not s or s.startswith(('//', '#', 'use ', 'log!', 'mod ', 'pub mod', '///', 'fn ', 'pub fn', 'const ', 'pub const', '*')) or 'log!(' in s or 'extend_ttl' in s or 'publish' in s:
                continue
            for pat, rep in OPS:
                for m in re.finditer(pat, l):
                    new = l[:m.start()] + re.sub(pat, rep, m.group(0)) + l[m.end():]
                    if re.search(pat, m.group(0)) is None:        # patterns with context
                        new = l[:m.start()] + (rep if isinstance(rep, str) else rep(m)) + l[m.end():]
                    if new != l:
                        out.append((f, n, l, new))
            if s.endswith(';') and not s.startswith(('let ', 'use ', 'return', '}', ')', '.')) and (l[:len(l) - len(l.lstrip())] + '}' != l):
                prev = lines[n - 1].strip()
                if prev.endswith((';', '{', '}')) or prev == '' or prev.startswith('//'):
                    out.append((f, n, l, ''))
    return out


def run(cmd, env=None, cwd=None, timeout=None):
    try:
        p = subprocess.run(cmd, shell=True, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, env=env, cwd=cwd, timeout=timeout, text=True)
        return p.returncode, p.stdout
    except subprocess.TimeoutExpired:
        return 124, ''


def worker(i, crate, q, work, res, lock):
    repo = f'{work}/w{i}'
    cache = f'{work}/w{i}_cache'
    if not os.path.isdir(repo):
        run(f'cp -a /repo {repo}; cp -a /verif/.cache {cache}')
    run(f'cd {repo} && git checkout -q -- . && git fetch -q /repo && git reset -q --hard FETCH_HEAD')
    base = f'{work}/v{i}'          # a copy of the machinery, so that the workers' output does not collide
    run(f'rm -rf {base}; mkdir -p {base}; cd /verif && cp -a check spec vc tools KNOWN_FINDINGS MANIFEST.json properties.jsonl {base}/')
    tenv = dict(os.environ, RUSTUP_TOOLCHAIN='1.79.0', CARGO_NET_OFFLINE='true', CARGO_PROFILE_DEV_DEBUG='line-tables-only', CARGO_INCREMENTAL='1')
    env = dict(os.environ, VC_REPO=repo, VC_CACHE=cache, VC_JOBS='2', VC_OUT=f'{work}/w{i}_out', VERIF_SEED='1', VERIF_TIER='quick')
    while True:
        try:
            f, n, a, b = q.get_nowait()
        except queue.Empty:
            return
        rel = os.path.relpath(f, work + '/src')
        p = os.path.join(repo, rel)
        lines = open(p).read().split('\n')
        assert lines[n] == a
        lines[n] = b
        open(p, 'w').write('\n'.join(lines))
        t0 = time.time()
        how, notes = 'SURVIVED', []
        for c in PROPS[crate].split() + EXTRA:
            rc, out = run(f'./check {c} quick', env=env, cwd=base, timeout=900)
            und = [l[:160] for l in out.split('\n') if l.startswith('UNDEC')]
            if rc == 1 and 'VIOLATION' in out:
                how = f'caught {c}'
                fl = [l[:140] for l in out.split('\n') if l.startswith('failed')]
                notes = fl[:1]
                break
            if rc == 0:
                if und:
                    notes += [f'{c}: {u}' for u in und[:2]]
                continue
            if 'error' in out and ('could not compile' in out or 'BuildError' in out or 'build' in out.lower()):
                how = 'nocompile'
                break
            notes.append(f'{c} rc={rc} ' + out.strip().split('\n')[-1][:200])
            if rc not in (0, 1):
                how = f'SURVIVED rc={rc}'
        if how.startswith('SURVIVED') and crate != 'trader':
            rc, out = run(f'cargo test -p {PKG[crate]} {"--features minter" if crate == "vesting" else ""} --offline --locked -- --test-threads 2', env=tenv, cwd=repo, timeout=600)
            how += ' TESTS-PASS' if rc == 0 else ' tests-kill'
        open(p, 'w').write('\n'.join(lines[:n] + [a] + lines[n + 1:]))
        with lock:
            res.append(dict(file=rel, line=n + 1, old=a.strip(), new=b.strip(), how=how, notes=notes, s=round(time.time() - t0)))
            with open(f'{work}/{crate}.jsonl', 'a') as o:
                o.write(json.dumps(res[-1]) + '\n')


def main():
    crate, count, seed, work = sys.argv[1], int(sys.argv[2]), int(sys.argv[3]), sys.argv[4]
    workers = int(sys.argv[5]) if len(sys.argv) > 5 else 4
    src = work + '/src'
    run(f'rm -rf {src}; mkdir -p {src}; git -C /repo archive HEAD | tar -xf - -C {src}')
    ms = mutants(src, crate)
    random.Random(seed).shuffle(ms)
    # at most one mutant per (line, kind) so that the sample spreads
    seen, pick = {}, []
    for m in ms:
        k = (m[0], m[1])
        if seen.get(k, 0) >= 2:
            continue
        seen[k] = seen.get(k, 0) + 1
        pick.append(m)
    print(crate, len(ms), 'mutants,', min(count, len(pick)), 'sampled')
    q = queue.Queue()
    for m in pick[:count]:
        q.put(m)
    res, lock = [], threading.Lock()
    ts = [threading.Thread(target=worker, args=(i, crate, q, work, res, lock)) for i in range(workers)]
    [t.start() for t in ts]
    [t.join() for t in ts]
    n = len([r for r in res if r['how'] != 'nocompile'])
    print(crate, 'compiled', n, 'caught', len([r for r in res if r['how'].startswith('caught')]))


main()
