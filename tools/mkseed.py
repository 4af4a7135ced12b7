"""development aid: builds seeded/<id>/ from a python description (see the files it reads): applies the edits to a copy of the
source, writes patch.diff, demo.sh, demo.rs and meta.json"""
import sys, os, json, subprocess, shutil, tempfile
DEMO = '''#!/bin/bash
# run with cwd = the repository, after its build: exit 0 when the property holds
H=$(cd "$(dirname "$0")" && pwd)
export HOME=/root PATH=/root/.cargo/bin:/usr/local/cargo/bin:$PATH
export RUSTUP_TOOLCHAIN=1.79.0 CARGO_NET_OFFLINE=true CARGO_TERM_COLOR=never RUSTC_WRAPPER= CARGO_PROFILE_DEV_DEBUG=line-tables-only CARGO_INCREMENTAL=1
unset CARGO_TARGET_DIR RUSTFLAGS
S=$(mktemp -d) || exit 3
trap 'rm -rf "$S"' EXIT
mkdir "$S/repo" && tar -cf - --exclude=./.git --exclude=./target . | tar -xf - -C "$S/repo" || exit 3
mkdir "$S/repo/target" && cp -a target/wasm32-unknown-unknown "$S/repo/target/" && cp -a target/debug "$S/repo/target/" || exit 3
cd "$S/repo" || exit 3
%(reset)scp "$H/demo.rs" %(dst)s || exit 3
printf '\\n#[cfg(test)]\\nmod vp_demo;\\n' >> %(mod)s
timeout 280 cargo test -p %(pkg)s%(feat)s --lib --offline --locked vp_demo > "$S/log" 2>&1
r=$?
tail -25 "$S/log"
grep -q '^test .*vp_demo.*\\.\\.\\. ' "$S/log" || exit 3
exit $r
'''

def main(f):
    d = {}
    exec(open(f).read(), d)
    sid = d['ID']
    out = '/verif/seeded/' + sid
    os.makedirs(out, exist_ok=True)
    t = tempfile.mkdtemp()
    subprocess.run('git -C /repo archive HEAD | tar -xf - -C ' + t, shell=True, check=True)
    subprocess.run('git init -q && git add -A && git -c user.name=x -c user.email=x commit -qm x', shell=True, cwd=t, check=True)
    for p, a, b in d['EDITS']:
        s = open(t + '/' + p).read()
        assert s.count(a) == 1, (sid, p, s.count(a))
        open(t + '/' + p, 'w').write(s.replace(a, b))
    diff = subprocess.run(['git', 'diff'], cwd=t, capture_output=True, text=True).stdout
    open(out + '/patch.diff', 'w').write(diff)
    c = d['CRATE']
    pkg, feat = d.get('PKG', 'phoenix-' + c.replace('_', '-')), d.get('FEAT', '')
    base = d.get('DIR', 'contracts/' + c) + '/src/'
    if os.path.exists(t + '/' + base + 'tests.rs'):
        dst, mod = base + 'tests/vp_demo.rs', base + 'tests.rs'
    else:
        dst, mod = base + 'vp_demo.rs', base + 'lib.rs'
    open(out + '/demo.sh', 'w').write(DEMO % dict(dst=dst, mod=mod, pkg=pkg, feat=feat, reset=': > %s\n' % mod if d.get('RESET') else ''))
    os.chmod(out + '/demo.sh', 0o755)
    open(out + '/demo.rs', 'w').write(d['DEMO'].lstrip())
    json.dump({'property': d['PROP'], 'needs': d['NEEDS'], 'what_it_breaks': d['WHAT']}, open(out + '/meta.json', 'w'), indent=1)
    shutil.rmtree(t)

for f in sys.argv[1:]:
    main(f)
