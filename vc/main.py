"""check <property> [quick|thorough]"""
import os, sys, json, time, re, glob, importlib, traceback
sys.setrecursionlimit(20000)
from . import build, smt, models, check, replay
from .terms import show, subterms

VERIF = build.VERIF
OUT = os.path.join(VERIF, 'out')


def find_spec(pid):
    sys.path.insert(0, VERIF)
    for f in sorted(glob.glob(os.path.join(VERIF, 'spec', '*.py'))):
        n = os.path.basename(f)[:-3]
        if n == '__init__':
            continue
        if re.search(r'^def %s\(' % pid, open(f).read(), re.M):
            return getattr(importlib.import_module('spec.' + n), pid)
    return None


def findings(pid):
    """known findings: lines 'finding: property=<id> obligation=<regex> <what>'"""
    out = []
    f = os.path.join(VERIF, 'KNOWN_FINDINGS')
    if os.path.exists(f):
        for l in open(f):
            m = re.match(r'finding: property=(\S+) obligation=/(.*?)/ (.*)', l.strip())
            if m and m.group(1) == pid:
                out.append((m.group(2), m.group(3)))
    return out


def main():
    pid = sys.argv[1]
    tier = sys.argv[2] if len(sys.argv) > 2 else os.environ.get('VERIF_TIER', 'quick')
    seed = int(os.environ.get('VERIF_SEED', '1'))
    t0 = time.time()
    fn = find_spec(pid)
    if fn is None:
        print('no specification for', pid)
        sys.exit(2)
    ck = check.Checker(pid, tier)
    viol, known, undec = [], [], []
    os.makedirs(OUT, exist_ok=True)
    for f in glob.glob(os.path.join(OUT, pid + '-*')):
        os.unlink(f)
    try:
        with ck.guard(pid):
            fn(ck)
    except build.BuildError as e:
        print('BUILD FAILED\n%s' % e)
        sys.exit(2)
    ck.discharge_all()
    ck.retry()
    ck.reach_all()
    kf = findings(pid)
    seen = set()
    for o in ck.obs:
        if o.res[0] == 'proved':
            continue
        k = [w for rx, w in kf if re.search(rx, o.name)]
        if k:
            if k[0] not in seen:
                seen.add(k[0])
                known.append(k[0])
            continue
        viol.append(o)
    viol.sort(key=lambda o: (o.res[0] != 'refuted', o.res[3] is None))
    for w in known:
        print('KNOWN-FINDING: property=%s %s' % (pid, w))
    code = 0
    # one report per failed obligation, the first few replayed on the real code
    done = 0
    confirmed = False
    lines = []
    for o in viol[:12]:
        path = os.path.join(OUT, '%s-%d.json' % (pid, done + 1))
        okk, info = (False, 'not replayed')
        if done < 8 and not confirmed and o.res[3] is not None:
            try:
                okk, info = replay.replay(ck, o)
            except Exception as e:
                okk, info = False, 'replay not possible: %s: %s' % (type(e).__name__, str(e)[:300])
        replay.write(path, ck, o, okk, info)
        done += 1
        confirmed = confirmed or okk
        lines.append((okk, 'failed obligation: %s (%s)\n' % (o.name, 'refuted' if o.res[0] == 'refuted' else 'not accepted by any back end') + 'VIOLATION property=%s replay=%s%s' % (pid, path, '' if okk else ' no-failing-input-found')))
        code = 1
    if confirmed:
        lines = [l for l in lines if l[0]]
    for _, l in lines[:4]:
        print(l)
    for m in ck.undecided:
        print('UNDECIDED (outside the verifier\'s reach, not counted as proved): %s' % m)
    n = len(ck.obs)
    d = sum(1 for o in ck.obs if o.res[0] == 'proved')
    evidence(ck, pid, tier, seed, time.time() - t0, len(viol), known, undec)
    print('%s %s: %d obligations, %d discharged, %d refuted, %d undecided, %.1fs' % (pid, tier, n, d, len(viol), len(undec) + len(ck.undecided), time.time() - t0))
    sys.stdout.flush()
    os._exit(code)


def evidence(ck, pid, tier, seed, wall, nviol, known, undec):
    by = {}
    for o in ck.obs:
        if o.res[0] == 'proved':
            by[o.res[1]] = by.get(o.res[1], 0) + 1
    fns = {}
    inv = drop = 0
    loops = []
    for r in ck.runs:
        for f in r.X.used_fns.values() if isinstance(r.X.used_fns, dict) else r.X.used_fns:
            nm = f if isinstance(f, str) else getattr(f, 'name', str(f))
            fns[nm] = fns.get(nm, 0) + 1
        for rec in r.X.loop_recs:
            inv += getattr(rec, 'ninv', 0)
            loops.append('%s bb%s: %s' % (rec.fn.name, rec.header, '; '.join(n for n, _ in rec.invs)[:300]))
    ents = ['%s (%d paths)' % (r.name, len(r.paths)) for r in ck.runs]
    npth = sum(len(r.paths) for r in ck.runs)
    lemmas = sum(o.res[5] for o in ck.obs)
    ext = sorted(models.USED)
    level = 'proof'
    cov = {
        'obligations': len(ck.obs),
        'discharged': sum(1 for o in ck.obs if o.res[0] == 'proved'),
        'checker_cmd': 'cd /verif && ./check %s %s' % (pid, tier),
        'trusted_base': TRUSTED + ['assumed contract of: ' + m for m in ext],
        'discharged_by_backend': by,
        'entry_points_under_contract': ents,
        'paths': npth,
        'mir_functions_verified': sorted(fns),
        'loop_invariants_proved': inv,
        'loops': sorted(set(loops))[:60],
        'lemma_steps_proved': lemmas,
        'solver_queries': smt.STATS['queries'],
        'solver_s': round(smt.STATS['solver_s'], 2),
        'build_s': round(ck.build_s, 1),
        'source_hash': getattr(ck, 'src_hash', None),
        'undecided': [o.name for o in undec] + list(ck.undecided),
        'known_findings': known,
        'bounded_stand_ins': list(ck.bounded),
        'reachable_entries': ck.reach,
        'samples': [{'obligation': o.name, 'by': o.res[1], 'secs': round(o.res[2], 2), 'goal': show(o.goal, 5)[:400]} for o in ck.obs[:4]],
        'notes': ck.notes,
    }
    ev = {'property': pid, 'tier': tier, 'seed': seed, 'level': level, 'coverage': cov, 'assumptions': ASSUME + ck.assume_txt,
          'wall_s': round(wall, 2), 'violations': nviol}
    os.makedirs(os.path.join(VERIF, 'evidence'), exist_ok=True)
    json.dump(ev, open(os.path.join(VERIF, 'evidence', pid + '.json'), 'w'), indent=1)


TRUSTED = [
    'rustc 1.79.0 (source to MIR; the MIR is read as emitted for the wasm32 release build)',
    '/verif/vc: MIR parser, symbolic executor, loop rule, verification-condition generator',
    'z3 (python API and z3-new), cvc5',
]
ASSUME = [
    'the Soroban host behaves as its interface documents (storage, authorisation, ledger, deployment, collections, 256-bit integers); modelled in vc/models.py',
    'token contracts follow SEP-41: a transfer/mint/burn moves exactly the stated amount or fails; calls to other contracts return arbitrary results and may change any token ledger but not this contract\'s storage',
    'nobody can authorise as the contract itself (no __check_auth, no re-entry)',
    'storage entries hold values of their declared types; archival/TTL effects are not modelled',
    'resource limits (CPU, memory, ledger size) are not modelled',
]

if __name__ == '__main__':
    try:
        main()
    except SystemExit:
        raise
    except check.Undecided as e:
        print('UNDECIDED', e)
        sys.exit(0)
