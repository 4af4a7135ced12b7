"""Replay of a verifier counterexample against the real wasm.

The counterexample gives arguments, storage, ledger time, token balances and the answers of other contracts. /verif/replay runs
the wasm built from /repo's working tree in the native Soroban host from exactly that state (other contracts are stubs that answer
from the script and keep a token ledger). The violation counts as replayed when the real call completes and does what the failed
obligation's path says: the same result, the same storage afterwards, the same token movements, calls and authorisations. (That
the obligation's goal is false for this behaviour is exact arithmetic on the counterexample.)"""
import json, os, re, subprocess, fcntl, time
from . import build, terms as tm, models, exec as ex
from .terms import *
from .values import *

DIR = os.path.join(build.VERIF, 'replay')
TGT = os.path.join(build.CACHE, 'replay')
UNITS = {'u32', 'i32', 'u64', 'i64', 'u128', 'i128'}
TRANSFERS = ('transfer', 'mint', 'burn')


class No(Exception):
    pass


def harness():
    """build the replay program (once per cache)"""
    os.makedirs(TGT, exist_ok=True)
    lock = open(os.path.join(build.CACHE, 'replay.lock'), 'w')
    fcntl.flock(lock, fcntl.LOCK_EX)
    try:
        env = dict(os.environ)
        env.update(RUSTUP_TOOLCHAIN='1.79.0', CARGO_NET_OFFLINE='true', CARGO_TERM_COLOR='never', CARGO_INCREMENTAL='0', HOME='/root',
                   CARGO_TARGET_DIR=TGT, CARGO_PROFILE_DEV_DEBUG='0', RUSTC_WRAPPER='')
        env['PATH'] = '/root/.cargo/bin:/usr/local/cargo/bin:' + env.get('PATH', '/usr/bin:/bin')
        env.pop('RUSTFLAGS', None)
        p = subprocess.run(['cargo', 'build', '--offline', '--locked'], cwd=DIR, env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=400)
        if p.returncode != 0:
            raise No('replay program does not build: ' + p.stdout.decode()[-300:])
    finally:
        fcntl.flock(lock, fcntl.LOCK_UN)
        lock.close()
    return os.path.join(TGT, 'debug', 'replay')


class Enc:
    """values of the counterexample -> host values"""

    def __init__(self, W, table):
        self.W, self.table, self.memo = W, table, {}
        self.hashes = set()

    def env(self, name, args):
        if args is None:
            raise EvalError('bvar')
        v = self.table.get((name, args))
        if v is None:
            ty = APP_TYPE.get(name)
            lo, hi = RANGES.get(ty, (0, None)) if ty else (0, None)
            v = 0 if lo is None or lo <= 0 else lo
        return v

    def ev(self, t):
        return evaluate(lift(t), self.env, self.memo)

    def enc(self, v, ty):
        W = self.W
        ty = ex.base_type(ty.strip())
        while ty.startswith('&'):
            ty = ex.base_type(ty[1:].strip())
        seg = ex.lastseg(ty)
        if ty == 'bool':
            return {'bool': bool(self.ev(v))}
        if ty in UNITS:
            return {ty: str(self.ev(v))}
        if ty == '()':
            return 'void'
        if ty.startswith('('):
            ps = models.mir.split_top(ty[1:-1])
            return {'vec': [self.enc(v.get(i, p.strip()), p) for i, p in enumerate(ps) if p.strip()]}
        if seg == 'Address':
            return {'addr': self.ev(v)}
        if seg in ('Symbol', 'String'):
            n = self.ev(v)
            return {'sym' if seg == 'Symbol' else 'str': STR[n] if n in STR else ('text', n)}
        if seg in ('BytesN', 'Bytes'):
            n = self.ev(v)
            return {'bytes': ('hash', n)}
        if seg == 'Option':
            if not self.ev(v.discr):
                return 'void'
            return self.enc(v.get('Some', 0), ex.type_args(ty)[0])
        if seg == 'Vec':
            n = self.ev(v.len)
            if n > 40:
                raise No('list of %d elements' % n)
            return {'vec': [self.enc(v.at(i), ex.type_args(ty)[0]) for i in range(n)]}
        if seg == 'Map':
            k, x = ex.type_args(ty)
            ks = sorted({a[-1] for (n, a), _ in self.table.items() if n.endswith('.has') and a})
            return {'map': [[self.enc(I(j), k), self.enc(v.val(I(j)), x)] for j in ks if self.ev(v.has(I(j)))]}
        d = W.typedef(ty)
        if d is None:
            raise No('type ' + ty)
        if d[0] == 'struct':
            fs = d[1]
            vals = [self.enc(v.get(i, ex.qual(W, ty, ft)), ex.qual(W, ty, ft)) for i, (fn, ft) in enumerate(fs)]
            if all(str(fn).isdigit() for fn, _ in fs):
                return {'vec': vals}
            return {'map': [[{'sym': fn}, x] for (fn, _), x in sorted(zip(fs, vals), key=lambda e: e[0][0])]}
        n = self.ev(v.discr)
        for vn, dd, fl in d[1]:
            if dd == n:
                if W.is_int_enum(ty):
                    return {'u32': str(n)}
                return {'vec': [{'sym': vn}] + [self.enc(v.get(vn, i, ex.qual(W, ty, ft)), ex.qual(W, ty, ft)) for i, (fn, ft) in enumerate(fl)]}
        raise No('variant %d of %s' % (n, ty))

    # storage keys: (constructor text, evaluated argument terms) as key_of made them
    def key(self, ctor, args, kty):
        W = self.W
        args = [I(a) for a in args]
        while kty.startswith('&'):
            kty = kty[1:].strip()
        return self._key(ctor, args, kty)

    def _key(self, ctor, args, kty):
        W = self.W
        if ctor == 'METADATA':
            return {'sym': 'METADATA'}
        if ctor.startswith('sym:'):
            return {'sym': ctor[4:]}
        if ctor.startswith('u32:'):
            return {'u32': ctor[4:]}
        if ctor == 'val':
            return self.enc(args.pop(0), kty)
        kty = ex.base_type(kty)
        if ctor.startswith('('):
            ps = models.mir.split_top(kty[1:-1])
            return {'vec': [self._key(c, args, p.strip().lstrip('&')) for c, p in zip(models.mir.split_top(ctor[1:-1]), ps)]}
        d = W.typedef(kty)
        if d is None:
            raise No('key type ' + kty)
        if d[0] == 'struct':
            vals = [(fn, self.enc(args.pop(0), ex.qual(W, kty, ft))) for fn, ft in d[1]]
            return {'map': [[{'sym': fn}, x] for fn, x in sorted(vals)]}
        for vn, dd, fl in d[1]:
            if vn == ctor:
                return {'vec': [{'sym': vn}] + [self._leaf(args, ex.qual(W, kty, ft)) for fn, ft in fl]}
        raise No('key ' + ctor)

    def _leaf(self, args, ty):
        d = self.W.typedef(ty)
        if d and d[0] == 'struct':
            vals = [(fn, self._leaf(args, ex.qual(self.W, ty, ft))) for fn, ft in d[1]]
            return {'map': [[{'sym': fn}, x] for fn, x in sorted(vals)]}
        return self.enc(args.pop(0), ty)


def walk(j, f):
    if isinstance(j, dict):
        return f(j) if f(j) is not None else {k: walk(v, f) for k, v in j.items()}
    if isinstance(j, (list,)):
        return [walk(x, f) for x in j]
    return j


def scan(j, f):
    if isinstance(j, dict):
        f(j)
        for v in j.values():
            scan(v, f)
    elif isinstance(j, list):
        for x in j:
            scan(x, f)


def replay(ck, o):
    if o.p is None or not hasattr(o.p, 'run'):
        return False, 'the obligation is not about one path of an entry point'
    P = o.p
    R, st, X = P.run, P.st, P.X
    con = R.con
    if con.key in build.LIBS:
        return False, 'a library function: not callable in the host'
    if o.res[3] is None:
        return False, 'no counterexample'
    try:
        return _replay(P, R, st, X, con, Enc(R.W, o.res[3]))
    except (No, EvalError, Unsupported) as e:
        return False, 'counterexample not replayable: %s' % (str(e)[:300])


def _replay(P, R, st, X, con, E):
    for t in st.trace:
        if t[0] == 'deploy':
            raise No('the path deploys a contract')
    self_ = E.ev(app('self'))
    f = con.entries[R.entry]
    tys = [f.locals[a] for a in f.args if ex.lastseg(ex.base_type(f.locals[a])) != 'Env']
    args = [E.enc(v, t) for v, t in zip(R.args, tys)]
    ctor = R.entry == '__constructor'
    if ctor:
        raise No('a constructor')

    def kty(dur, c):
        return X.key_types.get((dur, c), '')
    # storage before
    storage, seen = [], set()
    for (n, a), v in sorted(E.table.items(), key=str):
        m = re.match(r'has\.(persistent|instance|temporary)\.(.*)$', n)
        if not m or not v or (n, a) in seen:
            continue
        seen.add((n, a))
        dur, c = m.group(1), m.group(2)
        ty = con.types.get((dur, c))
        if (dur, c) not in X.key_types and c != 'METADATA':
            continue
        val = {'bool': True}
        if ty is not None:
            val = E.enc(ex.sym(R.W, ty, 'st.%s.%s' % (dur, c), tuple(I(x) for x in a)), ty)
        storage.append({'dur': dur, 'key': E.key(c, a, kty(dur, c)), 'val': val})
    # storage afterwards
    watch, want = [], []
    done = set()
    for t in st.trace:
        if t[0] in ('set', 'remove'):
            _, dur, c, a = t[:4]
            av = tuple(E.ev(x) for x in a)
            if (dur, c, av) in done:
                continue
            done.add((dur, c, av))
            ty = con.types.get((dur, c))
            pres, v = models.store_read(X, st, dur, c, tuple(I(x) for x in av), ty)
            watch.append({'dur': dur, 'key': E.key(c, av, kty(dur, c))})
            want.append(E.enc(v, ty) if E.ev(pres) else None)
    # other contracts
    bal = [[{'addr': a[0]}, {'addr': a[1]}, str(v)] for (n, a), v in sorted(E.table.items(), key=str) if n == 'tok.bal']
    dec = [[{'addr': a[0]}, str(v)] for (n, a), v in sorted(E.table.items(), key=str) if n == 'tok.decimals']
    stubs = {x[0]['addr'] for x in bal} | {x[0]['addr'] for x in dec}
    scripts, log = [], []
    upgrade = None
    for t in st.trace:
        if t[0] == 'upgrade':
            upgrade = E.ev(t[1])
        if t[0] in TRANSFERS:
            tok = E.ev(t[1])
            stubs.add(tok)
            log.append({'op': t[0], 'token': {'addr': tok}, 'from': None if t[2] is None else {'addr': E.ev(t[2])},
                        'to': None if t[3] is None else {'addr': E.ev(t[3])}, 'amount': str(E.ev(t[4]))})
        elif t[0] == 'call':
            _, cl, ad, meth, cargs, ret = t
            ad = E.ev(ad)
            stubs.add(ad)
            rt = X.ret_types.get(id(ret), (None, None))[1]
            scripts.append({'addr': {'addr': ad}, 'method': meth, 'ret': 'void' if ret is UNIT or rt is None else E.enc(ret, rt)})
            log.append({'op': 'call', 'addr': {'addr': ad}, 'method': meth, 'args': [E.ev(x) if isinstance(x, T) and x.sort == INT else None for x in cargs]})
    stubs.discard(self_)
    ret_ty = f.locals.get(0)
    isres = ex.lastseg(ex.base_type(ret_ty).split('<')[0]) == 'Result' if ret_ty else False
    if isres:
        ret_ty = ex.type_args(ex.base_type(ret_ty))[0]
    want_ret = E.enc(P.ret, ret_ty) if ret_ty else 'void'
    auth_want = {E.ev(a) for a in P.auth_list()}
    # addresses, texts and hashes: only their order and equality count
    pool = {'addr': {self_} | stubs | auth_want, 'text': set(), 'hash': set()}

    def note(d):
        if 'addr' in d and isinstance(d['addr'], int):
            pool['addr'].add(d['addr'])
        for k in ('sym', 'str', 'bytes'):
            if k in d and isinstance(d[k], tuple):
                pool[d[k][0]].add(d[k][1])
    inp = {'args': args, 'storage': storage, 'watch': watch, 'balances': bal, 'decimals': dec, 'scripts': scripts}
    for j in (inp, want, log, [want_ret]):
        scan(j, note)
    rank = {k: {x: i + 1 for i, x in enumerate(sorted(v))} for k, v in pool.items()}
    back = {v: k for k, v in rank['addr'].items()}

    def con_(d):
        if len(d) == 1 and 'addr' in d and isinstance(d['addr'], int):
            return {'addr': rank['addr'][d['addr']]}
        for k in ('sym', 'str', 'bytes'):
            if k in d and isinstance(d[k], tuple):
                kind, n = d[k]
                if kind == 'text':
                    return {k: 't%06d' % rank['text'][n]}
                if n == upgrade:
                    return {k: 'upload'}
                return {k: '%064x' % rank['hash'][n]}
        return None
    plain = lambda x: x['addr'] if isinstance(x, dict) and 'addr' in x else x
    inp = walk(inp, con_)
    want, want_ret, log = walk(want, con_), walk([want_ret], con_)[0], walk(log, con_)
    job = {'wasm': os.path.join(build.REL, build.PKGS[con.key][1] + '.wasm'), 'self': rank['addr'][self_], 'fn': R.entry, 'args': inp['args'],
           'time': str(E.ev(app('now', (), 'u64'))), 'sequence': str(E.ev(app('sequence', (), 'u32'))), 'ctor': [], 'storage': inp['storage'], 'watch': inp['watch'],
           'balances': [[plain(x) for x in b] for b in inp['balances']], 'decimals': [[plain(x) for x in b] for b in inp['decimals']],
           'scripts': [{'addr': plain(s['addr']), 'method': s['method'], 'ret': s['ret']} for s in inp['scripts']],
           'stubs': sorted(rank['addr'][a] for a in stubs), 'upload': upgrade is not None}
    if con.key == 'token':
        job['ctor'] = [{'addr': 1}, {'u32': '7'}, {'str': 'n'}, {'str': 's'}]
    p = subprocess.run([harness()], input=json.dumps(job).encode(), stdout=subprocess.PIPE, stderr=subprocess.PIPE, timeout=120)
    try:
        r = json.loads(p.stdout.decode().strip().split('\n')[-1])
    except Exception:
        raise No('replay program failed: ' + p.stderr.decode()[-300:])
    info = {'input': job, 'real': r, 'expected': {'ret': want_ret, 'storage': want, 'log': log, 'auths': sorted(rank['addr'][a] for a in auth_want)}}
    bad = []
    if not r.get('ok'):
        bad.append('the real call fails')
    else:
        up = r.get('upload')
        fix = lambda j: walk(j, lambda d: {'bytes': up} if d.get('bytes') == 'upload' else None)
        if norm(r['ret']) != norm(fix(want_ret)):
            bad.append('another result')
        if set(r['auths']) != {rank['addr'][a] for a in auth_want}:
            bad.append('other authorisations')
        if [norm(x) for x in r['storage']] != [norm(fix(x)) for x in want]:
            bad.append('other storage afterwards')
        rl = r['log']
        if len(rl) != len(log):
            bad.append('other calls')
        else:
            for a, b in zip(rl, log):
                if a['op'] != b['op'] or any(plain(b[k]) != a[k] for k in b if k not in ('args', 'op')):
                    bad.append('another call: %s' % a['op'])
                elif b['op'] == 'call':
                    for x, y in zip(a['args'], b['args']):
                        n = leaf(x, back)
                        if y is not None and n is not None and n != y:
                            bad.append('another argument of ' + b['method'])
    info['verdict'] = 'the real wasm does exactly this' if not bad else 'not confirmed: ' + '; '.join(bad)
    return not bad, info


def leaf(j, back):
    if isinstance(j, dict) and len(j) == 1:
        k, v = next(iter(j.items()))
        if k in UNITS:
            return int(v)
        if k == 'addr':
            return back.get(v)
    return None


def norm(j):
    if isinstance(j, dict):
        if 'map' in j:
            return {'map': sorted(([norm(k), norm(v)] for k, v in j['map']), key=json.dumps)}
        return {k: norm(v) for k, v in j.items()}
    if isinstance(j, list):
        return [norm(x) for x in j]
    return j


def write(path, ck, o, okk, info):
    tab = o.res[3] or {}
    json.dump({'property': ck.pid, 'obligation': o.name, 'result': o.res[0], 'backend': o.res[1],
               'verifier_output': {'status': o.res[0], 'backend': o.res[1], 'log': o.res[4]},
               'goal': show(o.goal, 8)[:3000],
               'path_condition': [show(h, 6)[:600] for h in o.hyps][:80],
               'counterexample': {'%s(%s)' % (n, ','.join(map(str, a))): str(v) for (n, a), v in tab.items()},
               'replayed_on_real_code': okk, 'replay': info}, open(path, 'w'), indent=1)
