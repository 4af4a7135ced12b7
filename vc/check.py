"""Specifications as contracts over public entry points: running an entry symbolically, stating obligations about every
path, discharging them (in parallel) and reporting."""
import os, sys, json, time, re, multiprocessing, itertools, traceback
from . import build, exec as ex, smt, ground, models, loops as lp, terms as tm
from .terms import *
from .values import *

VERIF = build.VERIF
NPROC = int(os.environ.get('VC_JOBS', '8'))


class Undecided(Exception):
    pass


class _Guard:
    def __init__(self, ck, what):
        self.ck, self.what = ck, what

    def __enter__(self):
        return self

    def __exit__(self, t, e, tb):
        if t is None or issubclass(t, (KeyboardInterrupt, SystemExit, build.BuildError)):
            return False
        if os.environ.get('VC_DEBUG'):
            traceback.print_exception(t, e, tb)
        self.ck.undecided.append('%s: %s %s' % (self.what, t.__name__, str(e)[:300]))
        return True


class Contract:
    """one contract crate: its MIR, entry points and the symbolic runs of them"""

    def __init__(self, key, ck):
        self.key, self.ck = key, ck
        self.W = build.world(key)
        self.entries = build.entries(self.W)
        self.types = {}             # (dur, ctor) -> type text, as met while running
        self.cache = {}

    def fn(self, name):
        """a public function of a library, under contract like an entry point"""
        if name not in self.entries:
            try:
                f = self.W.find_fn(name, self.key)
            except Exception:
                f = None
            if f is None:
                raise Undecided('function %s of %s not found' % (name, self.key))
            self.entries[name] = f
        return name

    def param_types(self, entry):
        f = self.entries[entry]
        return [f.locals[a] for a in f.args]

    def run(self, entry, loops=None, contracts=None, pre=None, tag='', unroll=None, argv=None):
        """all returning paths of a public entry, for arbitrary arguments and storage; arg i is named arg.<i>
        where Env is not counted"""
        k = (entry, tag)
        if k in self.cache:
            return self.cache[k]
        if entry not in self.entries:
            raise Undecided('entry point %s.%s not found' % (self.key, entry))
        f = self.entries[entry]
        t0 = time.time()
        X = ex.Exec(self.W, contracts={'*': lp.Pure()} if contracts is None else contracts, loops=loops, unroll=unroll)
        X.st_types = self.types
        st = ex.State()
        args, vals, n = [], [], 0
        for a in f.args:
            ty = f.locals[a]
            if ex.lastseg(ex.base_type(ty)) == 'Env':
                v = Opq('env')
            else:
                v = ex.sym(self.W, ty, 'arg.%d' % n) if argv is None or argv.get(n) is None else argv[n]
                vals.append(v)
                n += 1
            args.append(ex.Ref(st.new_cell(v)) if ty.startswith('&') else v)
        r = Run(self, entry, X, vals)
        if pre is not None:
            for t in pre(r):
                st.assume(t)
        try:
            ends = X.run(f, args, st)
        except (Unsupported, ex.Budget, RecursionError) as e:
            raise Undecided('%s.%s: %s %s' % (self.key, entry, type(e).__name__, str(e)[:200]))
        r.paths = [P(r, i, e) for i, e in enumerate(ends) if e.kind == 'return' and not is_err(e)]
        r.all = ends
        r.secs = time.time() - t0
        self.cache[k] = r
        self.ck.runs.append(r)
        return r


def is_err(e):
    """an entry that returns Err fails: the host rolls everything back"""
    v = e.ret
    return isinstance(v, Enum) and ex.lastseg(v.ty) == 'Result' and is_int(v.discr) and ival(v.discr) == 1


class Run:
    def __init__(self, con, entry, X, args):
        self.con, self.entry, self.X, self.args = con, entry, X, args
        self.W = con.W
        self.paths = []
        self.name = '%s.%s' % (con.key, entry)

    def pre(self, dur, ctor, args=(), ty=None):
        """(present, value) of a storage entry before the call"""
        dur, ty = self.where(dur, ctor, ty)
        args = tuple(args)
        return bapp('has.%s.%s' % (dur, ctor), args), (ex.sym(self.W, ty, 'st.%s.%s' % (dur, ctor), args) if ty else None)

    def where(self, dur, ctor, ty):
        T_ = self.con.types
        if (dur, ctor) not in T_:
            for d2 in ('persistent', 'instance', 'temporary'):
                if (d2, ctor) in T_:
                    dur = d2
                    break
        t2 = T_.get((dur, ctor))
        return dur, (t2 or ty)


class P:
    """one returning path of an entry, with the observations contracts talk about"""

    def __init__(self, run, i, end):
        self.run, self.i, self.end, self.st, self.W = run, i, end, end.st, run.W
        self.pc = list(end.st.pc)
        if isinstance(end.ret, Enum) and ex.lastseg(end.ret.ty) == 'Result':
            self.pc.append(eq(end.ret.discr, 0))
        self.args = run.args
        self.name = '%s/%d' % (run.name, i)
        self.X = run.X

    # -- results
    @property
    def ret(self):
        v = self.end.ret
        if isinstance(v, Ref):
            v = self.X.deref(self.st, v)
        if isinstance(v, Enum) and ex.lastseg(v.ty) == 'Result':
            return v.get('Ok', 0)
        return v

    def f(self, v, name):
        """field by its declared name"""
        return field(self.W, v, name)

    # -- storage
    def pre(self, dur, ctor, args=(), ty=None):
        return self.run.pre(dur, ctor, args, ty)

    def post(self, dur, ctor, args=(), ty=None):
        dur, ty = self.run.where(dur, ctor, ty)
        return models.store_read(self.X, self.st, dur, ctor, tuple(args), ty)

    def unchanged(self, dur, ctor, nargs=0, ty=None):
        dur, ty = self.run.where(dur, ctor, ty)
        if (dur, ctor) not in self.st.store:
            return TRUE
        vs = [bvar('u%d' % next(tm._cnt)) for _ in range(nargs)]
        p0, v0 = self.pre(dur, ctor, vs, ty)
        p1, v1 = self.post(dur, ctor, vs, ty)
        g = and_(eq(p0, p1), implies(p1, ex.veq(self.W, v0, v1)))
        return forall([v.args[0] for v in vs], g) if vs else g

    def no_state_change(self):
        """the call leaves all storage, tokens and code as they were and calls nothing that could change anything"""
        g = self.moves_nothing()
        for (dur, ctor), log in self.st.store.items():
            n = max((len(e[0]) for e in log if e[0] is not None), default=None)
            if n is None:
                return FALSE
            g = and_(g, self.unchanged(dur, ctor, n))
        for t in self.st.trace:
            if t[0] in ('upgrade', 'deploy') or (t[0] == 'call' and not models.READ_ONLY.match(t[3])):
                return FALSE
        return g

    def written(self):
        return sorted(self.st.store.keys())

    # -- authority
    def auths(self, addr):
        return or_(*[eq(a, addr) for a in self.auth_list()])

    def auth_list(self):
        return [t[1] for t in self.st.trace if t[0] == 'auth']

    # -- tokens
    def events(self, *kinds):
        return [t for t in self.st.trace if t[0] in kinds]

    def flow(self, token, who):
        """net amount this call itself moved into (+) / out of (-) `who` in `token`"""
        v = I(0)
        for op in self.st.tok:
            if op[0] == 'havoc':
                if str(op[1]).startswith('L'):
                    raise Undecided('token movements inside a loop')
                continue
            _, t, frm, to, amt = op
            same = eq(t, token)
            if frm is not None:
                v = sub(v, ite(and_(same, eq(frm, who)), amt, 0))
            if to is not None:
                v = add(v, ite(and_(same, eq(to, who)), amt, 0))
        return v

    def bal(self, token, who):
        return models.tok_balance(self.X, self.st, token, who)

    def bal0(self, token, who):
        return app('tok.bal', (token, who), 'bal')

    def moves_nothing(self, token=None, who=None):
        """no token operation with a positive amount"""
        g = TRUE
        for op in self.st.tok:
            if op[0] == 'havoc':
                if str(op[1]).startswith('L'):
                    return FALSE
                continue
            hit = TRUE
            if token is not None:
                hit = and_(hit, eq(op[1], token))
            if who is not None:
                hit = and_(hit, or_(*[eq(x, who) for x in (op[2], op[3]) if x is not None]))
            g = and_(g, implies(hit, eq(op[4], 0)))
        return g

    def supply(self, token):
        """amount minted minus burned of `token` by this call"""
        v = I(0)
        for op in self.st.tok:
            if op[0] == 'mint':
                v = add(v, ite(eq(op[1], token), op[4], 0))
            elif op[0] == 'burn':
                v = sub(v, ite(eq(op[1], token), op[4], 0))
        return v

    def calls(self, meth=None):
        return [t for t in self.st.trace if t[0] == 'call' and (meth is None or t[3] == meth)]

    def loops(self):
        return [t[1] for t in self.st.trace if t[0] == 'loop']

    def iterations(self, rec):
        """every way one arbitrary iteration of the loop can go on to the next: (state, its own events, hypotheses)"""
        out = []
        for b in rec.backs:
            i = max(n for n, t in enumerate(b.trace) if t[0] == 'loop' and t[1] is rec)
            out.append((b, b.trace[i + 1:], list(b.pc) + [ck for _, ck in rec.invs]))
        return out

    def quiet_loops(self):
        """the loops of this path whose iterations have no effect outside the function, and the others"""
        q, o = [], []
        for rec in self.loops():
            eff = any(effect(t) for _, ev, _ in self.iterations(rec) for t in ev) or any(t[0] == 'loop' for _, ev, _ in self.iterations(rec) for t in ev)
            (o if eff else q).append(rec)
        return q, o


def effect(t):
    return t[0] in ('set', 'remove', 'transfer', 'mint', 'burn', 'deploy', 'upgrade') or (t[0] == 'call' and not models.READ_ONLY.match(t[3]))


def field(W, v, name):
    if isinstance(v, Struct):
        d = W.typedef(v.ty)
        if d and d[0] == 'struct':
            for i, (fn, ft) in enumerate(d[1]):
                if fn == name:
                    return v.get(i, ex.qual(W, v.ty, ft))
    raise Undecided('no field %s in %r' % (name, v))


def tag_of(W, v, variant):
    """condition: enum value is of this variant"""
    d = W.typedef(v.ty)
    for vn, dd, fl in d[1]:
        if vn == variant:
            return eq(v.discr, dd)
    raise Undecided('no variant ' + variant)


def given(v):
    return eq(v.discr, 1)


def val(v):
    return v.get('Some', 0)


def opt(v, f):
    """what must hold of an optional argument when it is given"""
    return implies(given(v), f(val(v)))


SELF = app('self')
NOW = app('now', (), 'u64')


# ------------------------------------------------------------------ obligations
class Ob:
    __slots__ = ('name', 'hyps', 'goal', 'steps', 'p', 'res', 'note', 'cex_ok', 'group', 'budget')

    def __init__(self, name, hyps, goal, steps=(), p=None, cex_ok=True, group=None, budget=None):
        self.name, self.hyps, self.goal, self.steps, self.p = name, hyps, goal, list(steps), p
        self.res, self.note, self.cex_ok, self.group, self.budget = None, '', cex_ok, group, budget


def literals(hyps):
    out = []
    for h in hyps:
        out += h.args if h.op == 'and' else [h]
    return out


def simplify(hyps, goal):
    """an equivalent goal (under hyps) and hypotheses: terms a loop left behind are replaced by what they are known to
    equal, conditions decided by a hypothesis are resolved"""
    lits = literals(hyps)
    les = {h.args[0] for h in lits if h.op == 'le'}
    eqs = [h.args[0] for h in lits if h.op == 'eq0'] + [d for d in les if neg(d) in les]
    mp = {}
    for d in eqs:
        d = subst(d, mp) if mp else d
        if is_int(d):
            continue
        for m, c in (d.args[0] if d.op == 'poly' else [((d,), 1)]):
            if len(m) == 1 and c in (1, -1) and m[0].op == 'app' and re.match(r'(L\d+\.|k!)', m[0].args[0]):
                a = m[0]
                rest = sub(d, mul(c, a))
                if a in subterms([rest]):
                    continue
                r = neg(rest) if c == 1 else rest
                mp = {k: subst(v, {a: r}) for k, v in mp.items()}
                mp[a] = r
                break
    memo = {}
    if mp:
        hyps = [subst(h, mp, memo) for h in hyps]
        goal = subst(goal, mp, memo)
    lm = {}
    for h in literals(hyps):
        if h.op in ('le', 'eq0', 'not', 'or') and h is not TRUE and h is not FALSE:
            lm[h] = TRUE
            lm[not_(h)] = FALSE
            if h.op == 'eq0':
                lm[le(h.args[0], 0)] = TRUE
                lm[le(neg(h.args[0]), 0)] = TRUE
                lm[lt(h.args[0], 0)] = FALSE
                lm[lt(neg(h.args[0]), 0)] = FALSE
    return hyps, subst(goal, lm)


def prove(hyps, goal, t_ext, log, quick_ms=3000):
    """-> ('proved', by, secs) | ('refuted', by, secs, table) | ('unknown', ...)"""
    t0 = time.time()
    goal = lift(goal)
    if goal is TRUE or goal in hyps:
        return ('proved', 'simplifier', time.time() - t0, None)
    ng = not_(goal)
    ts = list(hyps) + [ng]
    for t in ts:
        if t is FALSE:
            return ('proved', 'simplifier', time.time() - t0, None)
    if smt.lin_check(ts, 2000) == 'unsat':
        return ('proved', 'z3-lin', time.time() - t0, None)
    hyps2, goal2 = hyps, goal
    try:
        hyps2, goal2 = simplify(hyps, goal)
    except RecursionError:
        pass
    if goal2 is TRUE or goal2 in hyps2 or any(h is FALSE for h in hyps2):
        return ('proved', 'simplifier', time.time() - t0, None)
    if hyps2 is not hyps or goal2 is not goal:
        ts2 = list(hyps2) + [not_(goal2)]
        if smt.lin_check(ts2, 2000) == 'unsat':
            return ('proved', 'z3-lin', time.time() - t0, None)
        if smt.check_z3(smt.relevant(hyps2, goal2) + [not_(goal2)], 1500).status == 'unsat':
            return ('proved', 'z3-py', time.time() - t0, None)
    rel = smt.relevant(hyps, goal)
    last = None
    for hs, ms in ((rel, 1500), (hyps, quick_ms)):
        if hs is hyps and len(rel) == len(hyps) and last != 'sat':
            pass
        r = smt.check_z3(list(hs) + [ng], ms)
        last = r.status
        if r.status == 'unsat':
            return ('proved', 'z3-py', time.time() - t0, None)
        if r.status == 'sat' and hs is hyps and smt.check_model(ts, r.model):
            return ('refuted', 'z3-py', time.time() - t0, smt.model_env(r.model).table)
    if any(u.op == 'forall' for u in subterms(list(hyps) + [goal])) and ground.prove(list(hyps), goal, 8.0 if t_ext else 3.0):
        return ('proved', 'z3-ground', time.time() - t0, None)
    if t_ext:
        try:
            r = smt.portfolio(smt.relevant(hyps2, goal2) + [not_(goal2)], t_ext / 2, want_model=False)
            if r.status == 'unsat':
                return ('proved', r.by, time.time() - t0, None)
            r = smt.portfolio(ts, t_ext)
            if r.status == 'unsat':
                return ('proved', r.by, time.time() - t0, None)
            if r.status == 'sat' and r.model is not None and smt.check_model(ts, r.model):
                return ('refuted', r.by, time.time() - t0, smt.model_env(r.model).table)
        except Exception as e:
            log.append('portfolio: %r' % e)
    return ('unknown', '-', time.time() - t0, None)


def search(ts, secs, seed=1):
    """bounded search for a model of ts: small boxes for all unknowns"""
    t0 = time.time()
    apps = [u for u in subterms(ts) if u.op == 'app' and u.sort == INT and not smt.CTX._has_bvar(u)]
    for box in (7, 40, 1000, 20000, 10**6, 10**9, 10**12):
        left = secs - (time.time() - t0)
        if left <= 0:
            return None
        bs = []
        for u in apps:
            bs += [le(u, box), ge(u, -box)]
        r = smt.check_z3(list(ts) + bs, int(min(left, max(3, secs / 5)) * 1000))
        if r.status == 'sat' and smt.check_model(ts, r.model):
            return smt.model_env(r.model).table
    return None


def quantified(t):
    return any(u.op == 'forall' for u in subterms([t]))


def discharge(ob, tier):
    """run in a worker"""
    t_ext = ob.budget or (25 if tier == 'quick' else 120)
    log, hyps = [], list(ob.hyps)
    nst = 0
    secs = 0.0
    for sname, g, using in ob.steps:
        hs = hyps if using is None else using + [h for h in hyps if h in set(using)]
        r = prove(hs, g, min(t_ext, 10 if tier == 'quick' else 40), log)
        secs += r[2]
        if r[0] == 'proved':
            hyps.append(g)
            nst += 1
        else:
            log.append('lemma %s: %s' % (sname, r[0]))
    r = prove(hyps, ob.goal, t_ext, log)
    if r[0] == 'unknown' and ob.cex_ok:
        t = search(list(ob.hyps) + [not_(ob.goal)], 20 if tier == 'quick' else 90)
        if t is not None:
            r = ('refuted', 'search', r[2], t)
        elif ob.p is not None and not quantified(ob.goal):
            # candidate for replay only: what the path knows about lists and maps (quantified) is left to the real code
            lits = literals(ob.hyps)
            known = set(literals(ob.p.pc))
            if any(quantified(h) for h in lits) and not any(quantified(h) and h not in known for h in lits):
                ts = []
                if not ground.prove(list(ob.hyps), ob.goal, 4.0, rounds=2, cap=1000, out=ts) and ts:
                    t = search(ts, 12 if tier == 'quick' else 40)
                    if t is not None:
                        r = ('unknown', r[1], r[2], t)
    return (r[0], r[1], r[2] + secs, r[3], log, nst, len(ob.steps))


_OBS, _TIER = None, None


def _work(i):
    try:
        q0, s0 = smt.STATS['queries'], smt.STATS['solver_s']
        r = discharge(_OBS[i], _TIER)
        return i, r, smt.STATS['queries'] - q0, smt.STATS['solver_s'] - s0
    except Exception as e:
        return i, ('unknown', 'error', 0.0, None, [traceback.format_exc()[-600:]], 0, 0), 0, 0


def _reach(i):
    n, pc = _OBS[i]
    try:
        r = smt.check_z3(pc, 1500)
        return n, bool(r.status == 'sat' and smt.check_model(pc, r.model))
    except Exception:
        return n, False


class Checker:
    def __init__(self, pid, tier):
        self.pid, self.tier = pid, tier
        self.t0 = time.time()
        self.obs, self.runs, self.cons = [], [], {}
        self.notes, self.undecided, self.bounded = [], [], []
        self.build_s = 0
        self.violations = []
        self.assume_txt = []
        self.reach = {}

    def guard(self, what):
        """with ck.guard(x): a part of a specification that is reported undecided when the engine cannot follow the code"""
        return _Guard(self, what)

    def reach_all(self):
        """which of the entries that ran have a path shown to complete (a model of its path condition)"""
        jobs = []
        for r in self.runs:
            for p in r.paths[:3]:
                jobs.append((r.name, p.pc))
        global _OBS
        _OBS = jobs
        if jobs:
            with multiprocessing.get_context('fork').Pool(min(NPROC, len(jobs))) as pool:
                for n, okk in pool.imap_unordered(_reach, range(len(jobs)), chunksize=1):
                    self.reach[n] = self.reach.get(n, False) or okk
        _OBS = None

    def contract(self, key):
        if key not in self.cons:
            h, s = build.build([key])
            self.src_hash = h
            self.build_s += s
            self.cons[key] = Contract(key, self)
        return self.cons[key]

    # ---- stating obligations
    def ob(self, name, hyps, goal, steps=(), p=None, **kw):
        goal = lift(goal)
        st = []
        for s in steps:
            if isinstance(s, T):
                st.append(('step', s, None))
            else:
                st.append((s[0], s[1], s[2] if len(s) > 2 else None))
        o = Ob(name, [lift(h) for h in hyps], goal, st, p, **kw)
        self.obs.append(o)
        return o

    def lemma(self, name, n, f):
        """f(*vars) -> (hyps, goal): proved once for fresh variables, then used as instances"""
        vs = [app('lem.%s.%d' % (name, i)) for i in range(n)]
        if ('lemma ' + name) not in [o.name for o in self.obs]:
            h, g = f(*vs)
            self.ob('lemma ' + name, h, g)

        def inst(*ts):
            h, g = f(*[lift(t) for t in ts])
            return implies(and_(*h), g)
        return inst

    def path(self, p, name, goal, hyps=(), steps=(), **kw):
        return self.ob('%s: %s' % (p.name, name), p.pc + list(hyps), goal, steps, p, **kw)

    def nonvacuous(self, run, msg='completes for some input'):
        """the entry has a path that can return: guards against a vacuous contract"""
        if not run.paths:
            self.notes.append('%s has no returning path' % run.name)
            o = self.ob('%s: %s' % (run.name, msg), [], FALSE, cex_ok=False)
            return False
        return True

    def retry(self):
        """a second, longer attempt at what no back end decided: an obligation is reported failed only after it"""
        todo = [o for o in self.obs if o.res[0] == 'unknown']
        if not todo:
            return
        todo = todo[:16]
        old = [o.res for o in todo]
        for o in todo:
            o.res = None
            o.budget = 60
        self.discharge_all()
        for o, r in zip(todo, old):
            if o.res is None:
                o.res = r

    # ---- discharging
    def discharge_all(self):
        global _OBS, _TIER
        todo = []
        for i, o in enumerate(self.obs):
            if o.res is None:
                if o.goal is TRUE:
                    o.res = ('proved', 'simplifier', 0.0, None, [], 0, 0)
                else:
                    todo.append(i)
        _OBS, _TIER = self.obs, self.tier
        if todo:
            with multiprocessing.get_context('fork').Pool(min(NPROC, len(todo))) as pool:
                for i, r, q, s in pool.imap_unordered(_work, todo, chunksize=1):
                    self.obs[i].res = r
                    smt.STATS['queries'] += q
                    smt.STATS['solver_s'] += s
        _OBS = None
