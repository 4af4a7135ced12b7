"""Ground instantiation: an additional proof attempt for goals with quantified hypotheses.

Quantified hypotheses are replaced by the conjunction of their instances at the ground terms occurring in the problem (several
rounds), refuted ones by an instance at fresh constants; the result has no quantifiers.  An instance of a hypothesis follows from
it, so an unsatisfiable instance set proves the goal; anything else says nothing."""
import itertools, time
from . import smt
from .terms import *

DEBUG = False
FRESH = itertools.count()


def _nnf(t, pos):
    """skolemise: push negation down to quantifiers, replace refuted universals by an instance at fresh constants"""
    if not any(u.op == 'forall' for u in subterms([t])):
        return t if pos else not_(t)
    if t.op == 'not':
        return _nnf(t.args[0], not pos)
    if t.op == 'and':
        f = and_ if pos else or_
        return f(*[_nnf(x, pos) for x in t.args])
    if t.op == 'or':
        f = or_ if pos else and_
        return f(*[_nnf(x, pos) for x in t.args])
    if t.op == 'forall':
        if pos:
            return t
        if free_bvars(t) or shadowed(t):
            return not_(t)
        m = {bvar(v): app('sk!%d' % next(FRESH)) for v in t.args[0]}
        return _nnf(subst(t.args[1], m), False)
    return t if pos else not_(t)


def _patterns(body, names):
    """per bound variable: places (app name, argument position, offset) where it occurs linearly with coefficient one"""
    out = {v: set() for v in names}
    for u in subterms([body]):
        if u.op != 'app':
            continue
        for i, a in enumerate(u.args[1:]):
            for v in names:
                b = bvar(v)
                off = sub(a, b)
                if not any(w.op == 'bvar' for w in subterms([off])):
                    out[v].add((u.args[0], i, off))
    return out


def _candidates(terms):
    idx = {}
    for u in subterms(terms):
        if u.op == 'app':
            for i, a in enumerate(u.args[1:]):
                if smt.CTX._has_bvar(a):
                    continue
                idx.setdefault((u.args[0], i), set()).add(a)
    return idx


def _bounds(body, names):
    """bounds of the bound variables mentioned in the guard: 'v <= e' gives the candidates e, e - 1, e + 1"""
    out = {v: set() for v in names}
    for u in subterms([body]):
        if u.op in ('le', 'eq0'):
            d = u.args[0]
            for v in names:
                b = bvar(v)
                for e in (sub(b, d), add(d, b)):        # d = v - e or d = e - v
                    if not any(w.op == 'bvar' for w in subterms([e])):
                        out[v].add(e)
    return out


def prove(hyps, goal, secs=6.0, rounds=3, cap=4000, out=None):
    """out: receives the instances last tried, for a counterexample candidate"""
    t_end = time.time() + secs
    fs = [_nnf(h, True) for h in hyps] + [_nnf(goal, False)]
    done = set()
    inst = []
    flats = fs
    if out is not None:
        out[:] = [propositional(t) for t in fs]
    for rnd in range(rounds):
        gp = flats + inst
        qs = sorted((u for u in subterms(gp) if u.op == 'forall' and not free_bvars(u) and not shadowed(u)), key=lambda u: u.id)
        idx = _candidates([propositional(t) for t in gp])
        new = []
        for q in qs:
            names = list(q.args[0])
            pats = _patterns(q.args[1], names)
            bnds = _bounds(q.args[1], names)
            cands = []
            for v in names:
                c = set()
                for f, i, off in pats[v]:
                    if smt.CTX._has_bvar(off):
                        continue
                    for a in idx.get((f, i), ()):
                        c.add(sub(a, off))
                for e in bnds[v]:
                    if not smt.CTX._has_bvar(e):
                        c.add(e)
                        if rnd == 0:
                            c.add(sub(e, I(1)))
                            c.add(add(e, I(1)))
                c = sorted(c, key=lambda t: (size(t), t.id))[:40]
                cands.append(c)
            if DEBUG:
                print(show(q,9)[:200], [[show(x) for x in c] for c in cands])
            n = 1
            for c in cands:
                n *= max(1, len(c))
            while n > 600:
                i = max(range(len(cands)), key=lambda j: len(cands[j]))
                cands[i] = cands[i][:max(1, len(cands[i]) * 2 // 3)]
                n = 1
                for c in cands:
                    n *= max(1, len(c))
            for combo in itertools.product(*cands):
                key = (q, combo)
                if key in done:
                    continue
                done.add(key)
                b = subst(q.args[1], {bvar(v): c for v, c in zip(names, combo)})
                if b is TRUE:
                    continue
                new.append(implies(q, _nnf(b, True)))
                if len(done) > cap or time.time() > t_end:
                    break
            if len(done) > cap or time.time() > t_end:
                break
        if not new:
            break
        inst += new
        left = t_end - time.time()
        if left <= 0:
            return False
        ts = [propositional(t) for t in flats + inst]
        if out is not None:
            out[:] = ts
        r = smt.check_z3(ts, int(1000 * min(left, 3.0)))
        if r.status == 'unsat':
            return True
        if len(done) > cap:
            break
    return False


def shadowed(q):
    return any(u.op == 'forall' and set(u.args[0]) & set(q.args[0]) for u in subterms([q.args[1]]))


def size(t):
    return len(subterms([t]))


_free = {}


def free_bvars(t):
    r = _free.get(t)
    if r is None:
        bound = set()
        r = set()

        def go(u, bnd):
            if u.op == 'bvar':
                if u.args[0] not in bnd:
                    r.add(u.args[0])
                return
            if u.op == 'forall':
                go(u.args[1], bnd | set(u.args[0]))
                return
            for c in children(u):
                if smt.CTX._has_bvar(c):
                    go(c, bnd)
        go(t, frozenset())
        _free[t] = r
    return r


_pm = {}


def propositional(t):
    """t with every quantifier replaced by a proposition (equal quantified formulas by the same one)"""
    r = _pm.get(t)
    if r is None:
        m = {}
        for u in subterms([t]):
            if u.op == 'forall' and not free_bvars(u):
                m[u] = bapp('quant!%d' % u.id)
        r = _pm[t] = subst(t, m) if m else t
    return r
