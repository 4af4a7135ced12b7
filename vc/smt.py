"""SMT encoding and the solver portfolio (z3 in process, z3-new / z3 / cvc5 as processes)."""
import os, re, subprocess, tempfile, time, itertools, shutil
from . import terms as tm
from .terms import *
import z3

STATS = {'solver_s': 0.0, 'by': {}, 'queries': 0}


# ------------------------------------------------------------------ in-process z3
class Z3Ctx:
    """translation T -> z3 with memo; side axioms for div etc. collected per term"""

    def __init__(self):
        self.memo = {}
        self.side = {}      # T -> list of z3 axioms (for the term itself only)
        self.funs = {}
        self.kids = {}

    def fun(self, name, n):
        f = self.funs.get((name, n))
        if f is None:
            if n == 0:
                f = z3.Int(name)
            else:
                f = z3.Function(name, *([z3.IntSort()] * (n + 1)))
            self.funs[(name, n)] = f
        return f

    def tr(self, t):
        r = self.memo.get(t)
        if r is not None:
            return r
        stack = [t]
        while stack:
            u = stack[-1]
            if u in self.memo:
                stack.pop()
                continue
            pend = [c for c in children(u) if c not in self.memo]
            if pend:
                stack.extend(pend)
                continue
            stack.pop()
            self.memo[u] = self._tr1(u)
        return self.memo[t]

    def _tr1(self, u):
        o = u.op
        m = self.memo
        if o == 'int':
            return z3.IntVal(u.args[0])
        if o == 'bool':
            return z3.BoolVal(u.args[0])
        if o == 'bvar':
            return z3.Int('?' + u.args[0])
        if o == 'app':
            n = len(u.args) - 1
            f = self.fun(u.args[0], n)
            r = f if n == 0 else f(*[m[a] for a in u.args[1:]])
            ty = APP_TYPE.get(u.args[0])
            if ty is not None:
                lo, hi = RANGES[ty]
                ax = [r >= lo]
                if hi is not None:
                    ax.append(r <= hi)
                self.side[u] = ax
            return r
        if o == 'poly':
            s = []
            for mon, c in u.args[0]:
                p = None
                for x in mon:
                    p = m[x] if p is None else p * m[x]
                if p is None:
                    s.append(z3.IntVal(c))
                elif c == 1:
                    s.append(p)
                else:
                    s.append(z3.IntVal(c) * p)
            return z3.Sum(s) if len(s) > 1 else s[0]
        if o == 'tdiv':
            a, b = m[u.args[0]], m[u.args[1]]
            if self._bound(u):
                bt = u.args[1]
                fd = a / b
                return z3.If(a >= 0, a / b, -((-a) / b))
            q = z3.Int('q!%d' % u.id)
            r = z3.Int('r!%d' % u.id)
            self.side[u] = div_axioms_z3(a, b, q, r, u.args[1])
            return q
        if o == 'wrap':
            x = m[u.args[0]]
            lo, hi = RANGES[u.args[1]]
            k = z3.Int('k!%d' % u.id)
            w = z3.Int('w!%d' % u.id)
            self.side[u] = [w == x - k * (hi - lo + 1), w >= lo, w <= hi]
            return w
        if o == 'isqrt':
            x = m[u.args[0]]
            r = z3.Int('s!%d' % u.id)
            self.side[u] = [z3.Implies(x >= 0, z3.And(r >= 0, r * r <= x, x < r * r + 2 * r + 1))]
            return r
        if o == 'pow':
            b, e = u.args
            r = z3.Int('p!%d' % u.id)
            ax = []
            if is_int(b) and ival(b) >= 2:
                for k in range(0, 40):
                    ax.append(z3.Implies(m[e] == k, r == ival(b) ** k))
                ax.append(z3.Implies(m[e] > 39, r > ival(b) ** 39))
                ax.append(z3.Implies(m[e] >= 0, r >= 1))
            self.side[u] = ax
            return r
        if o == 'ite':
            return z3.If(m[u.args[0]], m[u.args[1]], m[u.args[2]])
        if o == 'not':
            return z3.Not(m[u.args[0]])
        if o == 'and':
            return z3.And(*[m[x] for x in u.args])
        if o == 'or':
            return z3.Or(*[m[x] for x in u.args])
        if o == 'le':
            return self._split(u.args[0], '<=')
        if o == 'eq0':
            return self._split(u.args[0], '==')
        if o == 'forall':
            return z3.ForAll([z3.Int('?' + v) for v in u.args[0]], m[u.args[1]])
        raise AssertionError(o)

    def _split(self, d, op):
        """a - b op 0  ->  a op b with nonnegative coefficients on both sides"""
        m = self.memo
        if d.op != 'poly':
            return m[d] <= 0 if op == '<=' else m[d] == 0
        L, R = [], []
        for mon, c in d.args[0]:
            p = None
            for x in mon:
                p = m[x] if p is None else p * m[x]
            k = abs(c)
            e = z3.IntVal(k) if p is None else (p if k == 1 else z3.IntVal(k) * p)
            (L if c > 0 else R).append(e)
        l = z3.Sum(L) if len(L) > 1 else (L[0] if L else z3.IntVal(0))
        r = z3.Sum(R) if len(R) > 1 else (R[0] if R else z3.IntVal(0))
        return l <= r if op == '<=' else l == r

    def _bound(self, u):
        return any(x.op == 'bvar' for x in subterms([u]))

    def axioms(self, ts):
        out = []
        quant = {}
        for u in subterms(ts):
            if u.op == 'app' and self._has_bvar(u):
                quant[(u.args[0], len(u.args) - 1)] = u
                continue
            s = self.side.get(u)
            if s:
                out.extend(s)
        for (name, n), u in quant.items():
            ty = APP_TYPE.get(name)
            if ty is None:
                continue
            lo, hi = RANGES[ty]
            xs = [z3.Int('?a%d' % i) for i in range(n)]
            f = self.fun(name, n)(*xs)
            body = [f >= lo] + ([f <= hi] if hi is not None else [])
            out.append(z3.ForAll(xs, z3.And(*body), patterns=[f]))
        return out

    def _has_bvar(self, u):
        r = self.kids.get(u)
        if r is None:
            r = u.op == 'bvar' or any(self._has_bvar(c) for c in children(u))
            self.kids[u] = r
        return r


def div_axioms_z3(a, b, q, r, bt):
    ax = [z3.Implies(b != 0, a == b * q + r)]
    if is_int(bt) and ival(bt) > 0:
        ax = [a == b * q + r, z3.Implies(a >= 0, z3.And(r >= 0, r < b, q >= 0)),
              z3.Implies(a <= 0, z3.And(r <= 0, -b < r, q <= 0))]
        return ax
    ax += [z3.Implies(z3.And(a >= 0, b > 0), z3.And(r >= 0, r < b, q >= 0, q <= a)),
           z3.Implies(z3.And(a <= 0, b > 0), z3.And(r <= 0, -b < r, q <= 0, q >= a)),
           z3.Implies(z3.And(a >= 0, b < 0), z3.And(r >= 0, r < -b, q <= 0)),
           z3.Implies(z3.And(a <= 0, b < 0), z3.And(r <= 0, b < r, q >= 0))]
    return ax


CTX = Z3Ctx()


class LinCtx(Z3Ctx):
    """over-approximation for path feasibility: products and quotients of unknowns are opaque"""

    def _mono(self, u, mon):
        m = self.memo
        if len(mon) == 1:
            return m[mon[0]]
        v = z3.Int('m!' + '.'.join(str(x.id) for x in mon))
        xs = [m[x] for x in set(mon)]
        self.side.setdefault(u, []).append(z3.Implies(z3.And(*[x >= 0 for x in xs]), v >= 0))
        return v

    def _tr1(self, u):
        o = u.op
        m = self.memo
        if o == 'poly':
            s = []
            for mon, c in u.args[0]:
                if not mon:
                    s.append(z3.IntVal(c))
                else:
                    p = self._mono(u, mon)
                    s.append(p if c == 1 else z3.IntVal(c) * p)
            return z3.Sum(s) if len(s) > 1 else s[0]
        if o == 'tdiv' and not is_int(u.args[1]):
            a, b = m[u.args[0]], m[u.args[1]]
            q = z3.Int('q!%d' % u.id)
            self.side[u] = [z3.Implies(z3.And(a >= 0, b > 0), z3.And(q >= 0, q <= a)),
                            z3.Implies(z3.And(a >= 0, b > 0, a < b), q == 0),
                            z3.Implies(z3.And(a >= 0, b > 0, a >= b), q >= 1),
                            z3.Implies(z3.And(a <= 0, b > 0), q <= 0)]
            return q
        if o == 'isqrt':
            x = m[u.args[0]]
            r = z3.Int('s!%d' % u.id)
            self.side[u] = [z3.Implies(x >= 0, z3.And(r >= 0, r <= x)), z3.Implies(x >= 1, r >= 1)]
            return r
        if o == 'forall':
            return z3.Bool('fa!%d' % u.id)
        return super()._tr1(u)

    def _split(self, d, op):
        x = self.memo[d]
        return x <= 0 if op == '<=' else x == 0

    def _bound(self, u):
        return False

    def axioms(self, ts):
        out = []
        seen = set()
        st = list(ts)
        while st:
            t = st.pop()
            if t in seen or t.op == 'forall':
                continue
            seen.add(t)
            s = self.side.get(t)
            if s:
                out.extend(s)
            st.extend(children(t))
        return out


LIN = LinCtx()


def relevant(pc, goal, hops=3):
    """hypotheses sharing unknowns with the goal (transitively, a few steps)"""
    def atoms(t):
        if t.fv is None:
            t.fv = frozenset(u for u in subterms([t]) if u.op == 'app')
        return t.fv
    cur = set(atoms(goal))
    out, rest = [], list(pc)
    for _ in range(hops):
        nr, add_ = [], set()
        for h in rest:
            a = atoms(h)
            if a & cur:
                out.append(h)
                if len(a) <= 12:
                    add_ |= a
            else:
                nr.append(h)
        rest = nr
        if not add_ - cur:
            break
        cur |= add_
    return out


def lin_check(ts, timeout_ms):
    for t in ts:
        if t is FALSE:
            return 'unsat'
    t0 = time.time()
    s = z3.Solver()
    s.set('timeout', timeout_ms)
    for t in ts:
        s.add(LIN.tr(t))
    s.add(*LIN.axioms(ts))
    r = str(s.check())
    STATS['solver_s'] += time.time() - t0
    STATS['queries'] += 1
    return r


def quick_check(ts, timeout_ms=400):
    """'sat' / 'unsat' / 'unknown' with a small budget."""
    for t in ts:
        if t is FALSE:
            return 'unsat'
    t0 = time.time()
    s = z3.SolverFor('QF_UFNIA') if False else z3.Solver()
    s.set('timeout', timeout_ms)
    for t in ts:
        s.add(CTX.tr(t))
    s.add(*CTX.axioms(ts))
    r = str(s.check())
    STATS['solver_s'] += time.time() - t0
    STATS['queries'] += 1
    return r


class Feas:
    """incremental feasibility along one path prefix is rebuilt per query (cheap enough);
    linear abstraction only: nonlinear monomials are treated by z3 with a tiny budget"""
    cache = {}

    @staticmethod
    def feasible(ts, timeout_ms=250):
        key = frozenset(t.id for t in ts)
        r = Feas.cache.get(key)
        if r is None:
            r = lin_check(ts, timeout_ms)
            Feas.cache[key] = r
        return r != 'unsat'


# ------------------------------------------------------------------ SMT-LIB text
def _q(n):
    return '|%s|' % n.replace('|', '!').replace('\\', '/')


def smtlib(ts, real=False, get_values=None):
    """SMT-LIB text asserting all of ts (plus definitional axioms). real=True: relaxation to reals,
    apps with arguments become constants (sound for unsat)."""
    sort = 'Real' if real else 'Int'
    decls, defs, axs = {}, [], []
    memo = {}
    all_ = subterms(ts)
    qf = {}

    def num(n):
        s = str(abs(n)) + ('.0' if real else '')
        return s if n >= 0 else '(- %s)' % s

    def side(u, name):
        pass

    def has_b(u):
        return CTX._has_bvar(u)

    order = sorted(all_, key=lambda u: u.id)
    # children always have smaller ids than parents (hash-consing creates them first)
    for u in order:
        o = u.op
        m = memo
        if o == 'int':
            r = num(u.args[0])
        elif o == 'bool':
            r = 'true' if u.args[0] else 'false'
        elif o == 'bvar':
            if real:
                return None
            r = _q('?' + u.args[0])
        elif o == 'app':
            n = len(u.args) - 1
            if real and n:
                if has_b(u):
                    return None
                nm = 'a!%d' % u.id
                decls[nm] = '(declare-const %s %s)' % (nm, sort)
                r = nm
            else:
                nm = _q(u.args[0])
                decls[(nm, n)] = '(declare-fun %s (%s) %s)' % (nm, ' '.join([sort] * n), sort)
                r = nm if n == 0 else '(%s %s)' % (nm, ' '.join(m[a] for a in u.args[1:]))
            ty = APP_TYPE.get(u.args[0])
            if ty is not None:
                lo, hi = RANGES[ty]
                if has_b(u):
                    qf[(u.args[0], n)] = (lo, hi)
                else:
                    axs.append('(<= %s %s)' % (num(lo), r))
                    if hi is not None:
                        axs.append('(<= %s %s)' % (r, num(hi)))
        elif o == 'poly':
            r = _polytxt(u.args[0], m, num)
        elif o == 'tdiv':
            a, b = m[u.args[0]], m[u.args[1]]
            if has_b(u):
                if real:
                    return None
                r = '(ite (<= 0 %s) (div %s %s) (- (div (- %s) %s)))' % (a, a, b, a, b)
            else:
                q, rr = 'q!%d' % u.id, 'r!%d' % u.id
                decls[q] = '(declare-const %s %s)' % (q, sort)
                decls[rr] = '(declare-const %s %s)' % (rr, sort)
                if is_int(u.args[1]) and ival(u.args[1]) > 0:
                    axs += ['(= %s (+ (* %s %s) %s))' % (a, b, q, rr),
                            '(=> (<= 0 {a}) (and (<= 0 {r}) (< {r} {b}) (<= 0 {q})))'.format(a=a, b=b, r=rr, q=q),
                            '(=> (<= {a} 0) (and (<= {r} 0) (< (- {b}) {r}) (<= {q} 0)))'.format(a=a, b=b, r=rr, q=q)]
                else:
                    axs += ['(=> (distinct {b} 0) (= {a} (+ (* {b} {q}) {r})))'.format(a=a, b=b, r=rr, q=q),
                            '(=> (and (<= 0 {a}) (< 0 {b})) (and (<= 0 {r}) (< {r} {b}) (<= 0 {q}) (<= {q} {a})))'.format(a=a, b=b, r=rr, q=q),
                            '(=> (and (<= {a} 0) (< 0 {b})) (and (<= {r} 0) (< (- {b}) {r}) (<= {q} 0) (<= {a} {q})))'.format(a=a, b=b, r=rr, q=q),
                            '(=> (and (<= 0 {a}) (< {b} 0)) (and (<= 0 {r}) (< {r} (- {b})) (<= {q} 0)))'.format(a=a, b=b, r=rr, q=q),
                            '(=> (and (<= {a} 0) (< {b} 0)) (and (<= {r} 0) (< {b} {r}) (<= 0 {q})))'.format(a=a, b=b, r=rr, q=q)]
                r = q
        elif o == 'wrap':
            x = m[u.args[0]]
            lo, hi = RANGES[u.args[1]]
            w, k = 'w!%d' % u.id, 'k!%d' % u.id
            decls[w] = '(declare-const %s %s)' % (w, sort)
            if not real:
                decls[k] = '(declare-const %s Int)' % k
                axs.append('(= %s (- %s (* %s %s)))' % (w, x, k, num(hi - lo + 1)))
            axs += ['(<= %s %s)' % (num(lo), w), '(<= %s %s)' % (w, num(hi)),
                    '(=> (and (<= {lo} {x}) (<= {x} {hi})) (= {w} {x}))'.format(lo=num(lo), hi=num(hi), x=x, w=w)]
            r = w
        elif o == 'isqrt':
            x = m[u.args[0]]
            s = 's!%d' % u.id
            decls[s] = '(declare-const %s %s)' % (s, sort)
            axs.append('(=> (<= 0 {x}) (and (<= 0 {s}) (<= (* {s} {s}) {x}) (< {x} (* (+ {s} 1) (+ {s} 1)))))'.format(x=x, s=s))
            r = s
        elif o == 'pow':
            p = 'p!%d' % u.id
            decls[p] = '(declare-const %s %s)' % (p, sort)
            b, e = u.args
            if is_int(b) and ival(b) >= 2:
                for k in range(0, 40):
                    axs.append('(=> (= %s %s) (= %s %s))' % (m[e], num(k), p, num(ival(b) ** k)))
                axs.append('(=> (< %s %s) (< %s %s))' % (num(39), m[e], num(ival(b) ** 39), p))
                axs.append('(=> (<= 0 %s) (<= 1 %s))' % (m[e], p))
            r = p
        elif o == 'ite':
            r = '(ite %s %s %s)' % tuple(m[x] for x in u.args)
        elif o == 'not':
            r = '(not %s)' % m[u.args[0]]
        elif o in ('and', 'or'):
            r = '(%s %s)' % (o, ' '.join(m[x] for x in u.args))
        elif o in ('le', 'eq0'):
            d = u.args[0]
            cmp = '<=' if o == 'le' else '='
            if d.op == 'poly':
                L = tuple((mm, c) for mm, c in d.args[0] if c > 0)
                R = tuple((mm, -c) for mm, c in d.args[0] if c < 0)
                r = '(%s %s %s)' % (cmp, _polytxt(L, m, num), _polytxt(R, m, num))
            else:
                r = '(%s %s %s)' % (cmp, m[d], num(0))
        elif o == 'forall':
            if real:
                return None
            r = '(forall (%s) %s)' % (' '.join('(%s Int)' % _q('?' + v) for v in u.args[0]), m[u.args[1]])
        else:
            raise AssertionError(o)
        if len(r) > 60 and not has_b(u) and u.op != 'forall':
            nm = 'd!%d' % u.id
            defs.append('(define-fun %s () %s %s)' % (nm, 'Bool' if u.sort == BOOL else sort, r))
            r = nm
        memo[u] = r
    out = list(decls.values()) + defs
    for (name, n), (lo, hi) in qf.items():
        xs = ['x%d' % i for i in range(n)]
        f = '(%s %s)' % (_q(name), ' '.join(xs))
        body = '(<= %s %s)' % (num(lo), f)
        if hi is not None:
            body = '(and %s (<= %s %s))' % (body, f, num(hi))
        out.append('(assert (forall (%s) (! %s :pattern (%s))))' % (' '.join('(%s Int)' % x for x in xs), body, f))
    out += ['(assert %s)' % a for a in axs]
    out += ['(assert %s)' % memo[t] for t in ts]
    tail = ''
    if get_values is not None:
        gv = [u for u in order if u.op == 'app' and not has_b(u)]
        get_values.extend(gv)
    return '\n'.join(out) + '\n'


def _polytxt(items, m, num):
    s = []
    for mon, c in items:
        f = [m[x] for x in mon]
        if c != 1 or not f:
            f = [num(c)] + f
        s.append(f[0] if len(f) == 1 else '(* %s)' % ' '.join(f))
    if not s:
        return num(0)
    return s[0] if len(s) == 1 else '(+ %s)' % ' '.join(s)


# ------------------------------------------------------------------ proving
class Result:
    def __init__(self, status, by, secs, model=None, output=''):
        self.status, self.by, self.secs, self.model, self.output = status, by, secs, model, output


def model_from_z3(mod, ts):
    vals = {}
    for u in subterms(ts):
        if u.op == 'app' and not CTX._has_bvar(u):
            v = mod.eval(CTX.tr(u), model_completion=True)
            try:
                vals[u] = v.as_long()
            except Exception:
                return None
    return vals


def check_z3(ts, timeout_ms, tactic=None):
    t0 = time.time()
    s = z3.Solver() if tactic is None else z3.Tactic(tactic).solver()
    s.set('timeout', timeout_ms)
    for t in ts:
        s.add(CTX.tr(t))
    s.add(*CTX.axioms(ts))
    r = str(s.check())
    model = None
    if r == 'sat':
        model = model_from_z3(s.model(), ts)
    dt = time.time() - t0
    STATS['solver_s'] += dt
    STATS['queries'] += 1
    return Result(r, 'z3-py', dt, model)


SCRATCH = None


def scratch():
    global SCRATCH
    if SCRATCH is None:
        SCRATCH = tempfile.mkdtemp(prefix='vcsmt')
        import atexit
        atexit.register(lambda: shutil.rmtree(SCRATCH, ignore_errors=True))
    return SCRATCH


_fc = itertools.count()


def portfolio(ts, timeout_s=20, want_model=True):
    """race external solvers on the satisfiability of ts"""
    d = scratch()
    k = next(_fc)
    quant = any(t.op == 'forall' for t in subterms(ts))
    gv = []
    itxt = smtlib(ts, False, gv)
    rtxt = None if quant else smtlib(ts, True)
    gvs = ''
    if gv:
        # print through a second encoding run to get the printed form of each app
        gvs = '(get-value (%s))\n' % ' '.join(_app_txt(u) for u in gv if all(c.op in ('int', 'app') for c in subterms([u])))
        gvl = [u for u in gv if all(c.op in ('int', 'app') for c in subterms([u]))]
    cfgs = []
    base = '(set-logic ALL)\n'
    f_i = os.path.join(d, 'q%d.smt2' % k)
    open(f_i, 'w').write('(set-option :produce-models true)\n' + base + itxt + '(check-sat)\n' + gvs)
    cfgs.append(('z3-new', ['z3-new', '-T:%d' % timeout_s, f_i], False))
    cfgs.append(('cvc5', ['cvc5', '--tlimit=%d' % (timeout_s * 1000), '--nl-ext-tplanes', f_i], False))
    cfgs.append(('z3', ['z3', '-T:%d' % timeout_s, 'smt.arith.solver=2', f_i], False))
    if rtxt is not None:
        f_r = os.path.join(d, 'q%dr.smt2' % k)
        open(f_r, 'w').write('(set-logic QF_NRA)\n' + rtxt + '(check-sat)\n')
        cfgs.append(('cvc5-nra', ['cvc5', '--tlimit=%d' % (timeout_s * 1000), '--nl-cov', f_r], True))
        f_r2 = os.path.join(d, 'q%dr2.smt2' % k)
        open(f_r2, 'w').write(rtxt + '(check-sat-using (then simplify propagate-values solve-eqs qfnra-nlsat))\n')
        cfgs.append(('z3-nlsat', ['z3-new', '-T:%d' % timeout_s, f_r2], True))
    t0 = time.time()
    procs = []
    for name, cmd, relaxed in cfgs:
        of = os.path.join(d, 'o%d_%s' % (k, name))
        fh = open(of, 'w')
        procs.append([name, subprocess.Popen(cmd, stdout=fh, stderr=subprocess.STDOUT), relaxed, of, fh])
    res = None
    live = list(procs)
    outs = {}
    while live and res is None and time.time() - t0 < timeout_s + 5:
        for p in list(live):
            if p[1].poll() is not None:
                live.remove(p)
                p[4].close()
                out = open(p[3]).read()
                outs[p[0]] = out[:400]
                first = out.strip().split('\n')[0].strip() if out.strip() else ''
                if first == 'unsat':
                    res = Result('unsat', p[0], time.time() - t0)
                    break
                if first == 'sat' and not p[2]:
                    mv = _parse_values(out, gvl) if gv else {}
                    res = Result('sat', p[0], time.time() - t0, mv, out[:2000])
                    break
        time.sleep(0.01)
    for p in procs:
        if p[1].poll() is None:
            p[1].kill()
            p[1].wait()
        try:
            p[4].close()
            os.unlink(p[3])
        except Exception:
            pass
    for f in os.listdir(d):
        if f.startswith('q%d' % k) and (f[len('q%d' % k):][:1] in '.r'):
            os.unlink(os.path.join(d, f))
    if res is None:
        res = Result('unknown', '-', time.time() - t0, None, str(outs)[:1500])
    STATS['solver_s'] += res.secs
    STATS['queries'] += 1
    return res


def _app_txt(u):
    if u.op == 'int':
        return str(ival(u)) if ival(u) >= 0 else '(- %d)' % -ival(u)
    n = len(u.args) - 1
    if n == 0:
        return _q(u.args[0])
    return '(%s %s)' % (_q(u.args[0]), ' '.join(_app_txt(a) for a in u.args[1:]))


def _parse_values(out, gvl):
    body = out[out.find('\n') + 1:]
    toks = re.findall(r'\|[^|]*\||[()]|[^\s()]+', body)
    pos = 0

    def parse():
        nonlocal pos
        t = toks[pos]
        pos += 1
        if t == '(':
            l = []
            while toks[pos] != ')':
                l.append(parse())
            pos += 1
            return l
        return t
    try:
        lst = parse()
    except IndexError:
        return None

    def num(x):
        if isinstance(x, list):
            if x[0] == '-' and len(x) == 2:
                return -num(x[1])
            raise ValueError
        return int(float(x)) if '.' in x else int(x)
    vals = {}
    try:
        for u, pr in zip(gvl, lst):
            vals[u] = num(pr[1])
    except (ValueError, IndexError):
        return None
    return vals


def model_env(vals):
    """name,args -> value function from a dict app-term -> value (args evaluated recursively)"""
    tab = {}
    pend = dict(vals)

    def env(name, args):
        if args is None:
            raise EvalError('bvar')
        return tab.get((name, args), 0)
    # apps sorted by id: inner apps first
    for u in sorted(pend, key=lambda x: x.id):
        args = tuple(evaluate(a, env) for a in u.args[1:])
        tab[(u.args[0], args)] = pend[u]
    env.table = tab
    return env


def check_model(ts, vals):
    """does the model really satisfy all of ts under exact evaluation?"""
    if vals is None:
        return False
    env = model_env(vals)
    memo = {}
    try:
        ok = all(evaluate(t, env, memo) for t in ts)
        if not ok:
            return False
        for (name, args), v in env.table.items():
            ty = APP_TYPE.get(name)
            if ty is not None:
                lo, hi = RANGES[ty]
                if v < lo or (hi is not None and v > hi):
                    return False
        return True
    except EvalError:
        return None
