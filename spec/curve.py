"""Contracts of the release curves (packages/curve)."""
from vc.check import *
from vc.terms import *
from vc.values import *
from vc import exec as ex, loops as lp, models, terms as tm
from spec.curvefn import CurveFns, vkey

cnt = tm._cnt


def b(n='a'):
    return bvar('%s%d' % (n, next(cnt)))


class Steps:
    """a list of steps: times t, values v"""

    def __init__(self, W, vec):
        self.W, self.vec, self.n = W, vec, vec.len

    def t(self, k):
        return field(self.W, self.vec.at(lift(k)), 'time')

    def v(self, k):
        return field(self.W, self.vec.at(lift(k)), 'value')

    def pairs(self, rel, n=None, lo=0):
        """rel(a, b) for all lo <= a < b < n"""
        x, y = b(), b()
        return forall([x.args[0], y.args[0]], implies(and_(le(lo, x), lt(x, y), lt(y, self.n if n is None else n)), rel(x, y)))

    def each(self, f, n=None):
        x = b()
        return forall([x.args[0]], implies(and_(le(0, x), lt(x, self.n if n is None else n)), f(x)))

    def sorted(self, n=None):
        return self.pairs(lambda x, y: lt(self.t(x), self.t(y)), n)

    def valid(self):
        return and_(gt(self.n, 0), self.sorted())

    def rising(self):
        return self.pairs(lambda x, y: le(self.v(x), self.v(y)))

    def falling(self):
        return self.pairs(lambda x, y: ge(self.v(x), self.v(y)))

    def between(self, i, x):
        return and_(le(0, i), lt(i, sub(self.n, 1)), le(self.t(i), x), lt(x, self.t(add(i, 1))))

    def line(self, i, x):
        return interp(self.t(i), self.v(i), self.t(add(i, 1)), self.v(add(i, 1)), x)

    def spec(self, val, x, i):
        """what the value at x is (contract of evaluation)"""
        last = sub(self.n, 1)
        return and_(implies(le(x, self.t(0)), eq(val, self.v(0))), implies(ge(x, self.t(last)), eq(val, self.v(last))),
                    implies(self.between(i, x), eq(val, self.line(i, x))))


def interp(x0, y0, x1, y1, x):
    """linear between (x0, y0) and (x1, y1), rounded toward the earlier value"""
    w = sub(x1, x0)
    return ite(gt(y1, y0), add(y0, tdiv(mul(sub(y1, y0), sub(x, x0)), w)), sub(y0, tdiv(mul(sub(y0, y1), sub(x, x0)), w)))


class Sat:
    """a saturating line"""

    def __init__(self, W, sl):
        self.x0, self.y0, self.x1, self.y1 = [field(W, sl, n) for n in ('min_x', 'min_y', 'max_x', 'max_y')]

    def valid(self):
        return lt(self.x0, self.x1)

    def spec(self, val, x):
        return and_(implies(lt(x, self.x0), eq(val, self.y0)), implies(gt(x, self.x1), eq(val, self.y1)),
                    implies(and_(le(self.x0, x), le(x, self.x1)), eq(val, interp(self.x0, self.y0, self.x1, self.y1, x))))


VARIANTS = ('Constant', 'SaturatingLinear', 'PiecewiseLinear')


def mk(W, ty, variant, name):
    """an arbitrary curve of one kind"""
    d = W.typedef(ty)
    v = ex.sym(W, ty, name)
    dd = [x for n, x, fl in d[1] if n == variant][0]
    return ex.Enum(v.ty, I(dd), {}, v.getter)


def body(W, c, variant):
    x = c.get(variant, 0)
    if variant == 'PiecewiseLinear':
        return Steps(W, field(W, x, 'steps'))
    return Sat(W, x) if variant == 'SaturatingLinear' else x


# ------------------------------------------------------------------ invariants offered to the loops over steps
def step_cands(W, st, x=None):
    def cands(X, rec):
        out = []
        poss = [get for n, get, kind in rec.leaves if kind == 'pos'] or [None]
        ints = [(n, get) for n, get, kind in rec.leaves if kind == 'int']
        disc = [(n, get) for n, get, kind in rec.leaves if kind == 'discr']

        def c(n, f):
            out.append(('spec ' + n, f))
        for g in poss:
            for off in (0, 1, -1):
                w = lambda s, k, g=g, off=off: add(k if g is None else g(s), off)
                ends = lambda s, k, w=w: smin_(w(s, k), st.n)
                if off != -1:
                    c('times rise up to here%+d' % off, lambda s, k, gh, w=w: and_(st.sorted(w(s, k)), le(w(s, k), st.n)))
                    if x is not None:
                        c('the time asked for is later%+d' % off, lambda s, k, gh, w=w: and_(st.each(lambda a: le(st.t(a), x), w(s, k)), le(w(s, k), st.n)))
                for n, get in ints:
                    for nm, f in (('time', st.t), ('value', st.v)):
                        c('%s is the %s at %+d' % (n, nm, off), lambda s, k, gh, w=w, get=get, f=f: implies(and_(ge(w(s, k), 0), lt(w(s, k), st.n)), eq(get(s), f(w(s, k)))))
                    if off == 0:
                        for rn, rel in (('least', le), ('greatest', ge)):
                            for nm, f in (('time', st.t), ('value', st.v)):
                                c('%s is the %s %s' % (n, rn, nm), lambda s, k, gh, w=w, get=get, f=f, rel=rel: st.each(lambda a: rel(get(s), f(a)), w(s, k)))
                if off == 0:
                    for n, get in disc:
                        for d in range(4):
                            for rn, rel in (('rise', le), ('fall', ge), ('stay', eq)):
                                c('%s=%d: values %s' % (n, d, rn), lambda s, k, gh, w=w, get=get, d=d, rel=rel: implies(eq(get(s), d), st.pairs(lambda p, q: rel(st.v(p), st.v(q)), w(s, k))))
                        for d in range(4):
                            for rn, rel in (('rise', le), ('fall', ge), ('stay', eq)):
                                for n2, get2 in ints:
                                    c('%s=%d: values %s to %s' % (n, d, rn, n2), lambda s, k, gh, w=w, get=get, get2=get2, d=d, rel=rel: implies(eq(get(s), d), st.each(lambda p: rel(st.v(p), get2(s)), w(s, k))))
                    for rn, rel in (('rise', le), ('fall', ge)):
                        c('values %s up to here' % rn, lambda s, k, gh, w=w, rel=rel: st.pairs(lambda p, q: rel(st.v(p), st.v(q)), w(s, k)))
        return out
    return cands


def smin_(a, c):
    return ite(lt(a, c), a, c)


def evaluate(ck):
    """Curve::value is the contract value"""
    con = ck.contract('curve')
    W, e = con.W, con.fn('Curve::value')
    ty = con.param_types(e)[0].lstrip('&')
    x = ex.sym(W, 'u64', 'arg.1')
    for var in VARIANTS:
        c = mk(W, ty, var, 'arg.0')
        bd = body(W, c, var)
        R = con.run(e, loops=lp.AutoLoop(cands=[step_cands(W, bd, x)]) if var == VARIANTS[2] else None, argv={0: c, 1: x}, tag=var)
        ck.nonvacuous(R)
        for p in R.paths:
            p_ = lambda n, goal, hyps=(), steps=(), **k: ck.path(p, '%s: %s' % (var, n), goal, list(hyps), steps, **k)
            if var == 'Constant':
                p_('the value is the constant', eq(p.ret, bd))
            elif var == 'SaturatingLinear':
                p_('before the start the value is the first', eq(p.ret, bd.y0), [bd.valid(), lt(x, bd.x0)])
                p_('after the end the value is the last', eq(p.ret, bd.y1), [bd.valid(), gt(x, bd.x1)])
                p_('in between it is the line, rounded toward the first value', eq(p.ret, interp(bd.x0, bd.y0, bd.x1, bd.y1, x)), [bd.valid(), le(bd.x0, x), le(x, bd.x1)])
            else:
                i = app('any.step', (), 'u32')
                last = sub(bd.n, 1)
                p_('up to the first step the value is the first', eq(p.ret, bd.v(0)), [bd.valid(), le(x, bd.t(0))])
                p_('from the last step on the value is the last', eq(p.ret, bd.v(last)), [bd.valid(), ge(x, bd.t(last))])
                p_('between two steps it is the line, rounded toward the earlier value', eq(p.ret, bd.line(i, x)), [bd.valid(), bd.between(i, x)])


def validate(ck, which=('increasing', 'decreasing')):
    con = ck.contract('curve')
    W = con.W
    for how in which:
        e = con.fn('Curve::validate_monotonic_' + how)
        ty = con.param_types(e)[0].lstrip('&')
        for var in VARIANTS:
            c = mk(W, ty, var, 'arg.0')
            bd = body(W, c, var)
            R = con.run(e, loops=lp.AutoLoop(cands=[step_cands(W, bd)]) if var == VARIANTS[2] else None, argv={0: c}, tag=var)
            ck.nonvacuous(R)
            for p in R.paths:
                p_ = lambda n, goal, hyps=(), steps=(), **k: ck.path(p, '%s: %s' % (var, n), goal, list(hyps), steps, **k)
                if var == 'SaturatingLinear':
                    p_('an accepted curve ends after its start', bd.valid())
                    p_('an accepted curve is ' + how, le(bd.y0, bd.y1) if how == 'increasing' else ge(bd.y0, bd.y1))
                if var == 'PiecewiseLinear':
                    p_('an accepted curve has steps', gt(bd.n, 0))
                    p_('the times of an accepted curve rise', bd.sorted())
                    p_('the values of an accepted curve are ' + how, bd.rising() if how == 'increasing' else bd.falling())


def reported_range(ck):
    con = ck.contract('curve')
    W, e = con.W, con.fn('Curve::range')
    ty = con.param_types(e)[0].lstrip('&')
    for var in VARIANTS:
        c = mk(W, ty, var, 'arg.0')
        bd = body(W, c, var)
        R = con.run(e, loops=lp.AutoLoop(cands=[step_cands(W, bd)]) if var == VARIANTS[2] else None, argv={0: c}, tag=var)
        ck.nonvacuous(R)
        for p in R.paths:
            lo, hi = p.ret.get(0), p.ret.get(1)
            inside = lambda y: and_(le(lo, y), le(y, hi))
            p_ = lambda n, goal, hyps=(), steps=(), **k: ck.path(p, '%s: %s' % (var, n), goal, list(hyps), steps, **k)
            if var == 'Constant':
                p_('the value is in the range', inside(bd))
            elif var == 'SaturatingLinear':
                p_('first and last value are in the range', and_(inside(bd.y0), inside(bd.y1)))
            else:
                i = app('any.step', (), 'u32')
                p_('the value of every step is in the range', inside(bd.v(i)), [le(0, i), lt(i, bd.n)])


def lemmas(ck):
    """what follows from the contracts of evaluation, validation and range, for every curve"""
    V = lambda n: app('lem.' + n)
    x0, y0, x1, y1, x, y = [V(n) for n in ('x0', 'y0', 'x1', 'y1', 'x', 'y')]
    pos = [ge(v, 0) for v in (x0, y0, x1, y1, x, y)]
    f = lambda u: interp(x0, y0, x1, y1, u)
    part = ck.lemma('part of a whole', 3, lambda d, k, w: ([ge(d, 0), ge(k, 0), le(k, w), gt(w, 0)], and_(ge(tdiv(mul(d, k), w), 0), le(tdiv(mul(d, k), w), d))))
    mono = ck.lemma('part grows', 4, lambda d, k, l, w: ([ge(d, 0), ge(k, 0), le(k, l), gt(w, 0)], le(tdiv(mul(d, k), w), tdiv(mul(d, l), w))))
    w, d, d2 = sub(x1, x0), sub(y1, y0), sub(y0, y1)
    seg = pos + [lt(x0, x1), le(x0, x), le(x, x1)]
    use = [part(d, sub(x, x0), w), part(d2, sub(x, x0), w)]
    ck.ob('lemma on a line the value lies between the end values', seg + use, or_(and_(le(y0, f(x)), le(f(x), y1)), and_(le(y1, f(x)), le(f(x), y0))))
    ck.ob('lemma the line starts at the first value', pos + [lt(x0, x1)], eq(f(x0), y0))
    ck.ob('lemma the line ends at the last value', pos + [lt(x0, x1)], eq(f(x1), y1))
    seg2 = seg + [le(x, y), le(y, x1), mono(d, sub(x, x0), sub(y, x0), w), mono(d2, sub(x, x0), sub(y, x0), w)]
    ck.ob('lemma a rising line never falls', seg2 + [le(y0, y1)], le(f(x), f(y)))
    ck.ob('lemma a falling line never rises', seg2 + [ge(y0, y1)], ge(f(x), f(y)))

    def lin(x0, y0, x1, y1, u):
        """consequences of the lemmas for one line and point"""
        g = interp(x0, y0, x1, y1, u)
        h = and_(lt(x0, x1), le(x0, u), le(u, x1))
        return implies(h, or_(and_(le(y0, g), le(g, y1)), and_(le(y1, g), le(g, y0))))

    def lin2(x0, y0, x1, y1, u, z):
        g, h = interp(x0, y0, x1, y1, u), interp(x0, y0, x1, y1, z)
        c = and_(lt(x0, x1), le(x0, u), le(u, z), le(z, x1))
        return and_(implies(and_(c, le(y0, y1)), le(g, h)), implies(and_(c, ge(y0, y1)), ge(g, h)))
    # saturating lines
    val = lambda u: app('lem.val', (u,))
    s = Sat.__new__(Sat)
    s.x0, s.y0, s.x1, s.y1 = x0, y0, x1, y1
    hy = pos + [s.valid(), s.spec(val(x), x), s.spec(val(y), y), le(x, y)] + [lin(x0, y0, x1, y1, u) for u in (x, y)] + [lin2(x0, y0, x1, y1, x, y)]
    ck.ob('a saturating line accepted as increasing never falls', hy + [le(y0, y1)], le(val(x), val(y)))
    ck.ob('a saturating line accepted as decreasing never rises', hy + [ge(y0, y1)], ge(val(x), val(y)))
    lo, hi = V('lo'), V('hi')
    ck.ob('the value of a saturating line lies in its range', hy + [le(lo, y0), le(y0, hi), le(lo, y1), le(y1, hi)], and_(le(lo, val(x)), le(val(x), hi)))
    ck.ob('a saturating line is constant after its end', hy + [gt(x, x1)], eq(val(x), val(y)))
    # steps
    n = app('lem.n', (), 'u32')
    T_, V_ = (lambda k: app('lem.t', (lift(k),), 'u64')), (lambda k: app('lem.v', (lift(k),), 'u128'))
    st = Steps.__new__(Steps)
    st.n, st.t, st.v = n, T_, V_
    # between the first and the last step there is a step around x: induction on the number of steps looked at
    m, wit = V('m'), V('witness')
    ck.ob('lemma a step around every point: one step', [le(T_(0), x)], not_(lt(x, T_(0))))
    nw = ite(lt(x, T_(m)), wit, m)
    ck.ob('lemma a step around every point: one more step', [ge(m, 0), implies(lt(x, T_(m)), and_(le(0, wit), lt(wit, m), le(T_(wit), x), lt(x, T_(add(wit, 1))))), lt(x, T_(add(m, 1)))],
          and_(le(0, nw), lt(nw, add(m, 1)), le(T_(nw), x), lt(x, T_(add(nw, 1)))))
    i, j = app('lem.i', (), 'u32'), app('lem.j', (), 'u32')
    last = sub(n, 1)
    around = lambda u, k: implies(and_(lt(T_(0), u), lt(u, T_(last))), st.between(k, u))
    ln = lambda u, k: lin(T_(k), V_(k), T_(add(k, 1)), V_(add(k, 1)), u)
    hy = [ge(x, 0), ge(y, 0), le(x, y), st.valid(), around(x, i), around(y, j), st.spec(val(x), x, i), st.spec(val(y), y, j), ln(x, i), ln(y, j),
          lin2(T_(i), V_(i), T_(add(i, 1)), V_(add(i, 1)), x, y)]

    def at(r, *ks):
        return [implies(and_(le(0, a), lt(a, c), lt(c, n)), r(a, c)) for a in ks for c in ks if a is not c]
    ks = [I(0), i, add(i, 1), j, add(j, 1), last]
    tm_ = at(lambda a, c: lt(T_(a), T_(c)), *ks)
    ck.ob('steps accepted as increasing never fall', hy + tm_ + at(lambda a, c: le(V_(a), V_(c)), *ks), le(val(x), val(y)))
    ck.ob('steps accepted as decreasing never rise', hy + tm_ + at(lambda a, c: ge(V_(a), V_(c)), *ks), ge(val(x), val(y)))
    rng = [and_(le(lo, V_(k)), le(V_(k), hi)) for k in ks]
    ck.ob('the value between steps lies in the range', hy + tm_ + [implies(and_(le(0, k), lt(k, n)), r) for k, r in zip(ks, rng)], and_(le(lo, val(x)), le(val(x), hi)))
    ck.ob('steps are constant after the last one', hy + [ge(x, T_(last))], eq(val(x), val(y)))
    ck.ob('the value at a step is its value', hy + tm_ + [le(0, i), lt(i, n), eq(x, T_(i)), implies(lt(i, last), st.between(i, x))], eq(val(x), V_(i)))


# ------------------------------------------------------------------ combination
class StepValue(lp.Pure):
    """evaluation of a list of steps at its callers: a function of the steps and the point (its contract is `Steps.spec`)"""

    def __init__(self):
        lp.Pure.__init__(self)
        self.names, self.seen = {}, {}

    def mine(self, fn):
        return fn.kind == 'fn' and len(fn.args) == 2 and fn.name.split('::')[-1] == 'value' and ex.lastseg(ex.base_type(fn.locals[fn.args[0]])) == 'PiecewiseLinear'

    def wants(self, X, fn):
        return self.mine(fn) or lp.Pure.wants(self, X, fn)

    def apply(self, X, st, fn, args):
        if not self.mine(fn):
            return lp.Pure.apply(self, X, st, fn, args)
        d = lambda a: X.deref(st, a) if isinstance(a, Ref) else a
        return self.value(X.W, field(X.W, d(args[0]), 'steps'), d(args[1]))

    def value(self, W, steps, x):
        shape, a = vkey(W, steps)
        n = self.names.setdefault(shape, len(self.names))
        self.seen[n, a] = steps
        return app('steps.value.%d' % n, a + (lift(x),), 'u128')


def vectors(W, s, skip=()):
    """lists of numbers in scope"""
    return [v for c, v in s.mem.items() if c not in skip and isinstance(v, SVec) and v.ety is not None and ex.base_type(v.ety) == 'u64']


def time_cands(W, tau):
    """candidates for loops that collect, sort and deduplicate times"""
    def has(v, n=None):
        if v.items is not None and n is None:
            return or_(*[eq(x, tau) for x in v.items])
        j = b('m')
        return exists([j.args[0]], and_(le(0, j), lt(j, v.len if n is None else n), eq(v.at(j), tau)))

    def cands(X, rec):
        out = []
        poss = [get for n, get, kind in rec.leaves if kind == 'pos']
        outer = vectors(W, rec.gen, rec.cells)

        def c(n, f):
            out.append(('spec ' + n, f))

        def later(p, f):
            """f holds once the position is past the start"""
            return lambda s, k, gh: TRUE if le(p(s), 0) is TRUE else implies(gt(p(s), 0), f(s))

        def pairs(v, rel, g=None):
            x, y = b(), b()
            return forall([x.args[0], y.args[0]], implies(and_(le(0, x), lt(x, y), lt(y, v.len), *([g(x, y)] if g else [])), rel(v.at(x), v.at(y))))
        def upto(v, t):
            x = b()
            return forall([x.args[0]], implies(and_(le(0, x), lt(x, v.len)), le(v.at(x), t)))
        for n, get, kind in rec.leaves:
            if kind != 'vec':
                continue
            v0 = get(rec.gen)
            if v0.ety is None or ex.base_type(v0.ety) != 'u64':
                continue
            empty = lambda v: is_int(v.len) and ival(v.len) == 0
            c(n + ' keeps the time', lambda s, k, gh, get=get: implies(has(get(rec.entry)), has(get(s))) if not empty(get(rec.entry)) else TRUE)
            c(n + ' rises strictly', lambda s, k, gh, get=get: pairs(get(s), lt) if not empty(get(s)) else TRUE)
            for p in poss:
                it = [i for i in rec.iters if i.pos is p(rec.gen)]
                # sorting by exchanging neighbours
                c(n + ' sorted from the back', lambda s, k, gh, get=get, p=p: pairs(get(s), le, lambda x, y: ge(add(y, p(s)), get(s).len)))
                if it and rec.outer:
                    f = lambda v, it=it: pairs(v, le, lambda x, y: gt(y, it[0].n))
                    c(n + ' sorted behind the part worked on', lambda s, k, gh, get=get, f=f: implies(f(get(rec.entry)), f(get(s))))

                def top(s, k, gh, get=get, p=p):
                    x = b()
                    v = get(s)
                    return forall([x.args[0]], implies(and_(le(0, x), le(x, p(s)), lt(x, v.len)), le(v.at(x), v.at(p(s)))))
                c(n + ' greatest so far is at the position', top)
                # dropping repetitions
                for v in outer:
                    c(n + ' has the times so far', lambda s, k, gh, get=get, p=p, v=v: TRUE if le(p(s), 0) is TRUE else implies(has(v, p(s)), has(get(s)) if not empty(get(s)) else FALSE))
                    c(n + ' is no longer than the position', lambda s, k, gh, get=get, p=p: le(get(s).len, p(s)))
                    c(n + ' is empty only at the start', later(p, lambda s, get=get: gt(get(s).len, 0)))
                    c(n + ' ends with the time before', later(p, lambda s, get=get, p=p, v=v: eq(get(s).at(sub(get(s).len, 1)), v.at(sub(p(s), 1)))))
                    c(n + ' has no later times', later(p, lambda s, get=get, p=p, v=v: upto(get(s), v.at(sub(p(s), 1)))))
        for n, get, kind in rec.leaves:
            for p in poss:
                for v in outer:
                    if kind == 'int':
                        c(n + ' is the time before', later(p, lambda s, get=get, p=p, v=v: eq(get(s), v.at(sub(p(s), 1)))))
                    if kind == 'discr':
                        c(n + ' is set after the start', lambda s, k, gh, get=get, p=p: eq(get(s), ite(gt(p(s), 0), 1, 0)))
        return out
    return cands


def combine(ck):
    con = ck.contract('curve')
    W, e = con.W, con.fn('Curve::combine')
    ty = con.param_types(e)[0].lstrip('&')
    tau = app('any.time', (), 'u64')
    for va in VARIANTS:
        for vb in VARIANTS:
            a, c = mk(W, ty, va, 'arg.0'), mk(W, ty, vb, 'arg.1')
            ba, bc = body(W, a, va), body(W, c, vb)
            fn = StepValue()
            R = con.run(e, loops=lp.AutoLoop(cands=[time_cands(W, tau)]), argv={0: a, 1: c}, tag=va + vb, contracts={'*': fn})
            ck.nonvacuous(R)
            m = app('any.breakpoint', (), 'u32')
            points, hy = [], []
            for v, bd in ((va, ba), (vb, bc)):
                if v == VARIANTS[1]:
                    points += [('a limit', eq(tau, bd.x0)), ('a limit', eq(tau, bd.x1))]
                    hy.append(bd.valid())
                if v == VARIANTS[2]:
                    points.append(('a step', and_(le(0, m), lt(m, bd.n), eq(tau, bd.t(m)))))
                    hy.append(bd.valid())
            if not points:
                points = [('any time', TRUE)]
            for p in R.paths:
                for n, at in points:
                    name = '%s and %s: at %s the value is the sum of the values' % (va, vb, n)
                    q = app('its.index', (), 'u32')

                    def val(v, bd):
                        """value at tau by the contract of evaluation, with the facts this gives"""
                        if v == 'Constant':
                            return bd, TRUE
                        y = app('value.of.%d' % next(cnt), (), 'u128')
                        if v == VARIANTS[1]:
                            return y, bd.spec(y, tau)
                        y = fn.value(W, bd.vec, tau)
                        # lemma 'the value at a step is its value'
                        return y, implies(and_(le(0, m), lt(m, bd.n), eq(tau, bd.t(m))), eq(y, bd.v(m)))
                    ya, fa = val(va, ba)
                    yc, fc = val(vb, bc)
                    facts = [fa, fc]
                    # the contract of evaluation for the lists of two steps made of saturating lines
                    for steps in list(fn.seen.values()):
                        if steps.items is not None:
                            st = Steps(W, steps)
                            facts.append(and_(*[st.spec(fn.value(W, steps, tau), tau, I(i)) for i in range(len(steps.items) - 1)]))
                    res = p.ret
                    disc = ival(res.discr) if is_int(res.discr) else None
                    vr = [n2 for n2, d, fl in W.typedef(ty)[1] if d == disc]
                    if not vr:
                        ck.path(p, name + ' (kind of the result)', FALSE)
                        continue
                    br = body(W, res, vr[0])
                    if vr[0] == 'Constant':
                        ck.path(p, name, eq(br, add(ya, yc)), hy + [at] + facts)
                    elif vr[0] == VARIANTS[1]:
                        y = app('value.of.result', (), 'u128')
                        ck.path(p, name, eq(y, add(ya, yc)), hy + [at, br.spec(y, tau)] + facts)
                        ck.path(p, '%s and %s: the result is a valid curve' % (va, vb), br.valid(), hy)
                    else:
                        ck.path(p, '%s and %s: the result is a valid curve' % (va, vb), br.valid(), hy)
                        j = b('j')
                        ck.path(p, name, exists([j.args[0]], and_(le(0, j), lt(j, br.n), eq(br.t(j), tau), eq(br.v(j), add(ya, yc)))), hy + [at] + facts)


def C22(ck):
    with ck.guard('evaluation'):
        evaluate(ck)
    with ck.guard('validation'):
        validate(ck)
    with ck.guard('range'):
        reported_range(ck)
    with ck.guard('combination'):
        combine(ck)
    with ck.guard('lemmas'):
        lemmas(ck)
