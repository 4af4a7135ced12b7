"""Hash-consed first-order terms over Int and Bool, with polynomial normalisation of +,-,*.

Integer division is Rust's (truncating).  Uninterpreted integer functions ("apps") stand for unknown
inputs / initial storage; the type range of an app is looked up by its name in APP_TYPE."""
import math
import itertools

INT, BOOL = 'I', 'B'
RANGES = {}
for _b in (8, 16, 32, 64, 128):
    RANGES['u%d' % _b] = (0, 2**_b - 1)
    RANGES['i%d' % _b] = (-2**(_b-1), 2**(_b-1) - 1)
RANGES['usize'] = RANGES['u32']          # wasm32
RANGES['isize'] = RANGES['i32']
RANGES['u256'] = (0, 2**256 - 1)
RANGES['i256'] = (-2**255, 2**255 - 1)
RANGES['char'] = (0, 0x10FFFF)
RANGES['nat'] = (0, None)
RANGES['bool'] = (0, 1)

_table = {}
_ids = itertools.count()


class T:
    __slots__ = ('op', 'args', 'sort', 'id', '_h', 'fv')

    def __repr__(self):
        return show(self)

    def __hash__(self):
        return self.id

    def __eq__(self, o):
        return self is o


def mk(op, args, sort):
    key = (op, args, sort)
    t = _table.get(key)
    if t is None:
        t = T()
        t.op, t.args, t.sort = op, args, sort
        t.id = next(_ids)
        t.fv = None
        _table[key] = t
    return t


APP_TYPE = {}     # app name -> rust int type name (for range axioms) or None


def I(n):
    return mk('int', (int(n),), INT)


TRUE = mk('bool', (True,), BOOL)
FALSE = mk('bool', (False,), BOOL)


def B(b):
    return TRUE if b else FALSE


def app(name, args=(), ty=None):
    if ty is not None or name not in APP_TYPE:
        APP_TYPE[name] = ty
    return mk('app', (name,) + tuple(lift(a) for a in args), INT)


def bapp(name, args=()):
    """boolean uninterpreted predicate, as app = 1"""
    return eq(app(name, args, 'bool'), I(1))


def bvar(n):          # bound variable
    return mk('bvar', (n,), INT)


_cnt = itertools.count()


def fresh(prefix, ty=None, args=()):
    return app('%s!%d' % (prefix, next(_cnt)), args, ty)


def lift(x):
    if isinstance(x, T):
        return x
    if isinstance(x, bool):
        return B(x)
    if isinstance(x, int):
        return I(x)
    raise TypeError('cannot lift %r' % (x,))


def is_int(t):
    return t.op == 'int'


def ival(t):
    return t.args[0]


# ---------------------------------------------------------------- polynomials
# poly: dict monomial(tuple of sorted atom terms by id) -> coef ; constant monomial ()
MAXPOLY = 14


def _poly(t):
    if t.op == 'int':
        return {(): t.args[0]} if t.args[0] else {}
    if t.op == 'poly':
        return dict(t.args[0])
    return {(t,): 1}


def _mkpoly(d):
    d = {m: c for m, c in d.items() if c != 0}
    if not d:
        return I(0)
    if len(d) == 1:
        (m, c), = d.items()
        if m == ():
            return I(c)
        if c == 1 and len(m) == 1:
            return m[0]
    items = tuple(sorted(d.items(), key=lambda mc: tuple(x.id for x in mc[0])))
    return mk('poly', (items,), INT)


def add(*ts):
    d = {}
    for t in ts:
        for m, c in _poly(lift(t)).items():
            d[m] = d.get(m, 0) + c
    return _mkpoly(d)


def neg(t):
    return _mkpoly({m: -c for m, c in _poly(lift(t)).items()})


def sub(a, b):
    return add(a, neg(b))


def mul(a, b):
    a, b = lift(a), lift(b)
    pa, pb = _poly(a), _poly(b)
    if len(pa) * len(pb) > MAXPOLY and len(pa) > 1 and len(pb) > 1:
        # keep product of big sums as atoms
        m = tuple(sorted((a, b), key=lambda x: x.id))
        return _mkpoly({m: 1})
    d = {}
    for m1, c1 in pa.items():
        for m2, c2 in pb.items():
            m = tuple(sorted(m1 + m2, key=lambda x: x.id))
            d[m] = d.get(m, 0) + c1 * c2
    return _mkpoly(d)


def _trunc_div(a, b):
    q = abs(a) // abs(b)
    return q if (a >= 0) == (b >= 0) else -q


def tdiv(a, b):
    """Rust integer division (truncating); value for b == 0 unspecified."""
    a, b = lift(a), lift(b)
    if is_int(b) and ival(b) == 1:
        return a
    if is_int(a) and is_int(b) and ival(b) != 0:
        return I(_trunc_div(ival(a), ival(b)))
    if is_int(a) and ival(a) == 0:
        return a
    if is_int(b) and ival(b) > 0:
        # one form: no common factor of the coefficients and the divisor; nested constant divisors multiplied
        g = ival(b)
        for c in _poly(a).values():
            g = math.gcd(g, c)
        if g > 1:
            return tdiv(_mkpoly({m: c // g for m, c in _poly(a).items()}), I(ival(b) // g))
        if a.op == 'tdiv' and is_int(a.args[1]) and ival(a.args[1]) > 0:
            return tdiv(a.args[0], I(ival(a.args[1]) * ival(b)))
    return mk('tdiv', (a, b), INT)


def trem(a, b):
    a, b = lift(a), lift(b)
    if is_int(a) and is_int(b) and ival(b) != 0:
        return I(ival(a) - ival(b) * _trunc_div(ival(a), ival(b)))
    return sub(a, mul(b, tdiv(a, b)))


def wrap(x, ty):
    """x reduced into the range of integer type ty (two's complement)."""
    x = lift(x)
    lo, hi = RANGES[ty]
    if is_int(x):
        n = hi - lo + 1
        return I((ival(x) - lo) % n + lo)
    return mk('wrap', (x, ty), INT)


def isqrt(x):
    x = lift(x)
    if is_int(x) and ival(x) >= 0:
        import math
        return I(math.isqrt(ival(x)))
    return mk('isqrt', (x,), INT)


def power(b, e):
    b, e = lift(b), lift(e)
    if is_int(e) and 0 <= ival(e) <= 400:
        r = I(1)
        for _ in range(ival(e)):
            r = mul(r, b)
        return r
    return mk('pow', (b, e), INT)


def ite(c, a, b):
    c, a, b = lift(c), lift(a), lift(b)
    if c is TRUE:
        return a
    if c is FALSE:
        return b
    if a is b:
        return a
    if a.sort == BOOL:
        return or_(and_(c, a), and_(not_(c), b))
    if c.op == 'not':
        return ite(c.args[0], b, a)
    if c.op == 'eq0' and eq(a, b) is c:
        return b
    if is_int(a) and ival(a) == 0 and c.op in ('eq0', 'or', 'and'):       # zero where a factor is zero: the product already is
        z = _factors(b.args[0] if b.op == 'tdiv' and is_int(b.args[1]) and ival(b.args[1]) != 0 else b)
        if z and _kills(c, z):
            return b
    if c.op == 'le' and _flipped(c.args[0]):      # one form for a condition and its negation
        return ite(not_(c), b, a)
    return mk('ite', (c, a, b), INT)


def _factors(t):
    p = _poly(t)
    return set(next(iter(p))) if len(p) == 1 else set()


def _kills(c, z):
    """c implies that one of the terms z is zero"""
    if c.op == 'eq0':
        return c.args[0] in z
    if c.op == 'or':
        return all(_kills(x, z) for x in c.args)
    if c.op == 'and':
        return any(_kills(x, z) for x in c.args)
    return False


def _flipped(d):
    for m, c in (d.args[0] if d.op == 'poly' else [((d,), 1)]):
        if m != ():
            return c < 0
    return False


# ---------------------------------------------------------------- booleans
def not_(a):
    a = lift(a)
    if a is TRUE:
        return FALSE
    if a is FALSE:
        return TRUE
    if a.op == 'not':
        return a.args[0]
    if a.op == 'le':          # not (a<=0)  ->  1 - a <= 0   (ints)
        return le(I(1), a.args[0])
    return mk('not', (a,), BOOL)


def and_(*ts):
    out = []
    seen = set()
    for t in ts:
        t = lift(t)
        if t is TRUE:
            continue
        if t is FALSE:
            return FALSE
        for u in (t.args if t.op == 'and' else (t,)):
            if u not in seen:
                if not_(u) in seen:
                    return FALSE
                seen.add(u)
                out.append(u)
    if not out:
        return TRUE
    if len(out) == 1:
        return out[0]
    return mk('and', tuple(out), BOOL)


def or_(*ts):
    out = []
    seen = set()
    for t in ts:
        t = lift(t)
        if t is FALSE:
            continue
        if t is TRUE:
            return TRUE
        for u in (t.args if t.op == 'or' else (t,)):
            if u not in seen:
                if not_(u) in seen:
                    return TRUE
                seen.add(u)
                out.append(u)
    if not out:
        return FALSE
    if len(out) == 1:
        return out[0]
    return mk('or', tuple(out), BOOL)


def implies(a, b):
    return or_(not_(a), b)


def iff(a, b):
    return and_(implies(a, b), implies(b, a))


def le(a, b):
    d = sub(a, b)
    if is_int(d):
        return B(ival(d) <= 0)
    # divide by gcd of coefficients of non-constant monomials
    if d.op == 'poly':
        from math import gcd
        g = 0
        c0 = 0
        for m, c in d.args[0]:
            if m == ():
                c0 = c
            else:
                g = gcd(g, abs(c))
        if g > 1:
            # sum + c0 <= 0  <=> sum/g <= floor(-c0/g)
            dd = {m: c // g for m, c in d.args[0] if m != ()}
            k = -((-c0) // g)
            if k:
                dd[()] = k
            d = _mkpoly(dd)
    return mk('le', (d,), BOOL)


def lt(a, b):
    return le(add(a, I(1)), b)


def ge(a, b):
    return le(b, a)


def gt(a, b):
    return lt(b, a)


def eq(a, b):
    a, b = lift(a), lift(b)
    if a is b:
        return TRUE
    if a.sort == BOOL:
        if a is TRUE:
            return b
        if b is TRUE:
            return a
        if a is FALSE:
            return not_(b)
        if b is FALSE:
            return not_(a)
        return iff(a, b)
    # eq of ite with constant branches (common for discriminants)
    for x, y in ((a, b), (b, a)):
        if x.op == 'ite' and is_int(y):
            p, q = x.args[1], x.args[2]
            if is_int(p) or is_int(q):
                return or_(and_(x.args[0], eq(p, y)), and_(not_(x.args[0]), eq(q, y)))
    d = sub(a, b)
    if is_int(d):
        return B(ival(d) == 0)
    if d.op == 'poly':
        # normalise the sign: first monomial's coefficient positive
        items = d.args[0]
        lead = next(c for m, c in items if m != ())
        if lead < 0:
            d = neg(d)
        from math import gcd
        g = 0
        c0 = 0
        for m, c in (d.args[0] if d.op == 'poly' else ()):
            if m == ():
                c0 = c
            else:
                g = gcd(g, abs(c))
        if g > 1:
            if c0 % g:
                return FALSE
            d = _mkpoly({m: c // g for m, c in d.args[0]})
    return mk('eq0', (d,), BOOL)


def ne(a, b):
    return not_(eq(a, b))


def forall(vs, body):
    body = lift(body)
    if body is TRUE or body is FALSE:
        return body
    return mk('forall', (tuple(vs), body), BOOL)


def exists(vs, body):
    return not_(forall(vs, not_(body)))


def in_range(x, ty):
    lo, hi = RANGES[ty]
    r = ge(x, I(lo))
    if hi is not None:
        r = and_(r, le(x, I(hi)))
    return r


def smin(a, b):
    return ite(le(a, b), a, b)


def smax(a, b):
    return ite(ge(a, b), a, b)


def ssum(ts):
    return add(*ts) if ts else I(0)


# ---------------------------------------------------------------- traversal
def children(t):
    o = t.op
    if o == 'poly':
        return [x for m, c in t.args[0] for x in m]
    if o == 'app':
        return list(t.args[1:])
    if o in ('int', 'bool', 'bvar'):
        return []
    if o == 'wrap':
        return [t.args[0]]
    if o == 'forall':
        return [t.args[1]]
    return list(t.args)


def rebuild(t, ch):
    o = t.op
    if o == 'poly':
        it = iter(ch)
        acc = []
        for m, c in t.args[0]:
            p = I(c)
            for _ in m:
                p = mul(p, next(it))
            acc.append(p)
        return add(*acc)
    if o == 'app':
        return mk('app', (t.args[0],) + tuple(ch), INT)
    if o in ('int', 'bool', 'bvar'):
        return t
    if o == 'tdiv':
        return tdiv(*ch)
    if o == 'wrap':
        return wrap(ch[0], t.args[1])
    if o == 'isqrt':
        return isqrt(ch[0])
    if o == 'pow':
        return power(*ch)
    if o == 'ite':
        return ite(*ch)
    if o == 'not':
        return not_(ch[0])
    if o == 'and':
        return and_(*ch)
    if o == 'or':
        return or_(*ch)
    if o == 'le':
        return le(ch[0], I(0))
    if o == 'eq0':
        return eq(ch[0], I(0))
    if o == 'forall':
        return forall(t.args[0], ch[0])
    raise AssertionError(o)


def subst(t, mp, memo=None):
    """replace terms (keys of mp) by terms"""
    if memo is None:
        memo = {}
    r = mp.get(t)
    if r is not None:
        return r
    r = memo.get(t)
    if r is not None:
        return r
    ch = children(t)
    if not ch:
        r = t
    else:
        nch = [subst(c, mp, memo) for c in ch]
        r = t if all(x is y for x, y in zip(ch, nch)) else rebuild(t, nch)
    memo[t] = r
    return r


def subterms(ts):
    seen = set()
    st = list(ts)
    while st:
        t = st.pop()
        if t in seen:
            continue
        seen.add(t)
        st.extend(children(t))
    return seen


def show(t, depth=6):
    if depth < 0:
        return '..'
    o = t.op
    if o in ('int', 'bool'):
        return str(t.args[0])
    if o == 'bvar':
        return '?' + t.args[0]
    if o == 'app':
        if len(t.args) == 1:
            return t.args[0]
        return '%s(%s)' % (t.args[0], ','.join(show(a, depth-1) for a in t.args[1:]))
    if o == 'poly':
        s = []
        for m, c in t.args[0]:
            f = '*'.join(show(x, depth-1) for x in m)
            if not m:
                s.append(str(c))
            elif c == 1:
                s.append(f)
            else:
                s.append('%d*%s' % (c, f))
        return '(' + ' + '.join(s) + ')'
    if o == 'forall':
        return '(forall %s. %s)' % (t.args[0], show(t.args[1], depth-1))
    if o == 'wrap':
        return 'wrap_%s(%s)' % (t.args[1], show(t.args[0], depth-1))
    if o == 'le':
        return '(%s <= 0)' % show(t.args[0], depth-1)
    if o == 'eq0':
        return '(%s = 0)' % show(t.args[0], depth-1)
    return '%s(%s)' % (o, ','.join(show(a, depth-1) for a in t.args))


# ---------------------------------------------------------------- concrete evaluation
class EvalError(Exception):
    pass


def evaluate(t, env, memo=None):
    """env: function (name, tuple of int args) -> int"""
    if memo is None:
        memo = {}
    stack = [t]
    while stack:
        u = stack[-1]
        if u in memo:
            stack.pop()
            continue
        o = u.op
        if o == 'forall':
            raise EvalError('quantifier')
        if o == 'ite':
            c = u.args[0]
            if c not in memo:
                stack.append(c)
                continue
            b = u.args[1] if memo[c] else u.args[2]
            if b not in memo:
                stack.append(b)
                continue
            memo[u] = memo[b]
            stack.pop()
            continue
        ch = children(u)
        pend = [c for c in ch if c not in memo]
        if pend:
            stack.extend(pend)
            continue
        stack.pop()
        v = [memo[c] for c in ch]
        if o in ('int', 'bool'):
            r = u.args[0]
        elif o == 'bvar':
            r = env(u.args[0], None)
        elif o == 'app':
            r = env(u.args[0], tuple(v))
        elif o == 'poly':
            it = iter(v)
            r = 0
            for m, c in u.args[0]:
                p = c
                for _ in m:
                    p *= next(it)
                r += p
        elif o == 'tdiv':
            r = _trunc_div(v[0], v[1]) if v[1] != 0 else 0
        elif o == 'wrap':
            lo, hi = RANGES[u.args[1]]
            r = (v[0] - lo) % (hi - lo + 1) + lo
        elif o == 'isqrt':
            import math
            r = math.isqrt(v[0]) if v[0] >= 0 else 0
        elif o == 'pow':
            r = v[0] ** v[1] if 0 <= v[1] <= 4096 else 0
        elif o == 'not':
            r = not v[0]
        elif o == 'and':
            r = all(v)
        elif o == 'or':
            r = any(v)
        elif o == 'le':
            r = v[0] <= 0
        elif o == 'eq0':
            r = v[0] == 0
        else:
            raise EvalError(o)
        memo[u] = r
    return memo[t]
