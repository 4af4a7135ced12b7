"""Assumed contracts of what lies outside /repo: the Soroban host interface (env, storage, auth, collections,
256-bit integers), token and other client calls, and the parts of core used by the contracts."""
import re
from . import terms as tm
from .terms import *
from .values import *
from . import mir

HANDLERS = []
_cache = {}
USED = {}          # model name -> number of uses (reported as assumptions)


def model(*pats):
    def deco(f):
        for p in pats:
            HANDLERS.append((re.compile('^(?:' + p + ')$'), f))
        return f
    return deco


def lookup(callee):
    r = _cache.get(callee)
    if r is None:
        r = False
        for p, f in HANDLERS:
            m = p.match(callee)
            if m:
                r = (f, m)
                break
        _cache[callee] = r
    if r:
        USED[r[0].__name__] = USED.get(r[0].__name__, 0) + 1
    return r or None


def E():
    from . import exec as e
    return e


def D(ex, st, v):
    return ex.deref(st, v)


def panic_if(c, msg, v):
    c = lift(c)
    if c is FALSE:
        return v
    return E().Branches([(not_(c), v), (c, E().Panic(msg))])


def self_addr():
    return app('self')


def kctx(st):
    return tuple(st.ghost.get('ks', ()))


def fresh_in(ex, st, prefix, ty):
    """fresh value of Rust type ty, a function of the enclosing loop counters"""
    n = '%s!%d' % (prefix, next(tm._cnt))
    return E().sym(ex.W, ty, n, kctx(st))


# ------------------------------------------------------------------ clone / conversions / comparison
@model(r'<.* as core::clone::Clone>::clone', r'<.* as core::borrow::ToOwned>::to_owned', r'<.* as core::borrow::Borrow<.*>>::borrow', r'<.* as core::convert::AsRef<.*>>::as_ref', r'<.* as core::ops::Deref>::deref')
def m_clone(ex, st, m, a, retty, callee, crate):
    v = D(ex, st, a[0])
    if isinstance(v, (Struct, Enum)):
        fn = user_impl(ex, callee, crate)
        if fn is not None:
            return E().Inline(fn, list(a))
    return v


def user_impl(ex, callee, crate):
    fn = ex.W.find_fn(callee, crate)
    if fn is None:
        return None
    mm = re.search(r'<impl at (.*?\.rs:\d+:\d+: \d+:\d+)>', fn.name)
    if mm:
        tr, _ = ex.W.header(mm.group(1))
        if tr and tr.startswith('derive:'):
            return None
    return fn


@model(r'<(.*) as core::cmp::PartialEq(<.*>)?>::(eq|ne)')
def m_eq(ex, st, m, a, retty, callee, crate):
    base = re.sub(r'::ne$', '::eq', callee)
    fn = user_impl(ex, base, crate)
    neg_ = m.group(3) == 'ne'
    if fn is not None:
        return E().Inline(fn, a, (lambda ex, st, v: not_(v)) if neg_ else None)
    x, y = deep(ex, st, a[0]), deep(ex, st, a[1])
    r = E().veq(ex.W, x, y)
    return not_(r) if neg_ else r


def deep(ex, st, v):
    """a value whose parts are no longer borrowed"""
    v = D(ex, st, v)
    if isinstance(v, Enum) and E().lastseg(v.ty) == 'Option' and not (is_int(v.discr) and ival(v.discr) == 0):
        try:
            p = v.get('Some', 0)
        except Unsupported:
            return v
        q = deep(ex, st, p)
        return v if q is p else Enum(v.ty, v.discr, {('Some', 0): q})
    if isinstance(v, Struct) and v.ty in ('tuple', 'array') and v.getter is None:
        fs = {i: deep(ex, st, x) for i, x in v.fields.items()}
        return v if all(fs[i] is v.fields[i] for i in fs) else Struct(v.ty, fs, None, v.n)
    return v


def lex_lt(xs, ys):
    r = FALSE
    for x, y in reversed(list(zip(xs, ys))):
        r = or_(lt(x, y), and_(eq(x, y), r))
    return r


@model(r'<(.*) as core::cmp::PartialOrd(<.*>)?>::(lt|le|gt|ge)')
def m_ord(ex, st, m, a, retty, callee, crate):
    o = m.group(3)
    for meth in ('::partial_cmp',):
        fn = user_impl(ex, re.sub(r'::(lt|le|gt|ge)$', meth, callee), crate)
        if fn is not None:
            def cont(ex, st, v):
                c = v.get('Some', 0)
                if isinstance(c, Ref):
                    c = D(ex, st, c)
                return cmp_of(c.discr, o)
            return E().Inline(fn, a, cont)
    xs, ys = E().flatten(ex.W, D(ex, st, a[0])), E().flatten(ex.W, D(ex, st, a[1]))
    l = lex_lt(xs, ys)
    g = lex_lt(ys, xs)
    return {'lt': l, 'gt': g, 'le': not_(g), 'ge': not_(l)}[o]


def cmp_of(d, o):
    return {'lt': lt(d, 0), 'le': le(d, 0), 'gt': gt(d, 0), 'ge': ge(d, 0)}[o]


def ordering(xs, ys):
    return Enum('Ordering', ite(lex_lt(xs, ys), -1, ite(lex_lt(ys, xs), 1, 0)))


@model(r'<(.*) as core::cmp::(Ord|PartialOrd(?:<.*>)?)>::(cmp|partial_cmp)')
def m_cmp(ex, st, m, a, retty, callee, crate):
    fn = user_impl(ex, callee, crate)
    if fn is not None:
        return E().Inline(fn, a)
    xs, ys = E().flatten(ex.W, D(ex, st, a[0])), E().flatten(ex.W, D(ex, st, a[1]))
    r = ordering(xs, ys)
    return some(r) if m.group(3) == 'partial_cmp' else r


@model(r'<(.*) as core::cmp::Ord>::(min|max)', r'core::cmp::(min|max)(::<.*>)?')
def m_minmax(ex, st, m, a, retty, callee, crate):
    x, y = a
    op = 'min' if re.search(r'(Ord>|cmp)::min', callee) else 'max'
    l = lex_lt(E().flatten(ex.W, D(ex, st, y)), E().flatten(ex.W, D(ex, st, x)))   # y < x
    if op == 'min':
        return vite(l, y, x)
    return vite(l, x, y)


@model(r'<(.*) as core::cmp::Ord>::clamp')
def m_clamp(ex, st, m, a, retty, callee, crate):
    x, lo, hi = a
    return panic_if(gt(lo, hi), 'clamp', ite(lt(x, lo), lo, ite(gt(x, hi), hi, x)))


@model(r'core::cmp::Ordering::(then|reverse|then_with)(?:::<.*>)?')
def m_ordering2(ex, st, m, a, retty, callee, crate):
    x, op = D(ex, st, a[0]), m.group(1)
    if op == 'reverse':
        return Enum('Ordering', neg(x.discr))
    c = eq(x.discr, 0)
    if op == 'then':
        return Enum('Ordering', ite(c, D(ex, st, a[1]).discr, x.discr))
    return E().Branches([(c, lambda ex, s: ex.call_closure(a[1], [], None, s)), (not_(c), x)])


@model(r'core::cmp::Ordering::(is_lt|is_le|is_gt|is_ge|is_eq|is_ne)')
def m_ord_is(ex, st, m, a, retty, callee, crate):
    d = D(ex, st, a[0]).discr
    return {'is_lt': lt(d, 0), 'is_le': le(d, 0), 'is_gt': gt(d, 0), 'is_ge': ge(d, 0), 'is_eq': eq(d, 0), 'is_ne': ne(d, 0)}[m.group(1)]


INTS = r'(?:[iu](?:8|16|32|64|128|size))'


@model(r'<(.*) as core::convert::(Into|From)<(.*)>>::(into|from)')
def m_into(ex, st, m, a, retty, callee, crate):
    fn = ex.W.find_fn(callee, crate)
    if fn is not None:
        return E().Inline(fn, a)
    if m.group(2) == 'Into':
        src_, dst = m.group(1), m.group(3)
        fn = ex.W.find_fn('<%s as core::convert::From<%s>>::from' % (dst, src_), crate)
        if fn is not None:
            return E().Inline(fn, a)
    else:
        dst, src_ = m.group(1), m.group(3)
    v = a[0]
    if dst.startswith('core::option::Option') and not src_.startswith('core::option::Option') and not src_.startswith('impl'):
        return some(v)
    if isinstance(v, T) and v.sort == BOOL and re.match(INTS + '$', dst):
        return ite(v, 1, 0)
    return v


@model(r'<(.*) as core::convert::(TryInto|TryFrom)<(.*)>>::(try_into|try_from)')
def m_try_into(ex, st, m, a, retty, callee, crate):
    dst = m.group(3) if m.group(2) == 'TryInto' else m.group(1)
    v = D(ex, st, a[0])
    if dst in RANGES:
        c = in_range(v, dst)
        return Enum('Result', ite(c, 0, 1), {('Ok', 0): v, ('Err', 0): I(0)})
    raise Unsupported('call ' + callee)


@model(r'<(.*) as soroban_sdk::(?:IntoVal|TryIntoVal)<soroban_sdk::Env, soroban_sdk::Vec<soroban_sdk::Val>>>::into_val')
def m_into_vals(ex, st, m, a, retty, callee, crate):
    v = D(ex, st, a[0])
    if isinstance(v, Struct) and v.n is not None:
        return SVec('Val', v.n, None, [D(ex, st, v.get(i)) for i in range(v.n)])
    raise Unsupported('into_val')


@model(r'<(.*) as soroban_sdk::(?:IntoVal|FromVal|TryFromVal)<.*>>::(into_val|from_val)')
def m_into_val(ex, st, m, a, retty, callee, crate):
    if m.group(2) == 'from_val':
        return D(ex, st, a[1])
    return D(ex, st, a[0])


@model(r'<(.*) as core::default::Default>::default', r'core::option::Option::<(.*)>::default')
def m_default(ex, st, m, a, retty, callee, crate):
    fn = ex.W.find_fn(callee, crate)
    if fn is not None:
        return E().Inline(fn, a)
    return default_of(m.group(1))


def default_of(ty):
    if ty in RANGES and ty != 'bool':
        return I(0)
    if ty == 'bool':
        return FALSE
    if ty.startswith('core::option::Option') or ty.startswith('Option'):
        return none()
    if ty == '()':
        return UNIT
    raise Unsupported('default of ' + ty)


# ------------------------------------------------------------------ operators through references
@model(r'<&?(' + INTS + r') as core::ops::(Add|Sub|Mul|Div|Rem)(<&?' + INTS + r'>)?>::(add|sub|mul|div|rem)')
def m_arith(ex, st, m, a, retty, callee, crate):
    return arith(m.group(4), m.group(1), D(ex, st, a[0]), D(ex, st, a[1]))


def arith(op, ty, x, y):
    if op in ('add', 'sub', 'mul'):
        r = {'add': add, 'sub': sub, 'mul': mul}[op](x, y)
        return panic_if(not_(in_range(r, ty)), 'arithmetic overflow (%s)' % op, r)
    lo, hi = RANGES[ty]
    bad = eq(y, 0)
    if lo < 0:
        bad = or_(bad, and_(eq(x, lo), eq(y, -1)))
    return panic_if(bad, 'division error', (tdiv if op == 'div' else trem)(x, y))


@model(r'<(' + INTS + r') as core::ops::(Add|Sub|Mul|Div|Rem)Assign(<&?' + INTS + r'>)?>::(add|sub|mul|div|rem)_assign')
def m_arith_assign(ex, st, m, a, retty, callee, crate):
    r = a[0]
    v = arith(m.group(4), m.group(1), D(ex, st, r), D(ex, st, a[1]))

    def put(ex, s, x):
        ex.store_at(s, r.cell, r.projs, x)
        return UNIT
    if isinstance(v, E().Branches):
        return E().Branches([(c, x if isinstance(x, E().Panic) else (lambda ex, s, x=x: put(ex, s, x))) for c, x in v.items])
    return put(ex, st, v)


@model(r'core::num::<impl (' + INTS + r')>::(\w+)(?:::<.*>)?')
def m_num(ex, st, m, a, retty, callee, crate):
    ty, op = m.groups()
    a = [D(ex, st, x) for x in a]
    lo, hi = RANGES[ty]
    x = a[0] if a else None
    y = a[1] if len(a) > 1 else None
    base = {'add': add, 'sub': sub, 'mul': mul}
    if op == 'pow':
        r = power(x, y)
        return panic_if(not_(in_range(r, ty)), 'arithmetic overflow (pow)', r)
    if op == 'abs_diff':
        return ite(ge(x, y), sub(x, y), sub(y, x))
    if op == 'unsigned_abs':
        return ite(ge(x, 0), x, neg(x))
    if op == 'abs':
        return panic_if(eq(x, lo), 'overflow (abs)', ite(ge(x, 0), x, neg(x)))
    if op == 'signum':
        return ite(gt(x, 0), 1, ite(lt(x, 0), -1, 0))
    if op == 'is_negative':
        return lt(x, 0)
    if op == 'is_positive':
        return gt(x, 0)
    mm = re.match(r'(checked|saturating|wrapping|overflowing|strict)_(add|sub|mul)$', op)
    if mm:
        r = base[mm.group(2)](x, y)
        k = mm.group(1)
        c = in_range(r, ty)
        if k == 'checked':
            return Enum('Option', ite(c, 1, 0), {('Some', 0): r})
        if k == 'saturating':
            return ite(lt(r, lo), lo, ite(gt(r, hi), hi, r))
        if k == 'wrapping':
            return wrap(r, ty)
        if k == 'overflowing':
            return tup(wrap(r, ty), not_(c))
        return panic_if(not_(c), 'overflow', r)
    if op in ('checked_div', 'checked_rem'):
        bad = eq(y, 0)
        if lo < 0:
            bad = or_(bad, and_(eq(x, lo), eq(y, -1)))
        return Enum('Option', ite(bad, 0, 1), {('Some', 0): (tdiv if op == 'checked_div' else trem)(x, y)})
    if op == 'checked_pow':
        r = power(x, y)
        return Enum('Option', ite(in_range(r, ty), 1, 0), {('Some', 0): r})
    if op == 'saturating_pow':
        r = power(x, y)
        return ite(lt(r, lo), lo, ite(gt(r, hi), hi, r))
    if op in ('checked_neg',):
        return Enum('Option', ite(in_range(neg(x), ty), 1, 0), {('Some', 0): neg(x)})
    if op in ('checked_abs',):
        return Enum('Option', ite(eq(x, lo), 0, 1), {('Some', 0): ite(ge(x, 0), x, neg(x))})
    if op in ('div_euclid', 'rem_euclid', 'div_ceil', 'div_floor') and lo >= 0:
        if op == 'div_ceil':
            r = add(tdiv(x, y), ite(eq(trem(x, y), 0), 0, 1))
        else:
            r = trem(x, y) if op == 'rem_euclid' else tdiv(x, y)
        return panic_if(eq(y, 0), 'division by zero', r)
    if op == 'wrapping_neg':
        return wrap(neg(x), ty)
    mm = re.match(r'(checked_)?(div|rem)_euclid$', op)
    if mm:
        r = trem(x, y)
        r = ite(lt(r, 0), add(r, ite(lt(y, 0), neg(y), y)), r)
        v = r if mm.group(2) == 'rem' else tdiv(sub(x, r), y)
        bad = or_(eq(y, 0), and_(eq(x, lo), eq(y, -1)))
        if mm.group(1):
            return Enum('Option', ite(bad, 0, 1), {('Some', 0): v})
        return panic_if(bad, 'division error', v)
    if op in ('next_multiple_of', 'checked_next_multiple_of') and lo >= 0:
        r = trem(x, y)
        v = ite(eq(r, 0), x, add(x, sub(y, r)))
        bad = or_(eq(y, 0), not_(in_range(v, ty)))
        if op[0] == 'c':
            return Enum('Option', ite(bad, 0, 1), {('Some', 0): v})
        return panic_if(bad, 'arithmetic overflow', v)
    if op in ('ilog2', 'ilog10', 'leading_zeros', 'trailing_zeros', 'count_ones') and is_int(x) and lo >= 0:
        n, bits = ival(x), hi.bit_length()
        if op == 'leading_zeros':
            return I(bits - n.bit_length())
        if op == 'trailing_zeros':
            return I((n & -n).bit_length() - 1 if n else bits)
        if op == 'count_ones':
            return I(bin(n).count('1'))
        if n > 0:
            return I(n.bit_length() - 1 if op == 'ilog2' else len(str(n)) - 1)
    if op == 'ilog10' and lo >= 0:
        n = I(0)
        for k in range(1, len(str(hi))):
            n = ite(ge(x, 10 ** k), k, n)
        return panic_if(eq(x, 0), 'logarithm of zero', n)
    if op == 'isqrt':
        return panic_if(lt(x, 0), 'isqrt of negative', isqrt(x))
    if op == 'count_zeros' or op == 'leading_zeros':
        raise Unsupported(op)
    raise Unsupported('call ' + callee)


@model(r'<(' + INTS + r') as num_integer::Roots>::sqrt')
def m_sqrt(ex, st, m, a, retty, callee, crate):
    x = D(ex, st, a[0])
    return panic_if(lt(x, 0), 'sqrt of negative', isqrt(x))


# ------------------------------------------------------------------ Option / Result
OPT = r'core::option::Option::<.*?>'


def opt(ex, st, v):
    v = D(ex, st, v)
    if not isinstance(v, Enum):
        raise Unsupported('option %r' % (v,))
    return v


def clos(ex, f, args, cont=None):
    return lambda ex_, s: ex_.call_closure(f, args, cont, s)


@model(r'core::option::Option::<.*>::(\w+?)(?:::<.*>)?')
def m_option(ex, st, m, a, retty, callee, crate):
    Br, Pn = E().Branches, E().Panic
    # the method is the last path segment outside generics
    meth = E().strip_turbofish(callee).split('::')[-1]
    v = opt(ex, st, a[0]) if a else None
    if meth in ('unwrap', 'expect'):
        isr = eq(v.discr, 1)
        if isr is FALSE:
            return Pn('unwrap on None')
        if isr is TRUE:
            return v.get('Some', 0)
        return Br([(isr, lambda ex, s: v.get('Some', 0)), (not_(isr), Pn('unwrap on None'))])
    isr = eq(v.discr, 1) if v is not None else None

    def get(ex=None, s=None):
        return v.get('Some', 0)
    if meth == 'is_some':
        return isr
    if meth == 'is_none':
        return not_(isr)
    if meth == 'unwrap_or':
        if isr is TRUE:
            return get()
        if isr is FALSE:
            return a[1]
        try:
            return vite(isr, get(), a[1])
        except Unsupported:
            return Br([(isr, get), (not_(isr), a[1])])
    if meth == 'unwrap_or_default':
        mm = re.match(r'core::option::Option::<(.*)>::unwrap_or_default', callee)
        try:
            d = default_of(mm.group(1))
            return Br([(isr, get), (not_(isr), d)])
        except Unsupported:
            fn = ex.W.find_fn('<%s as core::default::Default>::default' % mm.group(1), crate)
            if fn is None:
                raise
            return Br([(isr, get), (not_(isr), lambda ex, s: E().Inline(fn, []))])
    if meth == 'unwrap_or_else':
        return Br([(isr, get), (not_(isr), clos(ex, a[1], []))])
    if meth == 'map':
        return Br([(isr, lambda ex, s: ex.call_closure(a[1], [get()], lambda e, t, r: some(r), s)), (not_(isr), none())])
    if meth == 'and_then':
        return Br([(isr, lambda ex, s: ex.call_closure(a[1], [get()], None, s)), (not_(isr), none())])
    if meth == 'map_or':
        return Br([(isr, lambda ex, s: ex.call_closure(a[2], [get()], None, s)), (not_(isr), a[1])])
    if meth == 'map_or_else':
        return Br([(isr, lambda ex, s: ex.call_closure(a[2], [get()], None, s)), (not_(isr), clos(ex, a[1], []))])
    if meth == 'is_some_and':
        return Br([(isr, lambda ex, s: ex.call_closure(a[1], [get()], None, s)), (not_(isr), FALSE)])
    if meth == 'ok_or':
        return Enum('Result', ite(isr, 0, 1), {('Err', 0): a[1]}, lambda vv, i, t: v.get('Some', 0))
    if meth == 'ok_or_else':
        return Br([(isr, lambda ex, s: ok(get())), (not_(isr), lambda ex, s: ex.call_closure(a[1], [], lambda e, t, r: err(r), s))])
    if meth in ('or',):
        return Br([(isr, v), (not_(isr), a[1])])
    if meth in ('or_else',):
        return Br([(isr, v), (not_(isr), clos(ex, a[1], []))])
    if meth == 'filter':
        def keep(e, t, r):
            return Enum('Option', ite(r, 1, 0), {('Some', 0): get()})

        def f(ex, s):
            return ex.call_closure(a[1], [Ref(s.new_cell(get()))], keep, s)
        return Br([(isr, f), (not_(isr), none())])
    if meth in ('as_ref', 'as_mut', 'cloned', 'copied', 'as_deref'):
        if meth in ('cloned', 'copied'):
            return Enum('Option', v.discr, {}, lambda vv, i, t: ex.deref(st, v.get('Some', 0)))
        r = a[0]
        return Enum('Option', v.discr, {}, lambda vv, i, t: (Ref(r.cell, r.projs + (('v', 'Some'), ('f', 0, t))) if isinstance(r, Ref) else v.get('Some', 0)))
    if meth == 'take':
        r = a[0]
        ex.store_at(st, r.cell, r.projs, none())
        return v
    if meth == 'flatten':
        return Br([(isr, get), (not_(isr), none())])
    if meth == 'transpose':
        r = opt(ex, st, v.get('Some', 0)) if isr is not FALSE else None
        return Br([(isr, lambda ex, s: Enum('Result', r.discr, {('Ok', 0): some(r.get('Ok', 0))}, lambda vv, i, t: r.get(vv, i))), (not_(isr), ok(none()))])
    if meth in ('zip', 'xor', 'and'):
        w = opt(ex, st, a[1])
        wsr = eq(w.discr, 1)
        if meth == 'and':
            return Br([(isr, w), (not_(isr), none())])
        if meth == 'xor':
            return Br([(and_(isr, not_(wsr)), v), (and_(wsr, not_(isr)), w), (iff(isr, wsr), none())])
        c = and_(isr, wsr)
        return Br([(c, lambda ex, s: some(tup(v.get('Some', 0), w.get('Some', 0)))), (not_(c), none())])
    if meth == 'is_none_or':
        return Br([(isr, lambda ex, s: ex.call_closure(a[1], [get()], None, s)), (not_(isr), TRUE)])
    if meth in ('insert', 'replace', 'get_or_insert'):
        r = a[0]
        if not isinstance(r, Ref):
            raise Unsupported('call ' + callee)
        here = Ref(r.cell, tuple(r.projs) + (('v', 'Some'), ('f', 0, None)))

        def put(ex, s):
            ex.store_at(s, r.cell, r.projs, some(a[1]))
            return v if meth == 'replace' else here
        return put(ex, st) if meth != 'get_or_insert' else Br([(isr, lambda ex, s: here), (not_(isr), put)])
    raise Unsupported('call ' + callee)


@model(r'core::result::Result::<.*>::(\w+?)(?:::<.*>)?')
def m_result(ex, st, m, a, retty, callee, crate):
    Br, Pn = E().Branches, E().Panic
    meth = E().strip_turbofish(callee).split('::')[-1]
    v = opt(ex, st, a[0])
    isok = eq(v.discr, 0)
    if meth == 'transpose':
        def turned(ex, s):
            o = opt(ex, s, v.get('Ok', 0))
            return Enum('Option', o.discr, {}, lambda vv, i, t: ok(o.get('Some', 0)))
        return Br([(isok, turned), (not_(isok), lambda ex, s: some(err(v.get('Err', 0))))])
    if meth in ('is_ok_and', 'is_err_and', 'map_or', 'map_or_else', 'or_else', 'unwrap_err', 'expect_err'):
        get, gete = (lambda ex=None, s=None: v.get('Ok', 0)), (lambda ex=None, s=None: v.get('Err', 0))
        if meth == 'is_ok_and':
            return Br([(isok, lambda ex, s: ex.call_closure(a[1], [get()], None, s)), (not_(isok), FALSE)])
        if meth == 'is_err_and':
            return Br([(not_(isok), lambda ex, s: ex.call_closure(a[1], [gete()], None, s)), (isok, FALSE)])
        if meth == 'map_or':
            return Br([(isok, lambda ex, s: ex.call_closure(a[2], [get()], None, s)), (not_(isok), a[1])])
        if meth == 'map_or_else':
            return Br([(isok, lambda ex, s: ex.call_closure(a[2], [get()], None, s)), (not_(isok), lambda ex, s: ex.call_closure(a[1], [gete()], None, s))])
        if meth == 'or_else':
            return Br([(isok, v), (not_(isok), lambda ex, s: ex.call_closure(a[1], [gete()], None, s))])
        return Br([(not_(isok), gete), (isok, Pn('unwrap_err on Ok'))])

    def get(ex=None, s=None):
        return v.get('Ok', 0)

    def gete(ex=None, s=None):
        return v.get('Err', 0)
    if meth in ('unwrap', 'expect'):
        return Br([(isok, get), (not_(isok), Pn('unwrap on Err'))])
    if meth == 'is_ok':
        return isok
    if meth == 'is_err':
        return not_(isok)
    if meth == 'ok':
        return Enum('Option', ite(isok, 1, 0), {}, lambda vv, i, t: v.get('Ok', 0))
    if meth == 'err':
        return Enum('Option', ite(isok, 0, 1), {}, lambda vv, i, t: v.get('Err', 0))
    if meth == 'unwrap_or':
        return Br([(isok, get), (not_(isok), a[1])])
    if meth == 'unwrap_or_else':
        return Br([(isok, get), (not_(isok), lambda ex, s: ex.call_closure(a[1], [gete()], None, s))])
    if meth == 'map':
        return Br([(isok, lambda ex, s: ex.call_closure(a[1], [get()], lambda e, t, r: ok(r), s)), (not_(isok), lambda ex, s: err(gete()))])
    if meth == 'map_err':
        return Br([(isok, lambda ex, s: ok(get())), (not_(isok), lambda ex, s: ex.call_closure(a[1], [gete()], lambda e, t, r: err(r), s))])
    if meth == 'and_then':
        return Br([(isok, lambda ex, s: ex.call_closure(a[1], [get()], None, s)), (not_(isok), lambda ex, s: err(gete()))])
    raise Unsupported('call ' + callee)


@model(r'<core::(result::Result|option::Option)<.*> as core::ops::Try>::branch')
def m_branch(ex, st, m, a, retty, callee, crate):
    v = D(ex, st, a[0])
    if m.group(1).startswith('result'):
        def g(var, i, t):
            if var == 'Continue':
                return v.get('Ok', 0)
            return Enum('Result', 1, {}, lambda vv, j, tt: v.get('Err', 0))
        return Enum('ControlFlow', v.discr, {}, g)

    def g2(var, i, t):
        return v.get('Some', 0) if var == 'Continue' else none()
    return Enum('ControlFlow', sub(1, v.discr), {}, g2)


@model(r'<core::(result::Result|option::Option)<.*> as core::ops::FromResidual<.*>>::from_residual')
def m_residual(ex, st, m, a, retty, callee, crate):
    v = D(ex, st, a[0])
    if m.group(1).startswith('result'):
        e = v.get('Err', 0)
        mm = re.match(r'<core::result::Result<(.*)> as core::ops::FromResidual<core::result::Result<core::convert::Infallible, (.*)>>>::from_residual', callee)
        if mm:
            to = mir.split_top(mm.group(1))[-1].strip()
            fr = mm.group(2).strip()
            if to != fr:
                fn = ex.W.find_fn('<%s as core::convert::From<%s>>::from' % (to, fr), crate)
                if fn is not None:
                    return E().Inline(fn, [e], lambda ex, s, r: err(r))
        return err(e)
    return none()


@model(r'<core::(result::Result|option::Option)<.*> as core::ops::Try>::from_output')
def m_from_output(ex, st, m, a, retty, callee, crate):
    return ok(a[0]) if m.group(1).startswith('result') else some(a[0])


@model(r'core::bool::<impl bool>::then(?:::<.*>)?')
def m_then(ex, st, m, a, retty, callee, crate):
    return E().Branches([(a[0], lambda ex, s: ex.call_closure(a[1], [], lambda e, t, r: some(r), s)), (not_(a[0]), none())])


@model(r'core::bool::<impl bool>::then_some(?:::<.*>)?')
def m_then_some(ex, st, m, a, retty, callee, crate):
    return Enum('Option', ite(a[0], 1, 0), {('Some', 0): a[1]})


# ------------------------------------------------------------------ panics, formatting, logs, events
@model(r'core::panicking::\w+(?:::<.*>)?', r'core::rt::begin_panic.*', r'core::rt::panic_fmt', r'core::option::expect_failed', r'core::option::unwrap_failed')
def m_panic(ex, st, m, a, retty, callee, crate):
    return E().Panic('panic')


@model(r'soroban_sdk::Env::panic_with_error(?:::<.*>)?')
def m_panic_with_error(ex, st, m, a, retty, callee, crate):
    e = D(ex, st, a[1]) if len(a) > 1 else None
    d = e.discr if isinstance(e, Enum) else '?'
    return E().Panic('error %s' % (d,))


@model(r'core::fmt::.*', r'core::io::_eprint', r'core::io::_print', r'\w+::core::fmt::format', r'(?:\w+::)*fmt::format', r'(?:\w+::)*core::string::String::as_str')
def m_fmt(ex, st, m, a, retty, callee, crate):
    return Opq('fmt')


@model(r'soroban_sdk::logs::Logs::.*', r'soroban_sdk::events::Events::publish(?:::<.*>)?', r'soroban_sdk::storage::\w+::extend_ttl(?:::<.*>)?',
       r'soroban_token_sdk::event::Events::\w+', r'soroban_sdk::deploy::Deployer::extend_ttl.*', r'core::mem::drop(?:::<.*>)?')
def m_nop(ex, st, m, a, retty, callee, crate):
    return UNIT


# ------------------------------------------------------------------ Env
@model(r'soroban_sdk::Env::(logs|events|ledger|deployer|crypto|storage)', r'soroban_token_sdk::TokenUtils::(events|metadata|new)')
def m_env_part(ex, st, m, a, retty, callee, crate):
    return Opq('envpart', callee.split('::')[-1])


@model(r'soroban_sdk::Vec::<.*>::env', r'soroban_sdk::(?:String|Address|Map::<.*>|Bytes)::env')
def m_env_of(ex, st, m, a, retty, callee, crate):
    return Opq('env')


@model(r'soroban_sdk::Env::current_contract_address')
def m_self(ex, st, m, a, retty, callee, crate):
    return self_addr()


@model(r'soroban_sdk::ledger::Ledger::timestamp')
def m_time(ex, st, m, a, retty, callee, crate):
    return app('now', (), 'u64')


@model(r'soroban_sdk::ledger::Ledger::sequence')
def m_seq(ex, st, m, a, retty, callee, crate):
    return app('sequence', (), 'u32')


@model(r'soroban_sdk::Address::(require_auth|require_auth_for_args)')
def m_auth(ex, st, m, a, retty, callee, crate):
    ad = D(ex, st, a[0])
    st.auth.append(ad)
    st.trace.append(('auth', ad))
    # the contracts define no __check_auth and the host forbids re-entry: nobody can authorise as this contract
    st.assume(ne(ad, self_addr()))
    return UNIT


@model(r'soroban_sdk::deploy::Deployer::update_current_contract_wasm(?:::<.*>)?')
def m_upgrade(ex, st, m, a, retty, callee, crate):
    st.trace.append(('upgrade', D(ex, st, a[1])))
    return UNIT


@model(r'soroban_sdk::deploy::Deployer::(with_current_contract|with_address)(?:::<.*>)?')
def m_with_current(ex, st, m, a, retty, callee, crate):
    return Opq('deployer', [D(ex, st, x) for x in a[1:]])


@model(r'soroban_sdk::deploy::DeployerWithAddress::(deploy_v2|deploy)(?:::<.*>)?')
def m_deploy(ex, st, m, a, retty, callee, crate):
    dep = D(ex, st, a[0])
    wh = D(ex, st, a[1])
    args = D(ex, st, a[2]) if len(a) > 2 else UNIT
    n = app('deployed!%d' % next(tm._cnt), kctx(st))
    st.assume(ne(n, self_addr()))
    for t in st.trace:
        if t[0] == 'deploy':
            st.assume(ne(n, t[1]))
    st.trace.append(('deploy', n, wh, dep.data[0] if isinstance(dep, Opq) else None, args))
    return n


@model(r'soroban_sdk::crypto::Crypto::(sha256|keccak256)')
def m_hash(ex, st, m, a, retty, callee, crate):
    return app(m.group(1), (D(ex, st, a[1]),))


@model(r'soroban_sdk::Bytes::new')
def m_bytes(ex, st, m, a, retty, callee, crate):
    return strconst('')


@model(r'soroban_sdk::Bytes::append')
def m_bytes_append(ex, st, m, a, retty, callee, crate):
    r = a[0]
    v = app('bytes.append', (D(ex, st, r), D(ex, st, a[1])))
    ex.store_at(st, r.cell, r.projs, v)
    return UNIT


@model(r'soroban_sdk::Bytes::(?:from_slice|from_array).*', r'soroban_sdk::BytesN::<\d+>::from_array')
def m_bytes_lit(ex, st, m, a, retty, callee, crate):
    v = D(ex, st, a[1])
    if isinstance(v, T):
        return v
    return app('bytes.of', tuple(E().flatten(ex.W, v)))


@model(r'<(.*) as soroban_sdk::xdr::ToXdr>::to_xdr')
def m_xdr(ex, st, m, a, retty, callee, crate):
    v = E().flatten(ex.W, D(ex, st, a[0]))
    return app('xdr', tuple(v))


@model(r'soroban_sdk::String::from_str', r'soroban_sdk::Symbol::new', r'soroban_sdk::String::from_slice', r'soroban_sdk::String::from_bytes')
def m_str(ex, st, m, a, retty, callee, crate):
    v = D(ex, st, a[1])
    if isinstance(v, T):
        return v
    if isinstance(v, Opq) and v.kind == 'fmt':        # formatted text: unknown
        return fresh('text')
    raise Unsupported('string of %r' % (v,))


@model(r'soroban_sdk::Symbol::short')
def m_sym(ex, st, m, a, retty, callee, crate):
    return D(ex, st, a[0])


@model(r'soroban_sdk::(?:String|Bytes|Symbol)::len', r'core::str::<impl str>::len')
def m_strlen(ex, st, m, a, retty, callee, crate):
    v = D(ex, st, a[0])
    if is_int(v) and ival(v) in STR:
        return I(len(STR[ival(v)]))
    return app('strlen', (v,), 'u32')


# ------------------------------------------------------------------ storage
def key_of(ex, st, k):
    """storage key value -> (constructor text, argument terms); follows the host encoding of keys"""
    k = D(ex, st, k)
    if isinstance(k, T):
        if is_int(k) and ival(k) in STR:
            return 'sym:' + STR[ival(k)], ()
        return 'val', (k,)
    if isinstance(k, Enum):
        d = ex.W.typedef(k.ty)
        if d is None or d[0] != 'enum':
            raise Unsupported('storage key ' + k.ty)
        if not is_int(k.discr):
            raise Unsupported('symbolic storage key ' + k.ty)
        for vn, dd, fl in d[1]:
            if dd == ival(k.discr):
                ex_int = ex.W.is_int_enum(k.ty)
                name = ('u32:%d' % dd) if ex_int else vn
                args = []
                for i, (fn, ft) in enumerate(fl):
                    args += E().flatten(ex.W, D(ex, st, k.get(vn, i, ft)), ft)
                return name, tuple(args)
    if isinstance(k, Struct):
        if k.ty == 'tuple':
            c, args = [], []
            for i in range(k.n):
                a, b = key_of(ex, st, k.get(i))
                c.append(a)
                args += b
            return '(' + ','.join(c) + ')', tuple(args)
        d = ex.W.typedef(k.ty)
        if d and d[0] == 'struct':
            args = []
            for i, (fn, ft) in enumerate(d[1]):
                args += E().flatten(ex.W, D(ex, st, k.get(i, ft)), ft)
            return '{' + ','.join(sorted(f for f, _ in d[1])) + '}', tuple(args)
    raise Unsupported('storage key %r' % (k,))


def keq(a, b):
    return and_(*[eq(x, y) for x, y in zip(a, b)])


def store_read(ex, st, dur, ctor, args, ty):
    """(present, value) of a storage entry in the current state"""
    pres = bapp('has.%s.%s' % (dur, ctor), args)
    name = 'st.%s.%s' % (dur, ctor)
    ex.st_types.setdefault((dur, ctor), ty)
    val = None
    W = ex.W
    log = st.store.get((dur, ctor), [])
    val = E().sym(W, ty, name, args) if ty is not None else None
    for (eargs, epres, evalf) in log:
        if eargs is None:             # havoc entry: (None, fpres, fval) functions of args
            pres = epres(args)
            if ty is not None:
                val = evalf(args, ty)
            continue
        c = keq(args, eargs)
        if c is FALSE:
            continue
        pres = ite(c, epres, pres)
        if ty is not None:
            v2 = evalf
            if v2 is not None:
                val = vite(c, v2, val)
    return pres, val


@model(r'soroban_sdk::storage::Storage::(instance|persistent|temporary)')
def m_storage(ex, st, m, a, retty, callee, crate):
    return Opq('storage', m.group(1))


DUR = {'Instance': 'instance', 'Persistent': 'persistent', 'Temporary': 'temporary'}


@model(r'soroban_sdk::storage::(Instance|Persistent|Temporary)::(get|set|has|remove|get_unchecked)(?:::<(.*)>)?')
def m_store(ex, st, m, a, retty, callee, crate):
    dur = DUR[m.group(1)]
    op = m.group(2)
    ctor, args = key_of(ex, st, a[1])
    tys = mir.split_top(m.group(3)) if m.group(3) else []
    if tys:
        ex.key_types[(dur, ctor)] = tys[0].strip()
    if op == 'get':
        pres, val = store_read(ex, st, dur, ctor, args, tys[1].strip())
        return Enum('Option<%s>' % tys[1].strip(), ite(pres, 1, 0), {('Some', 0): val})
    if op == 'has':
        return store_read(ex, st, dur, ctor, args, None)[0]
    if op == 'set':
        v = D(ex, st, a[2])
        ty = tys[1].strip()
        while ty.startswith('&'):
            ty = ty[1:]
        ex.st_types.setdefault((dur, ctor), ty)
        st.store.setdefault((dur, ctor), []).append((args, TRUE, v))
        st.wcount += 1
        st.trace.append(('set', dur, ctor, args, v))
        return UNIT
    if op == 'remove':
        st.store.setdefault((dur, ctor), []).append((args, FALSE, None))
        st.wcount += 1
        st.trace.append(('remove', dur, ctor, args))
        return UNIT
    raise Unsupported('call ' + callee)


@model(r'soroban_sdk::storage::(Instance|Persistent|Temporary)::(update|try_update)(?:::<(.*)>)?')
def m_store_update(ex, st, m, a, retty, callee, crate):
    raise Unsupported('call ' + callee)


@model(r'soroban_token_sdk::metadata::Metadata::(get_metadata|set_metadata)')
def m_metadata(ex, st, m, a, retty, callee, crate):
    ty = 'soroban_token_sdk::metadata::TokenMetadata'
    if m.group(1) == 'set_metadata':
        v = D(ex, st, a[1])
        st.store.setdefault(('instance', 'METADATA'), []).append(((), TRUE, v))
        st.wcount += 1
        st.trace.append(('set', 'instance', 'METADATA', (), v))
        return UNIT
    pres, v = store_read(ex, st, 'instance', 'METADATA', (), ty)
    return panic_if(not_(pres), 'unwrap on None', v)


# ------------------------------------------------------------------ token ledger and other clients
def tok_balance(ex, st, token, who, upto=None):
    """balance of `who` in `token` after the token operations so far, as a term"""
    v = app('tok.bal', (token, who), 'bal')
    for op in st.tok[:upto]:
        k = op[0]
        if k == 'havoc':
            v = app('tok.bal~%s' % op[1], tuple(op[2]) + (token, who), 'bal')
            continue
        _, t, frm, to, amt = op
        same = eq(t, token)
        if same is FALSE:
            continue
        if frm is not None:
            v = sub(v, ite(and_(same, eq(frm, who)), amt, 0))
        if to is not None:
            v = add(v, ite(and_(same, eq(to, who)), amt, 0))
    return v


RANGES['bal'] = (0, 2**127 - 1)


def client_of(ex, st, v):
    c = D(ex, st, v)
    if isinstance(c, Opq) and c.kind == 'client':
        return c
    raise Unsupported('client %r' % (c,))


@model(r'((?:\w+::)*\w+)::(?:\w*Client)::new', r'(soroban_sdk::token)::\w*Client::new')
def m_client_new(ex, st, m, a, retty, callee, crate):
    return Opq('client', m.group(1).split('::')[-1], D(ex, st, a[1]))


def push_tok(ex, st, kind, token, frm, to, amt):
    """a token movement; SEP-41: fails unless amount >= 0 and the source holds it"""
    st.trace.append((kind, token, frm, to, amt))
    bad = lt(amt, 0)
    if frm is not None:
        bad = or_(bad, lt(tok_balance(ex, st, token, frm), amt))
    st.tok.append((kind, token, frm, to, amt))
    return panic_if(bad, 'token %s refused' % kind, UNIT)


@model(r'((?:\w+::)*\w+)::(?:\w*Client)::(\w+)')
def m_client_call(ex, st, m, a, retty, callee, crate):
    c = client_of(ex, st, a[0])
    return client_call(ex, st, c.data[0], c.data[1], m.group(2), [D(ex, st, x) for x in a[1:]], retty)


def is_token_module(ex, mod):
    return mod in ('token_contract', 'token') or ex.W.imports.get(mod) == 'soroban_token_contract'


def client_call(ex, st, mod, addr, meth, args, retty):
    ex.calls_made.add((mod, meth))
    if mod is not None and is_token_module(ex, mod):
        return token_call(ex, st, addr, meth, args, retty)
    return ext_call(ex, st, mod, addr, meth, args, retty)


def token_call(ex, st, addr, meth, args, retty):
    if meth == 'balance':
        return tok_balance(ex, st, addr, args[0])
    if meth == 'transfer':
        return push_tok(ex, st, 'transfer', addr, args[0], args[1], args[2])
    if meth == 'mint':
        return push_tok(ex, st, 'mint', addr, None, args[0], args[1])
    if meth == 'burn':
        return push_tok(ex, st, 'burn', addr, args[0], None, args[1])
    if meth == 'transfer_from':
        return push_tok(ex, st, 'transfer', addr, args[1], args[2], args[3])
    if meth == 'burn_from':
        return push_tok(ex, st, 'burn', addr, args[1], None, args[2])
    if meth == 'decimals':
        return app('tok.decimals', (addr,), 'u32')
    if meth in ('symbol', 'name'):
        return app('tok.' + meth, (addr,), None)
    return ext_call(ex, st, 'token_contract', addr, meth, args, retty)


READ_ONLY = re.compile(r'^(query_|simulate_|get_|balance|decimals|symbol|name)')


def ext_call(ex, st, mod, addr, meth, args, retty):
    """call of another contract: arbitrary result, arbitrary effect outside this contract's own storage
    (the host forbids re-entering this contract)"""
    # one symbol for the answer to the call at this point of the path, whichever way it was reached (within one run and iteration)
    key = (kctx(st), len(st.trace), meth, retty)
    if key not in ex.answers:
        ex.answers[key] = next(tm._cnt)
    cid = ex.answers[key]
    name = 'ext.%s!%d' % (meth, cid)
    ret = E().sym(ex.W, retty, name, kctx(st)) if retty not in (None, '()') else UNIT
    ex.ret_types[id(ret)] = (ret, retty)
    st.trace.append(('call', mod, addr, meth, list(args), ret))
    if not (isinstance(meth, str) and READ_ONLY.match(meth)):
        st.tok.append(('havoc', cid, kctx(st)))
    return ret


@model(r'soroban_sdk::Env::(invoke_contract)(?:::<(.*)>)?')
def m_invoke(ex, st, m, a, retty, callee, crate):
    addr = D(ex, st, a[1])
    f = D(ex, st, a[2])
    args = D(ex, st, a[3])
    meth = STR.get(ival(f)) if is_int(f) else None
    if meth is None:
        raise Unsupported('invoke_contract of computed function name')
    if args.items is None:
        raise Unsupported('invoke_contract with computed argument list')
    ty = m.group(2)
    ex.calls_made.add((None, meth))
    return ext_call(ex, st, None, addr, meth, [D(ex, st, x) for x in args.items], ty)


@model(r'soroban_sdk::Env::try_invoke_contract(?:::<(.*)>)?', r'((?:\w+::)*\w+)::(?:\w*Client)::try_(\w+)')
def m_try_invoke(ex, st, m, a, retty, callee, crate):
    raise Unsupported('call ' + callee)


# ------------------------------------------------------------------ U256 / I256
@model(r'soroban_sdk::(U256|I256)::(\w+)')
def m_u256(ex, st, m, a, retty, callee, crate):
    ty = m.group(1).lower()
    op = m.group(2)
    if op.startswith('from_'):
        if op in ('from_u32', 'from_u128', 'from_i32', 'from_i128', 'from_u64'):
            return D(ex, st, a[1])
        raise Unsupported('call ' + callee)
    x = D(ex, st, a[0])
    y = D(ex, st, a[1]) if len(a) > 1 else None
    if op in ('add', 'sub', 'mul'):
        r = {'add': add, 'sub': sub, 'mul': mul}[op](x, y)
        return panic_if(not_(in_range(r, ty)), ty + ' overflow', r)
    if op in ('div', 'rem_euclid'):
        if ty == 'i256':
            raise Unsupported('call ' + callee)
        return panic_if(eq(y, 0), ty + ' division by zero', tdiv(x, y) if op == 'div' else trem(x, y))
    if op == 'pow':
        r = power(x, y)
        return panic_if(not_(in_range(r, ty)), ty + ' overflow', r)
    mm = re.match(r'to_([ui]\d+)$', op)
    if mm:
        return Enum('Option', ite(in_range(x, mm.group(1)), 1, 0), {('Some', 0): x})
    raise Unsupported('call ' + callee)


# ------------------------------------------------------------------ Vec / Map
VEC = r'soroban_sdk::Vec::<(.*)>::(\w+?)'


def vec_of(ex, st, v):
    v = D(ex, st, v)
    if not isinstance(v, SVec):
        raise Unsupported('vec %r' % (v,))
    return v


@model(r'soroban_sdk::Vec::<(.*)>::(new|from_array|from_slice|get|get_unchecked|set|len|is_empty|push_back|push_front|pop_back|first|last|remove|remove_unchecked|contains|iter|append|insert|slice|first_index_of|pop_front|truncate)(?:::<.*>)?')
def m_vec(ex, st, m, a, retty, callee, crate):
    Br, Pn = E().Branches, E().Panic
    ety, op = m.group(1), m.group(2)
    if op == 'new':
        return SVec(ety, 0, None, [])
    if op in ('from_array', 'from_slice'):
        arr = D(ex, st, a[1])
        return SVec(ety, arr.n, None, [D(ex, st, arr.get(i)) for i in range(arr.n)])
    v = vec_of(ex, st, a[0])
    if op == 'len':
        return v.len
    if op == 'is_empty':
        return eq(v.len, 0)
    if op in ('get',):
        i = a[1]
        c = lt(i, v.len)
        if c is FALSE:
            return none()
        return Enum('Option<%s>' % ety, ite(c, 1, 0), {}, lambda vv, j, t: v.at(i))
    if op == 'get_unchecked':
        i = a[1]
        c = lt(i, v.len)
        return Br([(c, lambda ex, s: v.at(i)), (not_(c), Pn('index out of bounds'))])
    if op in ('first', 'last'):
        i = I(0) if op == 'first' else sub(v.len, 1)
        c = gt(v.len, 0)
        if c is FALSE:
            return none()
        return Enum('Option<%s>' % ety, ite(c, 1, 0), {}, lambda vv, j, t: v.at(i))
    if op == 'iter':
        return vec_iter(v)
    if op == 'contains' or op == 'first_index_of':
        x = D(ex, st, a[1])
        if op == 'contains':
            return vec_contains(ex, v, x)
        if v.items is not None:
            hit = [E().veq(ex.W, y, x) for y in v.items]
            return Br([(and_(h, *[not_(g) for g in hit[:k]]), some(I(k))) for k, h in enumerate(hit)] + [(not_(or_(*hit)), none())])
        b, j = fresh('bound', 'u32', kctx(st)), bvar('w%d' % next(_cv))
        is_ = lambda i: E().veq(ex.W, v.at(i), x)
        return Br([(and_(le(0, b), lt(b, v.len), forall([j.args[0]], implies(and_(le(0, j), lt(j, b)), not_(is_(j)))), is_(b)), some(b)),
                   (not_(vec_contains(ex, v, x)), none())])
    if op == 'slice':
        r = D(ex, st, a[1])
        if not isinstance(r, Struct):
            raise Unsupported('call ' + callee)
        seg = E().lastseg(r.ty)
        lo = I(0) if seg in ('RangeTo', 'RangeToInclusive', 'RangeFull') else r.get(0)
        hi = v.len if seg in ('RangeFrom', 'RangeFull') else r.get(0) if seg == 'RangeTo' else add(r.get(0), 1) if seg == 'RangeToInclusive' else \
            add(r.get(1), 1) if seg == 'RangeInclusive' else r.get(1)
        c = and_(le(lo, hi), le(hi, v.len))
        if v.items is not None and is_int(lo) and is_int(hi):
            nv = SVec(ety, max(0, ival(hi) - ival(lo)), None, v.items[ival(lo):ival(hi)])
        else:
            nv = SVec(ety, sub(hi, lo), lambda j: v.at(add(lo, j)))
        return Br([(c, lambda ex, s: nv), (not_(c), Pn('slice out of range'))])
    r = a[0]

    def put(ex, s, nv):
        if not isinstance(r, Ref):
            raise Unsupported('vec mutation without reference')
        ex.store_at(s, r.cell, r.projs, nv)
    if op == 'push_back':
        put(ex, st, v.push(D(ex, st, a[1])))
        return UNIT
    if op == 'push_front' or op == 'insert':
        x = D(ex, st, a[-1])
        i = I(0) if op == 'push_front' else a[1]
        if v.items is not None and is_int(i):
            k = ival(i)
            put(ex, st, SVec(ety, len(v.items) + 1, None, v.items[:k] + [x] + v.items[k:]))
            return UNIT
        nv = SVec(ety, add(v.len, 1), lambda j: vite(lt(j, i), v.at(j), vite(eq(j, i), x, v.at(sub(j, 1)))))

        def go(ex, s):
            put(ex, s, nv)
            return UNIT
        c = le(i, v.len)
        return Br([(c, go), (not_(c), Pn('index out of bounds'))])
    if op in ('pop_back', 'pop_front'):
        i = sub(v.len, 1) if op == 'pop_back' else I(0)
        c = gt(v.len, 0)

        def go(ex, s):
            put(ex, s, v.removed(i))
            return some(v.at(i))
        return Br([(c, go), (not_(c), none())])
    if op == 'remove':
        i = a[1]
        c = lt(i, v.len)

        def go(ex, s):
            put(ex, s, v.removed(i))
            return some(UNIT)
        return Br([(c, go), (not_(c), none())])
    if op in ('remove_unchecked', 'set'):
        i = a[1]
        c = lt(i, v.len)

        def go(ex, s):
            put(ex, s, v.removed(i) if op == 'remove_unchecked' else v.updated(i, D(ex, s, a[2])))
            return UNIT
        return Br([(c, go), (not_(c), Pn('index out of bounds'))])
    if op == 'append':
        w = vec_of(ex, st, a[1])
        if v.items is not None and w.items is not None:
            put(ex, st, SVec(ety, len(v.items) + len(w.items), None, v.items + w.items))
            return UNIT
        n = v.len
        if is_int(n) and ival(n) == 0:
            put(ex, st, w)
        elif not (is_int(w.len) and ival(w.len) == 0):
            put(ex, st, SVec(ety, add(n, w.len), lambda j: vite(lt(j, n), v.at(j), w.at(sub(j, n))), None, ('append', v, w)))
        return UNIT
    raise Unsupported('call ' + callee)


_cv = __import__('itertools').count()


def vec_contains(ex, v, x):
    if v.items is not None:
        return or_(*[E().veq(ex.W, y, x) for y in v.items])
    j = bvar('c%d' % next(_cv))
    return exists([j.args[0]], and_(le(0, j), lt(j, v.len), E().veq(ex.W, v.at(j), x)))


@model(r'soroban_sdk::Map::<(.*)>::(new|from_array|get|get_unchecked|set|contains_key|keys|len|remove|is_empty|iter|values)(?:::<.*>)?')
def m_map(ex, st, m, a, retty, callee, crate):
    k, vt = mir.split_top(m.group(1))
    op = m.group(2)
    vt = vt.strip()
    if op == 'from_array':
        mp = SMap(k, vt, lambda j: FALSE, lambda j: E().sym(ex.W, vt, 'nomap', (j,)), ('empty', ()))
        arr = D(ex, st, a[1])
        for i in range(arr.n):
            e = D(ex, st, arr.get(i))
            mp = mp.set(D(ex, st, e.get(0)), D(ex, st, e.get(1)))
        return mp
    if op == 'new':
        return SMap(k, vt, lambda j: FALSE, lambda j: E().sym(ex.W, vt, 'nomap', (j,)), ('empty', ()))
    v = D(ex, st, a[0])
    if op in ('get', 'contains_key', 'get_unchecked'):
        key = D(ex, st, a[1])
        h = v.has(key)
        if op == 'contains_key':
            return h
        if op == 'get_unchecked':
            return E().Branches([(h, lambda ex, s: v.val(key)), (not_(h), E().Panic('missing key'))])
        return Enum('Option<%s>' % vt, ite(h, 1, 0), {}, lambda vv, j, t: v.val(key))
    if op == 'set':
        r = a[0]
        ex.store_at(st, r.cell, r.projs, v.set(D(ex, st, a[1]), D(ex, st, a[2])))
        return UNIT
    if op == 'keys':
        return map_keys(ex, v)
    if op in ('iter', 'values', 'len', 'is_empty'):
        ks = map_keys(ex, v)
        if op == 'len':
            return ks.len
        if op == 'is_empty':
            return eq(ks.len, 0)
        if op == 'values':
            return SVec(vt, ks.len, lambda j: v.val(ks.at(j)), None, ('values', v))
        return Iter(lambda j: Struct('tuple', {0: ks.at(j), 1: v.val(ks.at(j))}, None, 2), ks.len, I(0), '(%s, %s)' % (k, vt), (), ('map', v))
    raise Unsupported('call ' + callee)


def map_keys(ex, v):
    """keys of a map: strictly increasing, all of them members, complete (assumed host contract)"""
    if v.name and v.name[0] == 'empty':
        return SVec(v.kty, 0, None, [])
    if v.name is None:
        ks, m = [], v
        while m.kv is not None and m.kv[0] == 'set':
            ks.append(m.kv[2])
            m = m.kv[1]
        if m.name and m.name[0] == 'empty' and all(isinstance(k, T) for k in ks):
            if all(is_int(k) for k in ks):
                ks = [I(x) for x in sorted(set(ival(k) for k in ks))]
            elif all(k is ks[0] for k in ks):
                ks = ks[:1]
            else:
                raise Unsupported('keys of an updated map')
            return SVec(v.kty, len(ks), None, ks)
        raise Unsupported('keys of an updated map')
    n, args = v.name
    ln = app(n + '.keys.len', args, 'u32')
    sv = SVec(v.kty, ln, lambda j: app(n + '.keys', tuple(args) + (j,), v.kty.strip()), None, ('keys', n, tuple(args)))
    return sv


# ------------------------------------------------------------------ iterators
def vec_iter(v):
    return Iter(v.at, v.len, I(0), v.ety, (), ('vec', v))


def as_iter(v):
    if isinstance(v, Iter):
        return v
    if isinstance(v, SVec):
        return vec_iter(v)
    if isinstance(v, Struct):
        seg = E().lastseg(v.ty)
        if seg == 'Range':
            s, e = v.get(0), v.get(1)
            return Iter(lambda i: add(s, i), smax(sub(e, s), I(0)), I(0), 'int', (), ('range', s, e))
        if seg == 'RangeInclusive':
            s, e = v.get(0), v.get(1)
            return Iter(lambda i: add(s, i), smax(add(sub(e, s), 1), I(0)), I(0), 'int', (), ('range', s, e))
        if v.ty == 'array':
            return Iter(lambda i: v.get(ival(i)), v.n, I(0), 'elem', (), ('array', v))
    if isinstance(v, Enum) and E().lastseg(v.ty) == 'Option':
        return Iter(lambda i: v.get('Some', 0), v.discr, I(0), 'elem', (), ('option', v))
    raise Unsupported('iterate %r' % (v,))


@model(r'core::ops::RangeInclusive::<.*>::new')
def m_range_incl(ex, st, m, a, retty, callee, crate):
    return Struct('RangeInclusive', {0: a[0], 1: a[1]}, None, 2)


@model(r'core::ops::(RangeInclusive|Range)::<.*>::contains(?:::<.*>)?')
def m_range_contains(ex, st, m, a, retty, callee, crate):
    r, x = D(ex, st, a[0]), D(ex, st, a[1])
    c = ge(x, r.get(0))
    return and_(c, le(x, r.get(1)) if m.group(1) == 'RangeInclusive' else lt(x, r.get(1)))


@model(r'core::ops::RangeInclusive::<.*>::(start|end)')
def m_range_ends(ex, st, m, a, retty, callee, crate):
    r = D(ex, st, a[0])
    return r.get(0 if m.group(1) == 'start' else 1)


@model(r'<(.*) as core::iter::IntoIterator>::into_iter')
def m_into_iter(ex, st, m, a, retty, callee, crate):
    if ex.W.find_fn('<%s as core::iter::Iterator>::next' % m.group(1), crate) is not None:
        return a[0]
    return by_ref(ex, st, a[0])


def by_ref(ex, st, r):
    """iterator over the elements; those of an array that is only borrowed are borrowed too"""
    v = D(ex, st, r)
    if isinstance(r, Ref) and isinstance(v, Struct) and v.ty == 'array' and v.n is not None:
        while isinstance(ex.load_at(st, r.cell, r.projs), Ref):
            r = ex.load_at(st, r.cell, r.projs)
        return Iter(lambda i: Ref(r.cell, tuple(r.projs) + (('i', lift(i)),)), v.n, I(0), 'elem', (), ('array', v))
    return as_iter(v)


@model(r'core::slice::<impl \[(.*)\]>::(iter|len|contains|is_empty|first|last)')
def m_slice(ex, st, m, a, retty, callee, crate):
    v = D(ex, st, a[0])
    op = m.group(2)
    if op == 'iter':
        return by_ref(ex, st, a[0])
    if not (isinstance(v, Struct) and v.ty == 'array' and v.n is not None):
        raise Unsupported('call ' + callee)
    if op in ('len', 'is_empty'):
        return I(v.n) if op == 'len' else (TRUE if v.n == 0 else FALSE)
    if op == 'contains':
        x = D(ex, st, a[1])
        return or_(*[E().veq(ex.W, D(ex, st, v.get(i)), x) for i in range(v.n)])
    if v.n == 0:
        return none()
    r = a[0]
    while isinstance(ex.load_at(st, r.cell, r.projs), Ref):
        r = ex.load_at(st, r.cell, r.projs)
    return some(Ref(r.cell, tuple(r.projs) + (('i', I(0 if op == 'first' else v.n - 1)),)))


@model(r'<\[(.*); \d+\] as core::ops::Index<core::ops::(Range\w*)(?:<usize>)?>>::index', r'core::slice::<impl \[(.*)\]>::(windows|chunks)')
def m_subslice(ex, st, m, a, retty, callee, crate):
    v, op, k = D(ex, st, a[0]), m.group(2), D(ex, st, a[1])
    if not (isinstance(v, Struct) and v.ty == 'array' and v.n is not None):
        raise Unsupported('call ' + callee)
    part = lambda i, j: Struct('array', {x - i: v.get(x) for x in range(i, j)}, None, j - i)
    if op in ('windows', 'chunks'):
        if not is_int(k) or ival(k) < 1:
            raise Unsupported('call ' + callee)
        k = ival(k)
        ps = [part(i, i + k) for i in range(v.n - k + 1)] if op == 'windows' else [part(i, min(i + k, v.n)) for i in range(0, v.n, k)]
        return Iter(lambda i: ps[ival(i)], I(len(ps)), I(0), 'elem', (), ('array', None))
    lo = I(0) if op in ('RangeTo', 'RangeToInclusive', 'RangeFull') else k.get(0)
    hi = I(v.n) if op in ('RangeFrom', 'RangeFull') else k.get(0) if op == 'RangeTo' else add(k.get(0), 1) if op == 'RangeToInclusive' else \
        add(k.get(1), 1) if op == 'RangeInclusive' else k.get(1)
    if not (is_int(lo) and is_int(hi)):
        raise Unsupported('call ' + callee)
    if not 0 <= ival(lo) <= ival(hi) <= v.n:
        return E().Panic('slice out of range')
    return part(ival(lo), ival(hi))


@model(r'core::slice::<impl \[(.*)\]>::(sort|sort_unstable|reverse|swap)')
def m_slice_mut(ex, st, m, a, retty, callee, crate):
    r = a[0]
    while isinstance(r, Ref) and isinstance(ex.load_at(st, r.cell, r.projs), Ref):
        r = ex.load_at(st, r.cell, r.projs)
    v = D(ex, st, r)
    op = m.group(2)
    if not (isinstance(r, Ref) and isinstance(v, Struct) and v.ty == 'array' and v.n is not None and v.n <= 6):
        raise Unsupported('call ' + callee)
    xs = [v.get(i) for i in range(v.n)]
    if op == 'swap':
        i, j = a[1], a[2]
        if not (is_int(i) and is_int(j) and max(ival(i), ival(j)) < v.n):
            raise Unsupported('call ' + callee)
        xs[ival(i)], xs[ival(j)] = xs[ival(j)], xs[ival(i)]
    elif op == 'reverse':
        xs.reverse()
    else:
        if m.group(1) not in RANGES or not all(isinstance(x, T) for x in xs):
            raise Unsupported('call ' + callee)
        for n in range(v.n):
            for i in range(v.n - 1 - n):
                xs[i], xs[i + 1] = smin(xs[i], xs[i + 1]), smax(xs[i], xs[i + 1])
    ex.store_at(st, r.cell, r.projs, Struct('array', dict(enumerate(xs)), None, v.n))
    return UNIT


@model(r'core::array::<impl \[(.*)\]>::map(?:::<.*>)?')
def m_array_map(ex, st, m, a, retty, callee, crate):
    v = D(ex, st, a[0])
    if not (isinstance(v, Struct) and v.ty == 'array' and v.n is not None):
        raise Unsupported('call ' + callee)

    def step(ex, s, i, done):
        if i == v.n:
            return Struct('array', dict(enumerate(done)), None, v.n)
        return ex.call_closure(a[1], [v.get(i)], lambda ex, s, r: step(ex, s, i + 1, done + [r]), s)
    return step(ex, st, 0, [])


@model(r'<(.*) as core::iter::(Iterator|DoubleEndedIterator)>::(next|next_back)', r'vc::next')
def m_next(ex, st, m, a, retty, callee, crate):
    fn = user_impl(ex, callee, crate) if callee.startswith('<') else None
    if fn is not None:
        return E().Inline(fn, list(a))
    r = a[0]
    v = D(ex, st, r)
    it = as_iter(v)
    while isinstance(r, Ref):          # innermost reference holding the iterator itself
        inner = ex.load_at(st, r.cell, r.projs)
        if not isinstance(inner, Ref):
            break
        r = inner
    back = callee.endswith('next_back')
    c = lt(it.pos, it.n)

    if any(k != 'map' for k, _ in it.maps) and ex.header_of_call(st) is None:
        return first_kept(ex, st, r, it, back)

    def go(ex, s):
        p = sub(it.n, 1) if back else it.pos
        nit = Iter(it.src, sub(it.n, 1), it.pos, it.ety, it.maps, it.info) if back else it.at(add(it.pos, 1))
        ex.store_at(s, r.cell, r.projs, nit)
        v = it.src(p)
        return apply_maps(ex, s, v, it.maps, lambda x: some(x))
    if c is TRUE:
        return go(ex, st)
    if c is FALSE:
        return none()
    return E().Branches([(c, go), (not_(c), none())])


def apply_maps(ex, st, v, maps, fin):
    """the closures of map / filter / filter_map applied to one element; an element that is dropped starts the loop again"""
    if not maps:
        return fin(v)
    (kind, clo), rest = maps[0], maps[1:]
    retry = lambda ex, s: E().Retry()

    def opt(ex, s, x):
        x = D(ex, s, x)
        if not isinstance(x, Enum):
            raise Unsupported('filter_map %r' % (x,))
        c = eq(x.discr, 1)
        return E().Branches([(c, lambda ex, s: apply_maps(ex, s, x.get('Some', 0), rest, fin)), (not_(c), retry)])
    if kind == 'inspect':
        return ex.call_closure(clo, [Ref(st.new_cell(v))], lambda ex, s, r: apply_maps(ex, s, v, rest, fin), st)
    if kind == 'map':
        return ex.call_closure(clo, [v], lambda ex, s, r: apply_maps(ex, s, r, rest, fin), st)
    if kind == 'filter':
        def cont(ex, s, r):
            return E().Branches([(r, lambda ex, s: apply_maps(ex, s, v, rest, fin)), (not_(r), retry)])
        return ex.call_closure(clo, [Ref(st.new_cell(v))], cont, st)
    if kind == 'filter_map':
        return ex.call_closure(clo, [v], opt, st)
    return opt(ex, st, v)        # flatten


def pure_ops(ex, st, it):
    """element i of an iterator with effect-free closures: (is it kept, its value)"""
    def f(i):
        v, keep = it.src(i), TRUE
        for kind, c in it.maps:
            if kind == 'inspect':
                raise Unsupported('inspected iterator')
            x, pan = (v, FALSE) if kind == 'flatten' else ex.eval_pure(st, c, [Ref(st.new_cell(v)) if kind == 'filter' else v])
            if pan is not FALSE:
                raise Unsupported('panicking map')
            if kind == 'map':
                v = x
            elif kind == 'filter':
                keep = and_(keep, x)
            else:
                x = D(ex, st, x)
                if not isinstance(x, Enum):
                    raise Unsupported('filter_map %r' % (x,))
                keep, v = and_(keep, eq(x.discr, 1)), x.get('Some', 0)
        return keep, v
    return f


def pure_src(ex, st, it):
    """element function with maps applied (pure closures only)"""
    if not it.maps:
        return it.src
    if any(k != 'map' for k, _ in it.maps):
        raise Unsupported('filtered iterator')
    f = pure_ops(ex, st, it)
    return lambda i: f(i)[1]


def first_kept(ex, st, r, it, back=False):
    """next of a filtered iterator, outside a loop: the first element that is kept"""
    if back:
        raise Unsupported('filtered iterator from the back')
    f = pure_ops(ex, st, it)
    if is_int(it.n) and is_int(it.pos):
        items = []
        before = TRUE
        for i in range(ival(it.pos), ival(it.n)):
            k, v = f(I(i))

            def hit(ex, s, i=i, v=v):
                ex.store_at(s, r.cell, r.projs, it.at(I(i + 1)))
                return some(v)
            items.append((and_(before, k), hit))
            before = and_(before, not_(k))

        def miss(ex, s):
            ex.store_at(s, r.cell, r.projs, it.at(it.n))
            return none()
        return E().Branches(items + [(before, miss)])
    j = bvar('w%d' % next(_cv))
    b = fresh('bound', 'u32', kctx(st))
    kj, (kb, vb) = f(j)[0], f(b)

    def hit(ex, s):
        ex.store_at(s, r.cell, r.projs, it.at(add(b, 1)))
        return some(vb)

    def miss(ex, s):
        ex.store_at(s, r.cell, r.projs, it.at(smax(it.n, it.pos)))
        return none()
    return E().Branches([(and_(le(it.pos, b), lt(b, it.n), kb, forall([j.args[0]], implies(and_(le(it.pos, j), lt(j, b)), not_(kj)))), hit),
                         (forall([j.args[0]], implies(and_(le(it.pos, j), lt(j, it.n)), not_(kj))), miss)])


@model(r'<(.*) as core::iter::(?:Iterator|ExactSizeIterator|DoubleEndedIterator)>::(map|filter|filter_map|flatten|inspect|zip|chain|rev|skip|take|enumerate|cloned|copied|len|by_ref|peekable|step_by)(?:::<.*>)?')
def m_adapt(ex, st, m, a, retty, callee, crate):
    op = m.group(2)
    it = as_iter(D(ex, st, a[0]))
    if op in ('map', 'filter', 'filter_map', 'inspect'):
        return Iter(it.src, it.n, it.pos, it.ety, it.maps + ((op, a[1]),), it.info)
    if op == 'flatten':
        return Iter(it.src, it.n, it.pos, it.ety, it.maps + ((op, None),), it.info)
    if op in ('cloned', 'copied'):
        if not it.maps or any(k != 'map' for k, _ in it.maps):
            return it
        return Iter(pure_src(ex, st, it), it.n, it.pos, it.ety)
    if op in ('len', 'skip', 'take') and any(k != 'map' for k, _ in it.maps):
        raise Unsupported('filtered iterator')
    if op == 'len':
        return sub(it.n, it.pos)
    if op == 'by_ref':
        return a[0]
    if op == 'rev':
        return Iter(lambda i: it.src(sub(sub(add(it.n, it.pos), 1), i)), it.n, it.pos, it.ety, it.maps, ('rev', it.info))
    if op == 'skip':
        return Iter(it.src, it.n, smin(add(it.pos, a[1]), it.n), it.ety, it.maps, it.info)
    if op == 'take':
        return Iter(it.src, smin(it.n, add(it.pos, a[1])), it.pos, it.ety, it.maps, it.info)
    if op == 'peekable':
        return Iter(pure_src(ex, st, it), it.n, it.pos, it.ety, (), it.info)
    if op == 'step_by':
        f, k = pure_src(ex, st, it), a[1]
        if not (is_int(k) and ival(k) > 0):
            raise Unsupported('call ' + callee)
        p0 = it.pos
        return Iter(lambda i: f(add(p0, mul(k, i))), smax(I(0), tdiv(add(sub(it.n, p0), sub(k, 1)), k)), I(0), it.ety, (), ('step', it.info))
    if op == 'enumerate':
        f = pure_src(ex, st, it)
        p0 = it.pos
        return Iter(lambda i: tup(sub(i, p0), f(i)), it.n, it.pos, it.ety, (), ('enum', it.info))
    if op == 'zip':
        b = as_iter(D(ex, st, a[1]))
        f, g = pure_src(ex, st, it), pure_src(ex, st, b)
        n = smin(sub(it.n, it.pos), sub(b.n, b.pos))
        p, q = it.pos, b.pos
        return Iter(lambda i: tup(f(add(p, i)), g(add(q, i))), n, I(0), it.ety, (), ('zip', it.info, b.info))
    if op == 'chain':
        b = as_iter(D(ex, st, a[1]))
        f, g = pure_src(ex, st, it), pure_src(ex, st, b)
        n1, n2 = sub(it.n, it.pos), sub(b.n, b.pos)
        p, q = it.pos, b.pos

        def h(i):
            c = lt(i, n1)
            if c is TRUE:
                return f(add(p, i))
            if c is FALSE:
                return g(add(q, sub(i, n1)))
            return vite(c, f(add(p, i)), g(add(q, sub(i, n1))))
        return Iter(h, add(n1, n2), I(0), it.ety, (), ('chain', it.info, b.info))
    raise Unsupported('call ' + callee)


@model(r'core::iter::Peekable::<.*>::peek')
def m_peek(ex, st, m, a, retty, callee, crate):
    it = as_iter(D(ex, st, a[0]))
    c = lt(it.pos, it.n)
    return E().Branches([(c, lambda ex, s: some(Ref(s.new_cell(it.src(it.pos))))), (not_(c), none())])


@model(r'core::iter::(once|repeat|empty)(?:::<.*>)?')
def m_iter_src(ex, st, m, a, retty, callee, crate):
    n = {'once': 1, 'repeat': 2**64 - 1, 'empty': 0}[m.group(1)]
    return Iter(lambda i: a[0], I(n), I(0), 'elem', (), ('array', None) if n < 2 else None)


@model(r'<(.*) as core::iter::(?:Iterator|DoubleEndedIterator)>::(nth|last|find_map|count)(?:::<.*>)?')
def m_pick(ex, st, m, a, retty, callee, crate):
    op = E().strip_turbofish(callee).split('::')[-1]
    r, it = a[0], as_iter(D(ex, st, a[0]))
    if op == 'find_map':
        it2 = Iter(it.src, it.n, it.pos, it.ety, it.maps + (('filter_map', a[1]),), it.info)
        cell = Ref(st.new_cell(it2))
        res = first_kept(ex, st, cell, it2)
        if not isinstance(r, Ref):
            return res

        def sync(x):
            def f(ex, s):
                v = x(ex, s) if callable(x) else x
                ex.store_at(s, r.cell, r.projs, it.at(D(ex, s, cell).pos))
                return v
            return f
        return E().Branches([(c, sync(x)) for c, x in res.items])
    if any(k != 'map' for k, _ in it.maps):
        if op == 'count':
            return E().Inline(syn('count'), [a[0]])
        raise Unsupported('call ' + callee)
    if op == 'count':
        if it.maps:
            return E().Inline(syn('count'), [a[0]])
        return smax(sub(it.n, it.pos), I(0))
    f = pure_src(ex, st, it)
    if op == 'last':
        c = lt(it.pos, it.n)
        return E().Branches([(c, lambda ex, s: some(f(sub(it.n, 1)))), (not_(c), none())])
    p = add(it.pos, a[1])
    c = lt(p, it.n)

    def hit(ex, s):
        ex.store_at(s, r.cell, r.projs, it.at(add(p, 1)))
        return some(f(p))

    def miss(ex, s):
        ex.store_at(s, r.cell, r.projs, it.at(smax(it.n, it.pos)))
        return none()
    return E().Branches([(c, hit), (not_(c), miss)])


@model(r'<(.*) as core::iter::Iterator>::(max|min|product|reduce)(?:::<.*>)?')
def m_extreme(ex, st, m, a, retty, callee, crate):
    op = E().strip_turbofish(callee).split('::')[-1]
    if op == 'reduce':
        return E().Inline(syn('reduce'), list(a))
    if op == 'product':
        return E().Inline(syn('product', '_' + str(retty)), [a[0], I(1)])
    return E().Inline(syn(op), [a[0]])


@model(r'vc::(max|min)')
def m_vcmax(ex, st, m, a, retty, callee, crate):
    x, y = D(ex, st, a[0]), D(ex, st, a[1])
    if not (isinstance(x, T) and isinstance(y, T) and x.sort == INT):
        raise Unsupported('maximum of %r' % (x,))
    return smax(x, y) if m.group(1) == 'max' else smin(x, y)


SYN = {
    'for_each': '''fn vc::for_each(_1: X, _2: X) -> () {
    bb0: { goto -> bb1; }
    bb1: { _5 = &mut _1; _4 = vc::next(move _5) -> [return: bb2, unwind continue]; }
    bb2: { _6 = discriminant(_4); switchInt(move _6) -> [0: bb4, 1: bb3, otherwise: bb5]; }
    bb3: { _7 = ((_4 as Some).0: X); _8 = vc::call(copy _2, move _7) -> [return: bb1, unwind continue]; }
    bb4: { _0 = const (); return; }
    bb5: { unreachable; }
}''',
    'fold': '''fn vc::fold(_1: X, _2: X, _3: X) -> X {
    bb0: { goto -> bb1; }
    bb1: { _5 = &mut _1; _4 = vc::next(move _5) -> [return: bb2, unwind continue]; }
    bb2: { _6 = discriminant(_4); switchInt(move _6) -> [0: bb4, 1: bb3, otherwise: bb5]; }
    bb3: { _7 = ((_4 as Some).0: X); _2 = vc::call(copy _3, copy _2, move _7) -> [return: bb1, unwind continue]; }
    bb4: { _0 = move _2; return; }
    bb5: { unreachable; }
}''',
    'any': '''fn vc::any(_1: X, _2: X) -> bool {
    bb0: { goto -> bb1; }
    bb1: { _5 = copy _1; _4 = vc::next(move _5) -> [return: bb2, unwind continue]; }
    bb2: { _6 = discriminant(_4); switchInt(move _6) -> [0: bb4, 1: bb3, otherwise: bb5]; }
    bb3: { _7 = ((_4 as Some).0: X); _8 = vc::call(copy _2, move _7) -> [return: bb6, unwind continue]; }
    bb6: { switchInt(copy _8) -> [0: bb1, otherwise: bb7]; }
    bb7: { _0 = const true; return; }
    bb4: { _0 = const false; return; }
    bb5: { unreachable; }
}''',
    'all': '''fn vc::all(_1: X, _2: X) -> bool {
    bb0: { goto -> bb1; }
    bb1: { _5 = copy _1; _4 = vc::next(move _5) -> [return: bb2, unwind continue]; }
    bb2: { _6 = discriminant(_4); switchInt(move _6) -> [0: bb4, 1: bb3, otherwise: bb5]; }
    bb3: { _7 = ((_4 as Some).0: X); _8 = vc::call(copy _2, move _7) -> [return: bb6, unwind continue]; }
    bb6: { switchInt(copy _8) -> [0: bb7, otherwise: bb1]; }
    bb7: { _0 = const false; return; }
    bb4: { _0 = const true; return; }
    bb5: { unreachable; }
}''',
    'position': '''fn vc::position(_1: X, _2: X) -> X {
    bb0: { _9 = const 0_u32; goto -> bb1; }
    bb1: { _5 = copy _1; _4 = vc::next(move _5) -> [return: bb2, unwind continue]; }
    bb2: { _6 = discriminant(_4); switchInt(move _6) -> [0: bb4, 1: bb3, otherwise: bb5]; }
    bb3: { _7 = ((_4 as Some).0: X); _8 = vc::call(copy _2, move _7) -> [return: bb6, unwind continue]; }
    bb6: { switchInt(copy _8) -> [0: bb8, otherwise: bb7]; }
    bb8: { _9 = vc::inc(copy _9) -> [return: bb1, unwind continue]; }
    bb7: { _0 = vc::some(copy _9) -> [return: bb9, unwind continue]; }
    bb4: { _0 = vc::none() -> [return: bb9, unwind continue]; }
    bb9: { return; }
    bb5: { unreachable; }
}''',
    'find': '''fn vc::find(_1: X, _2: X) -> X {
    bb0: { goto -> bb1; }
    bb1: { _5 = copy _1; _4 = vc::next(move _5) -> [return: bb2, unwind continue]; }
    bb2: { _6 = discriminant(_4); switchInt(move _6) -> [0: bb4, 1: bb3, otherwise: bb5]; }
    bb3: { _7 = ((_4 as Some).0: X); _10 = &_7; _8 = vc::call(copy _2, copy _10) -> [return: bb6, unwind continue]; }
    bb6: { switchInt(copy _8) -> [0: bb1, otherwise: bb7]; }
    bb7: { _0 = vc::some(copy _7) -> [return: bb9, unwind continue]; }
    bb4: { _0 = vc::none() -> [return: bb9, unwind continue]; }
    bb9: { return; }
    bb5: { unreachable; }
}''',
    'try_fold': '''fn vc::try_fold(_1: X, _2: X, _3: X) -> X {
    bb0: { goto -> bb1; }
    bb1: { _5 = copy _1; _4 = vc::next(move _5) -> [return: bb2, unwind continue]; }
    bb2: { _6 = discriminant(_4); switchInt(move _6) -> [0: bb4, 1: bb3, otherwise: bb5]; }
    bb3: { _7 = ((_4 as Some).0: X); _8 = vc::call(copy _3, copy _2, move _7) -> [return: bb6, unwind continue]; }
    bb6: { _10 = discriminant(_8); switchInt(copy _10) -> [0: bb8, otherwise: bb7]; }
    bb8: { _2 = ((_8 as Ok).0: X); goto -> bb1; }
    bb7: { _0 = copy _8; return; }
    bb4: { _0 = vc::ok(copy _2) -> [return: bb9, unwind continue]; }
    bb9: { return; }
    bb5: { unreachable; }
}''',
    'sum': '''fn vc::sum(_1: X, _2: X) -> X {
    bb0: { goto -> bb1; }
    bb1: { _5 = &mut _1; _4 = vc::next(move _5) -> [return: bb2, unwind continue]; }
    bb2: { _6 = discriminant(_4); switchInt(move _6) -> [0: bb4, 1: bb3, otherwise: bb5]; }
    bb3: { _7 = ((_4 as Some).0: X); _2 = vc::add(copy _2, move _7) -> [return: bb1, unwind continue]; }
    bb4: { _0 = move _2; return; }
    bb5: { unreachable; }
}''',
}
for _k in ('max', 'min'):
    SYN[_k] = '''fn vc::%s(_1: X) -> X {
    bb0: { _5 = &mut _1; _4 = vc::next(move _5) -> [return: bb6, unwind continue]; }
    bb6: { _6 = discriminant(_4); switchInt(move _6) -> [0: bb8, 1: bb7, otherwise: bb5]; }
    bb7: { _7 = ((_4 as Some).0: X); _2 = vc::val(move _7) -> [return: bb1, unwind continue]; }
    bb1: { _5 = &mut _1; _4 = vc::next(move _5) -> [return: bb2, unwind continue]; }
    bb2: { _6 = discriminant(_4); switchInt(move _6) -> [0: bb4, 1: bb3, otherwise: bb5]; }
    bb3: { _7 = ((_4 as Some).0: X); _2 = vc::%s(copy _2, move _7) -> [return: bb1, unwind continue]; }
    bb4: { _0 = vc::some(copy _2) -> [return: bb9, unwind continue]; }
    bb8: { _0 = vc::none() -> [return: bb9, unwind continue]; }
    bb9: { return; }
    bb5: { unreachable; }
}''' % (_k, _k)
SYN['reduce'] = SYN['max'].replace('vc::max(_1: X)', 'vc::reduce(_1: X, _3: X)').replace('vc::max(copy _2', 'vc::call(copy _3, copy _2')
SYN['count'] = '''fn vc::count(_1: X) -> usize {
    bb0: { _2 = const 0_usize; goto -> bb1; }
    bb1: { _5 = &mut _1; _4 = vc::next(move _5) -> [return: bb2, unwind continue]; }
    bb2: { _6 = discriminant(_4); switchInt(move _6) -> [0: bb4, 1: bb3, otherwise: bb5]; }
    bb3: { _2 = vc::inc(copy _2) -> [return: bb1, unwind continue]; }
    bb4: { _0 = copy _2; return; }
    bb5: { unreachable; }
}'''
SYN['product'] = SYN['sum'].replace('vc::sum', 'vc::product').replace('vc::add', 'vc::mul')
_syn = {}


def syn(name, suffix=''):
    key = (name, suffix)
    f = _syn.get(key)
    if f is None:
        raw = SYN[name]
        # one statement per line, as rustc prints it
        lines = []
        for l in raw.split('\n'):
            mm = re.match(r'\s*(bb\d+): \{ (.*) \}$', l)
            if mm:
                lines.append('    %s: {' % mm.group(1))
                for s in mir.split_top(mm.group(2), ';'):
                    if s.strip():
                        lines.append('        %s;' % s.strip())
                lines.append('    }')
                lines.append('')
            else:
                lines.append(l)
        f = mir.parse_fn('\n'.join(lines), 'fn')
        f.name = 'vc::' + name + suffix
        f.crate = 'vc'
        f.kind = 'fn'
        _syn[key] = f
    return f


@model(r'<(.*) as core::iter::Iterator>::(for_each|fold|any|all|position|find|try_fold|sum)(?:::<.*>)?')
def m_iter_loop(ex, st, m, a, retty, callee, crate):
    mm = re.search(r'>::(for_each|fold|any|all|position|find|try_fold|sum)(?:::<|$)', callee)
    # last occurrence outside generics
    op = E().strip_turbofish(callee).split('::')[-1]
    args = list(a)
    if op in ('any', 'all', 'position', 'find'):
        try:
            return search_iter(ex, st, op, a)
        except Unsupported:
            pass
    elif not isinstance(a[0], Ref):
        args[0] = as_iter(a[0])
    if op == 'sum':
        args = [a[0], I(0)]
    f = syn(op)
    if op == 'sum':
        g = syn('sum', '_' + str(retty))
        return E().Inline(g, args)
    return E().Inline(f, args)


def search_iter(ex, st, op, a):
    """any / all / position / find with an effect-free predicate: by the elements it holds for"""
    it = as_iter(D(ex, st, a[0]))
    if op == 'position' or all(k == 'map' for k, _ in it.maps):
        g = pure_src(ex, st, it)
        f0 = lambda i: (TRUE, g(i))
    else:
        f0 = pure_ops(ex, st, it)
    f = lambda i: f0(i)[1]
    kept = lambda i: f0(i)[0]

    def pred(i):
        x = f(i)
        v, pan = ex.eval_pure(st, a[1], [Ref(st.new_cell(x)) if op == 'find' else x])
        if pan is not FALSE or not isinstance(v, T):
            raise Unsupported('predicate')
        return v

    def moved(s, pos):
        if isinstance(a[0], Ref):
            ex.store_at(s, a[0].cell, a[0].projs, Iter(it.src, it.n, pos, it.ety, it.maps, it.info))
    if is_int(it.n) and is_int(it.pos):
        raise Unsupported('concrete')        # unrolled
    j = bvar('w%d' % next(_cv))
    inr = and_(le(it.pos, j), lt(j, it.n))
    pj = pred(j)
    if op in ('any', 'all'):
        moved(st, fresh('pos', 'u32', kctx(st)))
        inr = and_(inr, kept(j))
        return exists([j.args[0]], and_(inr, pj)) if op == 'any' else forall([j.args[0]], implies(inr, pj))
    pj, pred0 = and_(kept(j), pj), pred
    pred = lambda i: and_(kept(i), pred0(i))
    b = fresh('bound', 'u32', kctx(st))
    none_before = forall([j.args[0]], implies(and_(le(it.pos, j), lt(j, b)), not_(pj)))

    def hit(ex, s):
        moved(s, add(b, 1))
        return some(sub(b, it.pos) if op == 'position' else f(b))

    def miss(ex, s):
        moved(s, it.n)
        return none()
    return E().Branches([(and_(le(it.pos, b), lt(b, it.n), none_before, pred(b)), hit),
                         (and_(le(it.pos, it.n), forall([j.args[0]], implies(inr, not_(pj)))), miss)])


@model(r'vc::call')
def m_vccall(ex, st, m, a, retty, callee, crate):
    return ex.call_closure(a[0], list(a[1:]), None, st)


@model(r'vc::(some|none|ok|inc)')
def m_vccons(ex, st, m, a, retty, callee, crate):
    k = m.group(1)
    return some(a[0]) if k == 'some' else none() if k == 'none' else ok(a[0]) if k == 'ok' else add(a[0], 1)


@model(r'vc::(add|mul)')
def m_vcadd(ex, st, m, a, retty, callee, crate):
    ty = 'i128'
    for f in reversed(st.frames):
        mm = re.match(r'vc::(?:sum|product)_(\w+)$', f.fn.name)
        if mm:
            ty = mm.group(1)
            break
    return arith(m.group(1), ty, a[0], D(ex, st, a[1]))


@model(r'vc::val')
def m_vcval(ex, st, m, a, retty, callee, crate):
    return D(ex, st, a[0])


@model(r'<(.*) as core::iter::Iterator>::(skip_while|take_while)(?:::<.*>)?')
def m_while(ex, st, m, a, retty, callee, crate):
    """skip_while / take_while over a pure predicate: the boundary is the first index whose element fails it"""
    op = E().strip_turbofish(callee).split('::')[-1]
    it = as_iter(D(ex, st, a[0]))
    f = pure_src(ex, st, it)
    if is_int(it.n) and is_int(it.pos):
        # concrete: compute boundary as ite chain
        n, p = ival(it.n), ival(it.pos)
        b = I(n)
        for i in range(n - 1, p - 1, -1):
            v, pan = ex.eval_pure(st, a[1], [Ref(st.new_cell(f(I(i))))])
            if pan is not FALSE:
                raise Unsupported('panicking predicate')
            b = ite(v, b, I(i))
    else:
        b = fresh('bound', 'u32', kctx(st))

        def pred(i):
            v, pan = ex.eval_pure(st, a[1], [Ref(st.new_cell(f(i)))])
            if pan is not FALSE:
                raise Unsupported('panicking predicate')
            return v
        st.assume(and_(le(it.pos, b), le(b, it.n)))
        j = bvar('w%d' % next(_cv))
        st.assume(forall([j.args[0]], implies(and_(le(it.pos, j), lt(j, b)), pred(j))))
        st.assume(implies(lt(b, it.n), not_(pred(b))))
    if op == 'skip_while':
        return Iter(f, it.n, b, it.ety, (), it.info)
    return Iter(f, b, it.pos, it.ety, (), it.info)


# ------------------------------------------------------------------ closures called through Fn traits
@model(r'<(.*) as core::ops::(Fn|FnMut|FnOnce)<.*>>::(call|call_mut|call_once)')
def m_fncall(ex, st, m, a, retty, callee, crate):
    args = D(ex, st, a[1])
    return ex.call_closure(D(ex, st, a[0]), [args.get(i) for i in range(args.n)], None, st)


@model(r'core::mem::(swap|replace|take)(?:::<.*>)?')
def m_mem(ex, st, m, a, retty, callee, crate):
    k = m.group(1)
    if k == 'swap':
        x, y = D(ex, st, a[0]), D(ex, st, a[1])
        ex.store_at(st, a[0].cell, a[0].projs, y)
        ex.store_at(st, a[1].cell, a[1].projs, x)
        return UNIT
    if k == 'replace':
        x = D(ex, st, a[0])
        ex.store_at(st, a[0].cell, a[0].projs, a[1])
        return x
    raise Unsupported('call ' + callee)


def fallback(ex, callee, crate):
    return None
