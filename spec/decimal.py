"""Contracts of the decimal library (packages/decimal): every public operation of Decimal that yields a number."""
from vc.check import *
from vc.terms import *
from vc.values import *
from vc import exec as ex, loops as lp, models

ONE = 10 ** 18
LO, HI = -2 ** 127, 2 ** 127 - 1
fits = lambda *xs: and_(*[and_(le(LO, x), le(x, HI)) for x in xs])


def C23(ck):
    con = ck.contract('decimal')
    W = con.W
    i128 = lambda n: app('num.%d' % n, (), 'i128')
    i64 = lambda n: app('wide.%d' % n, (), 'i64')
    i32 = lambda n: app('places.%d' % n, (), 'i32')

    def dec(n):
        return ex.sym(W, 'decimal::Decimal', 'arg.%d' % n)

    def num(v):
        """the number of units a value stands for"""
        return v if isinstance(v, T) else field(W, v, '0')

    def op(name, args, want, fine=TRUE, what='exact, truncated toward zero', get=num, hyps=(), loops=None, unroll=None, tag=''):
        """`want`: the result; `fine`: whenever this holds the operation succeeds"""
        with ck.guard(name):
            e = con.fn(name)
            R = con.run(e, argv=dict(enumerate(args)), loops=loops, unroll=unroll, tag=tag)
            if not R.paths:
                raise Undecided('%s never returns' % name)
            for p in R.paths:
                ck.path(p, what, eq(get(p.ret), want), list(hyps))
            if fine is not None:
                ck.ob('%s succeeds whenever the result and what it is computed from fit%s' % (name, tag), [fine] + list(hyps), or_(*[and_(*p.pc) for p in R.paths]))
    D0, D1 = dec(0), dec(1)
    a, c = num(D0), num(D1)
    op('Decimal::new', [i128(0)], i128(0))
    op('Decimal::raw', [i128(0)], i128(0))
    op('Decimal::one', [], I(ONE))
    op('Decimal::zero', [], I(0))
    op('Decimal::percent', [i64(0)], mul(i64(0), ONE // 100))
    op('Decimal::permille', [i64(0)], mul(i64(0), ONE // 1000))
    op('Decimal::bps', [i64(0)], mul(i64(0), ONE // 10000))
    op('Decimal::decimal_places', [D0], I(18))
    op('Decimal::numerator', [D0], a)
    op('Decimal::denominator', [D0], I(ONE))
    op('Decimal::atomics', [D0], a)
    op('Decimal::abs', [D0], ite(lt(a, 0), sub(0, a), a), fits(sub(0, a)))
    op('Decimal::abs_diff', [D0, D1], ite(lt(a, c), sub(c, a), sub(a, c)), fits(sub(a, c), sub(c, a)))
    op('<Decimal as Add>::add', [D0, D1], add(a, c), fits(add(a, c)))
    op('<Decimal as Sub>::sub', [D0, D1], sub(a, c), fits(sub(a, c)))
    op('<Decimal as Mul>::mul', [D0, D1], tdiv(mul(a, c), ONE), fits(mul(a, c)))
    op('<Decimal as Div>::div', [D0, D1], tdiv(mul(a, ONE), c), and_(ne(c, 0), fits(mul(a, ONE))))
    op('<Decimal as Mul<i128>>::mul', [D0, i128(1)], tdiv(mul(a, i128(1)), ONE), fits(mul(a, i128(1))))
    op('<Decimal as Div<i128>>::div', [D0, i128(1)], tdiv(a, i128(1)), and_(ne(i128(1), 0), or_(ne(i128(1), -1), ne(a, LO))))
    op('<i128 as Mul<Decimal>>::mul', [i128(0), D1], tdiv(mul(i128(0), c), ONE), fits(mul(i128(0), c)))
    op('Decimal::from_ratio', [i128(0), i128(1)], tdiv(mul(i128(0), ONE), i128(1)), and_(ne(i128(1), 0), fits(mul(i128(0), ONE))))
    with ck.guard('Decimal::inv'):
        R = con.run(con.fn('Decimal::inv'), argv={0: D0})
        for p in R.paths:
            has = given(p.ret)
            ck.path(p, 'zero has no inverse, everything else has one', iff(has, ne(a, 0)))
            if not (is_int(p.ret.discr) and ival(p.ret.discr) == 0):
                ck.path(p, 'exact, truncated toward zero', implies(has, eq(num(val(p.ret)), tdiv(I(ONE * ONE), a))))
        ck.ob('Decimal::inv never fails', [], or_(*[and_(*p.pc) for p in R.paths]))
    with ck.guard('Decimal::is_zero'):
        R = con.run(con.fn('Decimal::is_zero'), argv={0: D0})
        for p in R.paths:
            ck.path(p, 'true for zero only', iff(p.ret, eq(a, 0)))
    with ck.guard('comparison'):
        R = con.run(con.fn('<Decimal as PartialEq>::eq'), argv={0: D0, 1: D1})
        for p in R.paths:
            ck.path(p, 'equal when the numbers are', iff(p.ret, eq(a, c)))
        R = con.run(con.fn('<Decimal as PartialOrd>::partial_cmp'), argv={0: D0, 1: D1})
        for p in R.paths:
            has, v = given(p.ret), val(p.ret)
            ck.path(p, 'ordered as the numbers are', and_(has, eq(v.discr, ite(lt(a, c), -1, ite(eq(a, c), 0, 1)))))
    # places and powers of ten: the exponent decides between finitely many factors, everything beyond must fail
    with ck.guard('Decimal::from_atomics'):
        R = con.run(con.fn('Decimal::from_atomics'), argv={0: i128(0), 1: i32(1)})
        x, n = i128(0), i32(1)
        for p in R.paths:
            ck.path(p, 'only as many places as can be scaled', and_(le(-20, n), le(n, 56)))
            for k in range(-20, 57):
                ck.path(p, 'exact at %d places' % k, eq(num(p.ret), mul(x, 10 ** (18 - k)) if k <= 18 else tdiv(x, 10 ** (k - 18))), [eq(n, k)])
        ck.ob('Decimal::from_atomics succeeds whenever the result fits', [le(-20, n), le(n, 56)] + [implies(eq(n, k), fits(mul(x, 10 ** (18 - k)))) for k in range(-20, 19)],
              or_(*[and_(*p.pc) for p in R.paths]))
    with ck.guard('Decimal::to_i128_with_precision'):
        R = con.run(con.fn('Decimal::to_i128_with_precision'), argv={0: D0, 1: i32(1)})
        n = i32(1)
        for p in R.paths:
            ck.path(p, 'only as many places as there are', and_(le(-20, n), le(n, 18)))
            for k in range(-20, 19):
                ck.path(p, 'exact at %d places, truncated toward zero' % k, eq(p.ret, tdiv(a, 10 ** (18 - k))), [eq(n, k)])
        ck.ob('Decimal::to_i128_with_precision succeeds for all places there are', [le(-20, n), le(n, 18)], or_(*[and_(*p.pc) for p in R.paths]))
    # powers: the base case, one factor, two factors; and a power of a part of one is a part of one
    def cands(X, rec):
        out = []
        ints = [(n, get) for n, get, kind in rec.leaves if kind == 'int']
        sq = tdiv(mul(a, a), ONE)
        unit = lambda v: and_(le(0, v), le(v, ONE))
        for n, get in ints:
            out.append(('spec %s is part of one' % n, lambda s, k, gh, get=get: implies(unit(a), unit(get(s)))))
            for n2, get2 in ints:
                for r in (1, 2):
                    for w, v in (('one', I(ONE)), ('the base', a), ('the square', sq)):
                        out.append(('spec with %s=%d %s is %s' % (n2, r, n, w), lambda s, k, gh, get=get, get2=get2, v=v, r=r: implies(eq(get2(s), r), eq(get(s), v))))
        return out
    for k, want in ((0, I(ONE)), (1, a), (2, tdiv(mul(a, a), ONE))):
        op('Decimal::pow', [D0, I(k)], want, None, 'power %d' % k, loops=lp.AutoLoop(cands=[cands]), tag=' (power %d)' % k)
    with ck.guard('Decimal::pow'):
        R = con.run(con.fn('Decimal::pow'), argv={0: D0, 1: app('exponent', (), 'u32')}, loops=lp.AutoLoop(cands=[cands]))
        for p in R.paths:
            ck.path(p, 'a power of a part of one is a part of one', and_(le(0, num(p.ret)), le(num(p.ret), ONE)), [le(0, a), le(a, ONE)])
