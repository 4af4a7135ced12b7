"""Contracts of the stable pool's curve (contracts/pool_stable)."""
from vc.check import *
from vc.terms import *
from vc.values import *
from vc import loops, exec as ex, smt
from spec.pool import *

TOL = 10**12


def amp_now(p):
    """the amplification (times 100)"""
    h, a = p.pre('instance', 'u32:5', (), 'storage::AmplifierParameters')
    return p.f(a, 'next_amp')


def prec(p, tok):
    return p.pre('instance', '(u32:7,val)', (tok,), 'u32')[1]


def scaled(x, d):
    """x units of an asset with d decimals, in 18 decimals"""
    return ite(lt(d, 18), mul(x, power(10, sub(18, d))), tdiv(x, power(10, sub(d, 18))))


def invariant_calls(R):
    """abstracted calls of the invariant solver: function applications fn:<name>(amp, a, b)"""
    out = set()
    for p in R.paths:
        for u in subterms(p.pc + ([p.ret] if isinstance(p.ret, T) else []) + [t[4] for t in p.st.tok if t[0] != 'havoc']):
            if u.op == 'app' and str(u.args[0]).startswith('fn:') and len(u.args) == 4:
                out.add(u)
    return out


def D_of(R, amp, a, b):
    fs = {u.args[0] for u in invariant_calls(R)}
    if len(fs) != 1:
        raise Undecided('solver of the invariant not identified: %s' % sorted(fs))
    return app(fs.pop(), (amp, a, b), 'u256')


def C08(ck):
    con = ck.contract('pool_stable')
    with ck.guard('curve'):
        R = con.run('swap', tag='curve', **runopts('pool_stable', 'inner'))
        ck.nonvacuous(R)
        curve(ck, con, R)
    with ck.guard('invariant'):
        invariant(ck, con, R)
    with ck.guard('decimals'):
        decimals(ck, con)


def decimals(ck, con):
    """the decimals the curve works with are those of the tokens, from initialisation on (no other entry writes them: C11)"""
    I_ = con.run('initialize', **runopts('pool_stable'))
    ck.nonvacuous(I_)
    for p in I_.paths:
        ti = p.f(I_.args[2], 'token_init_info')
        ds = []
        for n in ('token_a', 'token_b'):
            t = p.f(ti, n)
            d = app('tok.decimals', (t,), 'u32')
            ds.append(d)
            h, v = p.post('instance', '(u32:7,val)', (t,), 'u32')
            ck.path(p, 'the decimals of %s are recorded' % n, and_(h, eq(v, d)), [ne(p.f(ti, 'token_a'), p.f(ti, 'token_b'))])
        h, v = p.post('instance', 'u32:6', (), 'u32')
        ck.path(p, 'the larger number of decimals is recorded for shares', and_(h, eq(v, smax(*ds))))


def curve(ck, con, R):
    sender, offer, dx = R.args[0], R.args[1], R.args[2]
    newton = ck.lemma('newton residual', 4, newton_lemma)
    for p in R.paths:
        v = PoolView(p)
        amp = amp_now(p)
        for nm, h, x, y, x2, y2, sold, bought in swap_sides(v, offer):
            hy = v.inv + [h, ne(v.fee_recipient, SELF), ne(sender, v.fee_recipient)]
            F, Rx = p.flow(bought, v.fee_recipient), p.flow(bought, sender)
            g = sub(0, p.flow(bought, SELF))
            N = sub(y, g)
            p_ = lambda n, goal, hyps=(), steps=(), **k: ck.path(p, '%s: %s' % (nm, n), goal, hy + list(hyps), steps, **k)
            p_('what leaves the pool is what seller and fee recipient get', and_(eq(g, add(Rx, F)), eq(Rx, p.ret)))
            p_('the fee is the floor of gross times the fee rate', eq(F, tdiv(mul(g, v.total_fee_bps), 10000)))
            p_('the payout is not above the reserve', and_(ge(N, 0), ge(g, 0)))
            D = D_of(R, amp, scaled(x, prec(p, sold)), scaled(y, prec(p, bought)))
            X = scaled(add(x, dx), prec(p, sold))
            goals, hs, st = solves(p, newton, D, X, amp, prec(p, bought), N, p.ret)
            p_('the new balance solves the invariant to within the tolerance, in the own decimals of each asset', or_(*goals), hs, st)


def reverse_quote_contract(ck, con):
    """the offer quoted brings the pool to the balance that solves the invariant once the gross amount has left"""
    R = con.run('simulate_reverse_swap', tag='curve', **runopts('pool_stable', 'inner'))
    ck.nonvacuous(R)
    sold_, want = R.args
    newton = ck.lemma('newton residual', 4, newton_lemma)
    for p in R.paths:
        v = PoolView(p)
        amp = amp_now(p)
        dx, fee = p.f(p.ret, 'offer_amount'), p.f(p.ret, 'commission_amount')
        ck.path(p, 'the asset is one of the pool', or_(eq(sold_, v.token_a), eq(sold_, v.token_b)), v.inv)
        for nm, h, x, y, sold, bought in (('sell a', eq(sold_, v.token_a), v.ra, v.rb, v.token_a, v.token_b),
                                          ('sell b', eq(sold_, v.token_b), v.rb, v.ra, v.token_b, v.token_a)):
            hy = v.inv + [h]
            p_ = lambda n, goal, hyps=(), steps=(): ck.path(p, '%s: %s' % (nm, n), goal, hy + list(hyps), steps)
            g = gross_of(want, v.total_fee_bps)
            p_('only what the pool can deliver is quoted', and_(ge(want, 0), ge(g, want), le(g, y)))
            p_('the fee quoted is that of the gross amount', eq(fee, tdiv(mul(g, v.total_fee_bps), 10000)))
            D = D_of(R, amp, scaled(x, prec(p, sold)), scaled(y, prec(p, bought)))
            X = scaled(sub(y, g), prec(p, bought))
            goals, hs, st = solves(p, newton, D, X, amp, prec(p, sold), add(x, dx), dx)
            p_('the balance after selling the offer solves the invariant to within the tolerance, rounded down', or_(*goals), hs, st)


def solves(p, newton, D, X, amp, digits, N, ret):
    """goals (one has to hold), lemma instances and steps for: N is a solution of the invariant D at the other balance X, in `digits` decimals"""
    b1 = sub(add(X, tdiv(mul(D, 100 * E18), mul(amp, 2 * E18))), D)
    c = tdiv(mul(mul(mul(D, D), D), 100 * E18), mul(mul(mul(X, 4), amp), 2 * E18))
    k = power(10, sub(18, digits))
    goals, hs, st = [], [], []
    for Y in balances(ret):
        f = sub(add(mul(Y, Y), mul(b1, Y)), c)
        goals.append(and_(eq(N, tdiv(Y, k)), le(f, TOL * TOL), gt(f, sub(0, add(mul(add(Y, TOL), 2), b1)))))
        for yp in {u for u in subterms([Y]) if u.op == 'app' and str(u.args[0]).startswith('L') and u.sort == INT}:
            hs.append(newton(yp, Y, b1, c))
            st += [eq(Y, tdiv(add(mul(yp, yp), c), add(mul(yp, 2), b1))), and_(le(sub(Y, yp), TOL), le(sub(yp, Y), TOL)),
                   gt(add(mul(yp, 2), b1), 0), and_(ge(yp, 0), ge(c, 0)), and_(le(f, TOL * TOL), gt(f, sub(0, add(mul(add(Y, TOL), 2), b1))))]
    return goals, hs, st


def newton_lemma(yp, Y, b1, c):
    f = sub(add(mul(Y, Y), mul(b1, Y)), c)
    den = add(mul(yp, 2), b1)
    return ([gt(den, 0), ge(yp, 0), ge(c, 0), eq(Y, tdiv(add(mul(yp, yp), c), den)), le(sub(Y, yp), TOL), le(sub(yp, Y), TOL)],
            and_(le(f, TOL * TOL), gt(f, sub(0, add(mul(add(Y, TOL), 2), b1)))))


def balances(ret):
    """the solver's results: numerators of divisions that come out of a loop"""
    out = []
    for u in subterms([ret]):
        if u.op == 'tdiv' and any(w.op == 'app' and str(w.args[0]).startswith('L') for w in subterms([u.args[0]])):
            out.append(u.args[0])
    return [u for u in out if u.op == 'tdiv' or u.op == 'app']


def invariant(ck, con, R):
    names = {str(u.args[0])[3:] for u in invariant_calls(R)}
    if len(names) != 1:
        raise Undecided('solver of the invariant not identified')
    name = names.pop()
    full = [n for n in R.X.contracts['*'].used if n.split('::')[-1] == name]
    if len(full) != 1:
        raise Undecided('function %s not found' % name)
    f = con.W.item(con.W.crate, full[0])
    X = ex.Exec(con.W, contracts={'*': loops.Pure(False)})
    st = ex.State()
    amp, a, b = app('amp', (), 'u128'), app('pool.a', (), 'u128'), app('pool.b', (), 'u128')
    args = []
    ints = [amp]
    for l in f.args:
        ty = f.locals[l]
        if 'Env' in ty:
            v = Opq('env')
        elif '[' in ty:
            v = Struct('array', {0: a, 1: b}, None, 2)
        else:
            v = ints.pop(0)
        args.append(ex.Ref(st.new_cell(v)) if ty.startswith('&') else v)
    ends = [e for e in X.run(f, args, st) if e.kind == 'return']
    if not ends:
        raise Undecided('the invariant solver never returns')
    S = add(a, b)
    for i, e in enumerate(ends):
        d = e.ret
        apps = {u for u in subterms([d] + e.st.pc) if u.op == 'app' and str(u.args[0]).startswith('L') and u.sort == INT}

        def step(L):
            out = [and_(eq(S, 0), eq(d, 0))]
            for dp in apps:
                P3 = tdiv(mul(mul(dp, dp), dp), mul(mul(a, 2), mul(b, 2)))
                nxt = tdiv(mul(add(mul(L, S), mul(P3, 2)), dp), add(mul(sub(L, 1), dp), mul(P3, 3)))
                out.append(and_(eq(d, nxt), le(sub(d, dp), TOL), le(sub(dp, d), TOL)))
            return or_(*out)
        A = tdiv(amp, 100)
        ck.ob('pool_stable.%s/%d: D solves the invariant for the amplification of the pool (leverage 2A)' % (name, i), e.st.pc, step(mul(A, 2)), cex_ok=False)
        ck.ob('pool_stable.%s/%d: D is a fixed point of the invariant for leverage 2A or 2A*10^18' % (name, i), e.st.pc,
              or_(step(mul(A, 2)), step(mul(A, 2 * E18))), cex_ok=False)


def C09(ck):
    con = ck.contract('pool_stable')
    with ck.guard('swap'):
        R = con.run('swap', **runopts('pool_stable'))
        ck.nonvacuous(R)
        swap_limits(ck, R, 'stable')
        dx, offer = R.args[2], R.args[1]
        below = ck.lemma('quotient bound', 3, lambda s, g, L: ([gt(g, 0), le(tdiv(s, g), L)], lt(s, mul(add(L, 1), g))))
        for p in R.paths:
            v = PoolView(p)
            lim = ite(given(R.args[4]), val(R.args[4]), v.max_allowed_spread_bps)
            for nm, h, x, y, x2, y2, sold, bought in swap_sides(v, offer):
                g = sub(0, p.flow(bought, SELF))
                ds, db = prec(p, sold), prec(p, bought)
                out = ite(lt(ds, db), mul(dx, power(10, sub(db, ds))), tdiv(dx, power(10, sub(ds, db))))
                S = ite(gt(out, g), sub(out, g), 0)
                ck.path(p, nm + ': the price impact is within the maximum spread', lt(mul(S, E18), mul(add(mul(lim, 10**14), 1), g)),
                        v.inv + [h, ne(v.fee_recipient, SELF), below(mul(S, E18), g, mul(lim, 10**14))],
                        steps=[gt(g, 0), le(tdiv(mul(S, E18), g), mul(lim, 10**14))])
    with ck.guard('deposit'):
        R = con.run('provide_liquidity', **runopts('pool_stable'))
        ck.nonvacuous(R)
        sender, da, db, slip, deadline, minsh = R.args
        for p in R.paths:
            v = PoolView(p)
            hy = v.inv + [ne(v.share_token, v.token_a), ne(v.share_token, v.token_b)]
            p_ = lambda n, goal, hyps=(), steps=(), **k: ck.path(p, n, goal, hy + list(hyps), steps, **k)
            p_('the depositor authorised it', p.auths(sender))
            p_('the deadline has not passed', deadline_kept(deadline))
            p_('positive amounts of both assets', and_(gt(da, 0), gt(db, 0)))
            p_('a slippage given is within the maximum', opt(slip, lambda s: le(s, v.max_allowed_slippage_bps)))
            for nm, tok, d in (('a', v.token_a, da), ('b', v.token_b, db)):
                p_('exactly the stated amount of %s is taken' % nm, and_(eq(p.flow(tok, SELF), d), eq(p.flow(tok, sender), sub(0, d))), [ne(sender, SELF)])
            p_('at least the minimum of shares is given', opt(minsh, lambda m: ge(p.flow(v.share_token, sender), m)))


def C10(ck):
    con = ck.contract('pool_stable')
    with ck.guard('deposit'):
        R = con.run('provide_liquidity', **runopts('pool_stable'))
        ck.nonvacuous(R)
        for p in R.paths:
            v = PoolView(p)
            sender, da, db = R.args[0], R.args[1], R.args[2]
            tdec = lambda t: app('tok.decimals', (t,), 'u32')
            amp = amp_now(p)
            hy = v.inv + [ne(v.share_token, v.token_a), ne(v.share_token, v.token_b), ne(sender, SELF)]
            minted = p.flow(v.share_token, sender)
            D1 = D_of(R, amp, scaled(add(v.ra, da), tdec(v.token_a)), scaled(add(v.rb, db), tdec(v.token_b)))
            p_ = lambda n, goal, hyps=(), steps=(), **k: ck.path(p, n, goal, hy + list(hyps), steps, **k)
            maxp = p.pre('instance', 'u32:6')[1]
            p_('the first deposit mints D in share units less 1000', eq(minted, sub(tdiv(D1, power(10, sub(18, maxp))), 1000)), [eq(v.ts, 0)])
            p_('the first deposit mints something', gt(minted, 0), [eq(v.ts, 0)])
            if any(len(u.args) == 4 for u in invariant_calls(R)):
                D0 = D_of(R, amp, scaled(v.ra, tdec(v.token_a)), scaled(v.rb, tdec(v.token_b)))
                p_('a later deposit mints total shares times the relative growth of D, rounded down at 18 digits',
                   eq(minted, tdiv(mul(v.ts, tdiv(mul(sub(D1, D0), E18), D0)), E18)), [ne(v.ts, 0)])
                grow = ck.lemma('proportional', 4, lambda ts, dd, d0, m: ([gt(d0, 0), ge(ts, 0), ge(dd, 0), eq(m, tdiv(mul(ts, tdiv(mul(dd, E18), d0)), E18))],
                                                                        le(mul(m, d0), mul(ts, dd))))
                p_('existing holders are not diluted in D', le(mul(minted, D0), mul(v.ts, sub(D1, D0))), [gt(v.ts, 0), grow(v.ts, sub(D1, D0), D0, minted)],
                   steps=[eq(minted, tdiv(mul(v.ts, tdiv(mul(sub(D1, D0), E18), D0)), E18)), and_(gt(D0, 0), ge(sub(D1, D0), 0))])
            p_('only the depositor gets shares', eq(p.supply(v.share_token), minted))

    def chk(con, e, R):
        if e == 'provide_liquidity':
            return
        for p in R.paths:
            v = PoolView(p)
            ck.path(p, 'mints no shares', and_(*[eq(t[4], 0) for t in p.events('mint')]))
    pool_frame(ck, 'pool_stable', chk)
