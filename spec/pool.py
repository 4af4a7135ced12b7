"""Contracts of the two liquidity pools (contracts/pool, contracts/pool_stable)."""
import re
from vc.check import *
from vc.terms import *
from vc.values import *

CFG = {'pool': ('persistent', 'sym:CONFIG'), 'pool_stable': ('persistent', 'sym:CONFIG')}
U = {'TotalShares': 'u32:0', 'ReserveA': 'u32:1', 'ReserveB': 'u32:2', 'Admin': 'u32:3', 'Initialized': 'u32:4'}


class PoolView:
    """names for what a pool call observes"""

    def __init__(self, p):
        self.p, W = p, p.W
        self.has_cfg, self.cfg = p.pre('persistent', 'sym:CONFIG', (), 'storage::Config')
        for n in ('token_a', 'token_b', 'share_token', 'stake_contract', 'total_fee_bps', 'fee_recipient',
                  'max_allowed_slippage_bps', 'max_allowed_spread_bps', 'max_referral_bps'):
            if n == 'max_referral_bps' and p.run.con.key != 'pool':
                continue
            setattr(self, n, p.f(self.cfg, n))
        self.ra, self.rb = self.i('ReserveA'), self.i('ReserveB')
        self.ts = self.i('TotalShares')
        self.ra2, self.rb2 = self.i2('ReserveA'), self.i2('ReserveB')
        self.ts2 = self.i2('TotalShares')
        # contract invariant: established by initialize and kept by every entry (proved in C03/C06/C11)
        self.inv = [ne(self.token_a, self.token_b), ge(self.ra, 0), ge(self.rb, 0), ge(self.ts, 0),
                    le(0, self.total_fee_bps), le(self.total_fee_bps, 10000),
                    le(0, self.max_allowed_slippage_bps), le(self.max_allowed_slippage_bps, 10000),
                    le(0, self.max_allowed_spread_bps), le(self.max_allowed_spread_bps, 10000)]

    def i(self, n):
        return self.p.pre('persistent', U[n], (), 'i128')[1]

    def i2(self, n):
        return self.p.post('persistent', U[n], (), 'i128')[1]


def optv(p, v, default):
    """Option value: (is_some, payload)"""
    return eq(v.discr, 1), v.get('Some', 0)


def swap_sides(v, offer):
    """two cases: (name, hypothesis, x, y, x', y', bought token)"""
    return [('sell a', eq(offer, v.token_a), v.ra, v.rb, v.ra2, v.rb2, v.token_a, v.token_b),
            ('sell b', eq(offer, v.token_b), v.rb, v.ra, v.rb2, v.ra2, v.token_b, v.token_a)]


def C01(ck):
    con = ck.contract('pool')
    R = con.run('swap')
    ck.nonvacuous(R)
    sender, offer, dx = R.args[0], R.args[1], R.args[2]
    for p in R.paths:
        v = PoolView(p)
        r = p.ret
        for nm, h, x, y, x2, y2, sold, bought in swap_sides(v, offer):
            hy = v.inv + [h]
            # people apart: fee recipient, seller and pool are three parties
            apart = [ne(sender, v.fee_recipient), ne(v.fee_recipient, SELF)]
            F = p.flow(bought, v.fee_recipient)
            Rx = p.flow(bought, sender)
            g = sub(0, p.flow(bought, SELF))
            p_ = lambda n, goal, hyps=(), steps=(): ck.path(p, '%s: %s' % (nm, n), goal, hy + apart + list(hyps), steps)
            p_('the curve amount leaving the pool is what seller and fee recipient get', eq(g, add(Rx, F)))
            p_('trader receives the reported amount', eq(Rx, r))
            p_('gross is not below the exact answer', ge(mul(g, add(x, dx)), mul(y, dx)))
            p_('gross is less than one unit above the exact answer', lt(mul(g, add(x, dx)), add(mul(y, dx), add(x, dx))))
            p_('gross is not above the spot price', le(mul(g, x), mul(dx, y)))
            p_('gross does not exceed the reserve', and_(le(g, y), ge(g, 0)))
            p_('fee is the floor of gross times the fee rate', eq(F, tdiv(mul(g, v.total_fee_bps), 10000)))
            # also when parties coincide
            ck.path(p, '%s: pool pays out exactly the reported amount plus the fee' % nm,
                    eq(g, add(r, tdiv(mul(g, v.total_fee_bps), 10000))), hy + [ne(v.fee_recipient, SELF)])



POOLS = ('pool', 'pool_stable')
E18 = 10**18


def deadline_kept(a):
    return opt(a, lambda d: le(NOW, d))


def C02(ck):
    con = ck.contract('pool')
    R = con.run('swap')
    ck.nonvacuous(R)
    swap_limits(ck, R, 'max')


def swap_limits(ck, R, kind):
    sender, offer, dx, ask_min, max_spread, deadline, max_fee = R.args
    for p in R.paths:
        v = PoolView(p)
        p_ = lambda n, goal, hyps=(), steps=(): ck.path(p, n, goal, v.inv + list(hyps), steps)
        p_('the seller authorised the swap', p.auths(sender))
        p_('the offer is positive', gt(dx, 0))
        p_('the offer is in a pool asset', or_(eq(offer, v.token_a), eq(offer, v.token_b)))
        p_('the deadline has not passed', deadline_kept(deadline))
        p_('the fee is within the fee cap', opt(max_fee, lambda f: ge(f, v.total_fee_bps)))
        p_('at least the minimum is received', opt(ask_min, lambda m: ge(p.ret, m)))
        p_('the spread asked for is within the bounds of the pool',
           opt(max_spread, lambda s: and_(ge(s, 0), le(s, v.max_allowed_spread_bps))))
        lim = ite(given(max_spread), val(max_spread), v.max_allowed_spread_bps)
        for nm, h, x, y, x2, y2, sold, bought in swap_sides(v, offer):
            g = sub(0, p.flow(bought, SELF))
            Rx = p.flow(bought, sender)
            apart = [ne(v.fee_recipient, SELF)]
            p_(nm + ': what the seller receives is at least the minimum', opt(ask_min, lambda m: ge(Rx, m)),
               apart + [h, ne(sender, v.fee_recipient)])
            p_(nm + ': exactly the offer is taken', and_(eq(p.flow(sold, SELF), dx), eq(p.flow(sold, sender), sub(0, dx))), [h])
            if kind == 'max':
                S = sub(tdiv(mul(dx, y), x), g)
            else:
                continue
            below = ck.lemma('quotient bound', 3, lambda s, g, L: ([gt(g, 0), le(tdiv(s, g), L)], lt(s, mul(add(L, 1), g))))
            p_(nm + ': the price impact is within the maximum spread',
               lt(mul(S, E18), mul(add(mul(lim, 10**14), 1), g)), apart + [h, below(mul(S, E18), g, mul(lim, 10**14))],
               steps=[gt(g, 0), le(tdiv(mul(S, E18), g), mul(lim, 10**14))], )


def pool_frame(ck, key, f):
    """contract of every entry: which may touch reserves, shares and tokens, and by exactly how much"""
    con = ck.contract(key)
    for e in sorted(con.entries):
        with ck.guard('%s.%s' % (key, e)):
            f(con, e, con.run(e, **runopts(key)))


def runopts(key, abstract=True):
    from vc import loops
    return {'contracts': {'*': loops.Pure(abstract)}, 'pre': amp_settled} if key == 'pool_stable' else {}


def amp_settled(r):
    """contract invariant of the stable pool: the amplification does not ramp: it is set at initialisation with both times
    at that moment and written by no other entry (proved in C11)"""
    if r.entry == 'initialize':
        return []
    h, a = r.pre('instance', 'u32:5', (), 'storage::AmplifierParameters')
    return [le(field(r.W, a, 'next_amp_time'), NOW), eq(field(r.W, a, 'init_amp'), field(r.W, a, 'next_amp'))]


def C03(ck):
    for key in POOLS:
        def chk(con, e, R):
            for p in R.paths:
                v = PoolView(p)
                if e == 'initialize':
                    ck.path(p, 'reserves start at zero', and_(eq(v.ra2, 0), eq(v.rb2, 0)))
                    ck.path(p, 'no token moves', p.moves_nothing())
                    ck.path(p, 'two different tokens are recorded', ne(p.f(p.post('persistent', 'sym:CONFIG')[1], 'token_a'), p.f(p.post('persistent', 'sym:CONFIG')[1], 'token_b')))
                    continue
                if e in ('swap', 'withdraw_liquidity', 'provide_liquidity'):
                    hy = v.inv + [ne(v.fee_recipient, SELF), ne(v.share_token, v.token_a), ne(v.share_token, v.token_b)]
                    for nm, tok, r, r2 in (('a', v.token_a, v.ra, v.ra2), ('b', v.token_b, v.rb, v.rb2)):
                        d = p.flow(tok, SELF)
                        if e == 'provide_liquidity':
                            # a deposit also counts in tokens sent to the pool directly before
                            hy2 = hy + [le(r, p.bal0(tok, SELF))]
                            ck.path(p, 'reserve %s is the pool balance after the deposit' % nm, eq(r2, add(p.bal0(tok, SELF), d)), hy)
                            ck.path(p, 'reserve %s grows by what came in when nothing was sent directly' % nm,
                                    eq(sub(r2, r), d), hy + [eq(r, p.bal0(tok, SELF))])
                            ck.path(p, 'the deposit of %s comes from the depositor' % nm,
                                    and_(ge(d, 0), eq(p.flow(tok, R.args[0]), sub(0, d))), hy)
                        else:
                            hy2 = hy + [le(r, p.bal0(tok, SELF)), le(p.bal0(v.share_token, R.args[0]), v.ts)]
                            ck.path(p, 'reserve %s changes by the tokens moved' % nm, eq(sub(r2, r), d), hy)
                        ck.path(p, 'reserve %s stays covered by the balance' % nm, le(r2, p.bal(tok, SELF)), hy2)
                        ck.path(p, 'reserve %s stays non-negative' % nm, ge(r2, 0), hy2)
                    t = tvar('other')
                    ck.path(p, 'no other token moves', p.moves_nothing(t),
                            hy + [ne(t, v.token_a), ne(t, v.token_b), ne(t, v.share_token)])
                    continue
                ck.path(p, 'reserves are unchanged', and_(p.unchanged('persistent', U['ReserveA']), p.unchanged('persistent', U['ReserveB'])))
                ck.path(p, 'no token moves', p.moves_nothing())
                ck.path(p, 'the pool tokens stay configured', same_fields(p, ['token_a', 'token_b', 'share_token', 'stake_contract']))
        pool_frame(ck, key, chk)


def tvar(n):
    return app('any.' + n)


def same_fields(p, names):
    if ('persistent', 'sym:CONFIG') not in p.st.store and ('instance', 'sym:CONFIG') not in p.st.store:
        return TRUE
    h, c0 = p.pre('persistent', 'sym:CONFIG')
    h2, c1 = p.post('persistent', 'sym:CONFIG')
    return and_(*[eq(p.f(c0, n), p.f(c1, n)) for n in names], h2)


def C04(ck):
    con = ck.contract('pool')
    R = con.run('provide_liquidity')
    ck.nonvacuous(R)
    sender, des_a, min_a, des_b, min_b, slip, deadline = R.args
    for p in R.paths:
        v = PoolView(p)
        hy = v.inv + [ne(v.share_token, v.token_a), ne(v.share_token, v.token_b), ne(sender, SELF),
                      le(v.ra, p.bal0(v.token_a, SELF)), le(v.rb, p.bal0(v.token_b, SELF))]
        p_ = lambda n, goal, hyps=(), steps=(), **k: ck.path(p, n, goal, hy + list(hyps), steps, **k)
        A, B = p.flow(v.token_a, SELF), p.flow(v.token_b, SELF)
        has = or_(gt(v.ra, 0), gt(v.rb, 0))
        p_('the depositor authorised it', p.auths(sender))
        p_('the deadline has not passed', deadline_kept(deadline))
        p_('a slippage given is within the maximum', opt(slip, lambda s: le(s, v.max_allowed_slippage_bps)))
        for nm, X, des, mn, tok in (('a', A, des_a, min_a, v.token_a), ('b', B, des_b, min_b, v.token_b)):
            p_('%s: a positive amount was desired' % nm, and_(given(des), gt(val(des), 0)))
            p_('%s: not more than desired is taken' % nm, and_(ge(X, 0), le(X, val(des))))
            p_('%s: not less than the minimum is taken' % nm, opt(mn, lambda m: ge(X, m)), [has])
            p_('%s: it is the depositor who pays' % nm, eq(p.flow(tok, sender), sub(0, X)))
            p_('%s: the first deposit is taken as desired' % nm, eq(X, val(des)), [not_(has)])
        # off the pool's ratio the smaller side is taken, and never when the desired amounts miss the ratio by more than the tolerance
        some = [gt(v.ra, 0), gt(v.rb, 0)]
        tol = ite(given(slip), val(slip), default_slippage(p))
        for nm, X, des, oth, r, q in (('a', A, val(des_a), val(des_b), v.ra, v.rb), ('b', B, val(des_b), val(des_a), v.rb, v.ra)):
            fit = tdiv(mul(oth, r), q)
            p_('%s: the pool ratio decides what is taken, up to the amount desired' % nm, eq(X, ite(gt(fit, des), des, fit)), some)
            p_('%s: the desired amounts are within the slippage tolerance of the pool ratio' % nm,
               le(tdiv(mul(fit, E18), des), add(E18, mul(tol, 10**14))), some + [gt(fit, des)])
        minted = p.flow(v.share_token, sender)
        p_('shares minted are not negative', ge(minted, 0))
        p_('total shares grow by what is minted', eq(sub(v.ts2, v.ts), p.supply(v.share_token)))
        for nm, r, r2, X in (('a', v.ra, v.ra2, A), ('b', v.rb, v.rb2, B)):
            p_('%s: each share is backed by at least as much as before' % nm, ge(mul(r2, v.ts), mul(r, v.ts2)), [gt(v.ra, 0), gt(v.rb, 0)])
            p_('%s: only the depositor gets new shares' % nm, eq(minted, sub(v.ts2, v.ts)), [gt(v.ra, 0), gt(v.rb, 0)])
        k = mul(A, B)
        first = [eq(v.ra, 0), eq(v.rb, 0), eq(v.ts, 0)]
        p_('the first deposit is worth more than 1000 shares', ge(k, 1001 * 1001), first)
        p_('the first deposit locks 1000 shares in the pool', eq(p.flow(v.share_token, SELF), 1000), first)
        p_('the first deposit gives the root of the product in total',
           and_(le(mul(v.ts2, v.ts2), k), gt(mul(add(v.ts2, 1), add(v.ts2, 1)), k)), first)


def default_slippage(p):
    return p.pre('persistent', 'sym:DSLIPBPS', (), 'i64')[1]


def C05(ck):
    for key in POOLS:
        con = ck.contract(key)
        with ck.guard(key + '.withdraw_liquidity'):
            withdraw_contract(ck, con)


def withdraw_contract(ck, con):
    R = con.run('withdraw_liquidity')
    ck.nonvacuous(R)
    sender, sh, min_a, min_b, deadline = R.args
    for p in R.paths:
        v = PoolView(p)
        hy = v.inv + [ne(v.share_token, v.token_a), ne(v.share_token, v.token_b), ne(sender, SELF)]
        p_ = lambda n, goal, hyps=(), steps=(), **k: ck.path(p, n, goal, hy + list(hyps), steps, **k)
        p_('the owner authorised it', p.auths(sender))
        p_('the deadline has not passed', deadline_kept(deadline))
        p_('the share amount is positive', gt(sh, 0))
        p_('exactly the stated shares leave the owner', eq(p.flow(v.share_token, sender), sub(0, sh)))
        p_('exactly the stated shares are burned', eq(p.supply(v.share_token), sub(0, sh)))
        p_('the pool keeps no shares', eq(p.flow(v.share_token, SELF), 0))
        p_('total shares fall by the shares burned', eq(v.ts2, sub(v.ts, sh)))
        oa, ob_ = p.ret.get(0), p.ret.get(1)
        for nm, tok, r, out, mn in (('a', v.token_a, v.ra, oa, min_a), ('b', v.token_b, v.rb, ob_, min_b)):
            p_('%s: the amount paid is the amount reported' % nm, and_(eq(p.flow(tok, sender), out), eq(p.flow(tok, SELF), sub(0, out))))
            p_('%s: at least the minimum is paid' % nm, and_(ge(out, mn), gt(mn, 0)))
            p_('%s: at most the pro-rata share is paid' % nm, le(mul(out, v.ts), mul(r, sh)))
            p_('%s: the payment misses the share by less than a unit and one part in 10^18' % nm,
               lt(mul(sub(mul(r, sh), mul(out, v.ts)), E18), add(mul(v.ts, E18), mul(r, v.ts))))


def C06(ck):
    for key in POOLS:
        def chk(con, e, R):
            for p in R.paths:
                v = PoolView(p)
                if e == 'initialize':
                    ck.path(p, 'total shares start at zero', eq(v.ts2, 0))
                    ck.path(p, 'nothing is minted or burned', p.moves_nothing())
                elif e in ('provide_liquidity', 'withdraw_liquidity'):
                    hy = v.inv + [ne(v.share_token, v.token_a), ne(v.share_token, v.token_b)]
                    ck.path(p, 'total shares change by the LP tokens minted less burned', eq(sub(v.ts2, v.ts), p.supply(v.share_token)), hy)
                    ck.path(p, 'total shares stay non-negative', ge(v.ts2, 0), hy + [le(p.bal0(v.share_token, R.args[0]), v.ts)])
                else:
                    ck.path(p, 'total shares are unchanged', p.unchanged('persistent', U['TotalShares']))
                    ck.path(p, 'nothing is minted or burned', and_(*[eq(t[4], 0) for t in p.events('mint', 'burn')]))
        pool_frame(ck, key, chk)



def sig(R):
    return [a for a in R.args]


def C07(ck):
    for key in POOLS:
        con = ck.contract(key)
        with ck.guard(key + ': quote and swap'):
            quote_contract(ck, con)
        with ck.guard(key + ': share quote'):
            share_quote_contract(ck, con)
        with ck.guard(key + ': reverse quote'):
            if key == 'pool':
                reverse_quote_contract(ck, con)
            else:
                from spec import stable
                stable.reverse_quote_contract(ck, con)

        def chk(con, e, R):
            if READER.match(e):
                for p in R.paths:
                    ck.path(p, 'a query changes nothing', p.no_state_change())
        pool_frame(ck, key, chk)


READER = re.compile(r'^(query_|simulate_)')


def quote_contract(ck, con):
    S = con.run('swap', **runopts(con.key))
    Q = con.run('simulate_swap', argv={0: S.args[1], 1: S.args[2]}, tag='as swap', **runopts(con.key))
    ck.nonvacuous(S)
    ck.nonvacuous(Q)
    offer, dx = S.args[1], S.args[2]
    for q in Q.paths:
        f = lambda n: q.f(q.ret, n)
        ck.path(q, 'the total is the sum of its parts', eq(f('total_return'), add(add(f('ask_amount'), f('commission_amount')), f('spread_amount'))))
    for p in S.paths:
        v = PoolView(p)
        lim = ite(given(S.args[4]), val(S.args[4]), v.max_allowed_spread_bps)
        ck.path(p, 'whenever a swap completes the quote exists', or_(*[and_(*q.pc) for q in Q.paths]), v.inv + [le(v.ra, 2**126), le(v.rb, 2**126)])
        for q in Q.paths:
            f = lambda n: q.f(q.ret, n)
            for nm, h, x, y, x2, y2, sold, bought in swap_sides(v, offer):
                hy = v.inv + q.pc + [h, ne(v.fee_recipient, SELF)]
                nm = '%s: %s' % (q.name, nm)
                ck.path(p, nm + ': the amount quoted is the amount paid', and_(eq(f('ask_amount'), p.ret)), hy)
                ck.path(p, nm + ': the amount quoted is the amount the seller receives', and_(eq(f('ask_amount'), p.flow(bought, S.args[0]))), hy + [ne(S.args[0], v.fee_recipient)])
                ck.path(p, nm + ': the fee quoted is the fee taken', eq(f('commission_amount'), p.flow(bought, v.fee_recipient)), hy + [ne(S.args[0], v.fee_recipient)])
                g = add(f('ask_amount'), f('commission_amount'))
                ck.path(p, nm + ': the price impact quoted is the one the spread limit is applied to',
                        le(tdiv(mul(f('spread_amount'), E18), g), mul(lim, 10**14)), hy)
                if con.key == 'pool':
                    ck.path(p, nm + ': the price impact is the loss against the spot price', eq(f('spread_amount'), sub(tdiv(mul(dx, y), x), g)), hy)


def gross_of(ask, fee):
    """what has to leave the curve so that `ask` is left after the fee: ask / (1 - fee), the inverse cut to 18 digits"""
    return tdiv(mul(ask, tdiv(I(E18 * E18), sub(E18, mul(fee, 10**14)))), E18)


def reverse_quote_contract(ck, con):
    """the amount to sell for an amount to receive: the largest the curve answers with not more than the gross amount asked for"""
    R = con.run('simulate_reverse_swap')
    ck.nonvacuous(R)
    asked, want = R.args
    for p in R.paths:
        v = PoolView(p)
        f = lambda n: p.f(p.ret, n)
        dx, fee = f('offer_amount'), f('commission_amount')
        ck.path(p, 'the asset is one of the pool', or_(eq(asked, v.token_a), eq(asked, v.token_b)), v.inv)
        for nm, h, x, y in (('buy b', eq(asked, v.token_b), v.ra, v.rb), ('buy a', eq(asked, v.token_a), v.rb, v.ra)):
            g = gross_of(want, v.total_fee_bps)
            p_ = lambda n, goal, hyps=(): ck.path(p, '%s: %s' % (nm, n), goal, v.inv + [h] + list(hyps))
            p_('only what the pool can deliver is quoted', and_(ge(want, 0), ge(g, want), lt(g, y)))
            ok = [ge(g, 0), lt(g, y)]
            p_('the offer quoted does not buy more than the gross amount', le(mul(add(x, dx), sub(y, g)), mul(x, y)), ok)
            p_('one unit more would buy more', gt(mul(add(add(x, dx), 1), sub(y, g)), mul(x, y)), ok)
            p_('the fee quoted is that of the gross amount', eq(fee, tdiv(mul(g, v.total_fee_bps), 10000)), ok)
            p_('the price impact quoted is the loss against the spot price', eq(f('spread_amount'), sub(tdiv(mul(dx, y), x), g)), ok)


def share_quote_contract(ck, con):
    W_ = con.run('withdraw_liquidity', **runopts(con.key))
    Q = con.run('query_share', argv={0: W_.args[1]}, tag='as withdraw', **runopts(con.key))
    ck.nonvacuous(W_)
    ck.nonvacuous(Q)
    for p in W_.paths:
        v = PoolView(p)
        hy0 = v.inv + [ne(v.share_token, v.token_a), ne(v.share_token, v.token_b)]
        ck.path(p, 'whenever a withdrawal completes the quote exists', or_(*[and_(*q.pc) for q in Q.paths]), hy0)
        for q in Q.paths:
            for i, nm, tok in ((0, 'a', v.token_a), (1, 'b', v.token_b)):
                a = q.ret.get(i)
                ck.path(p, '%s: %s: the quote names the token and the amount paid' % (q.name, nm),
                        and_(eq(q.f(a, 'address'), tok), eq(q.f(a, 'amount'), p.ret.get(i))), hy0 + q.pc)
