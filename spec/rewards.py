"""Contracts of the linear-distribution rewards contract (contracts/stake_rewards)."""
from vc.check import *
from vc.terms import *
from vc.values import *
from vc import exec as ex, loops as lp, models, smt
from spec.trader import changing_calls
from spec.curvefn import CurveFns

CFG = ('persistent', 'sym:CONFIG')
DIST = ('persistent', 'Distribution')
ADJ = ('persistent', 'WithdrawAdjustment')
CURVE = ('persistent', 'Curve')
ADMIN = ('persistent', 'u32:1')
TY = {'sym:CONFIG': 'storage::Config', 'Distribution': 'distribution::Distribution', 'WithdrawAdjustment': 'distribution::WithdrawAdjustment',
      'Curve': 'curve::Curve', 'u32:1': 'soroban_sdk::Address'}
DAY, ONE, SH = 86400, 10**18, 2**32
PER_POWER = 1000


def rd(p, loc, args=(), post=False):
    return (p.post if post else p.pre)(loc[0], loc[1], args, TY[loc[1]])


def keep(p, loc, n=0):
    return p.unchanged(loc[0], loc[1], n, TY[loc[1]])


def floor(x, d):
    return ite(lt(x, 0), sub(0, tdiv(add(sub(0, x), d - 1), d)), tdiv(x, d))


class Held:
    """holding time of a list of stakes: each counts for min(days, 60) sixtieths, weighted by its size"""

    def __init__(self, ck, W, stakes):
        self.W, self.v, self.n = W, stakes, stakes.len
        k = app('any.k', (), 'u32')
        s, d = self.at(k)
        # induction behind `bounds`
        ck.ob('holding time is at most the whole: one more stake', [le(0, self.w(k)), le(self.w(k), self.t(k)), ge(s, 0), ge(d, 0)],
              and_(le(0, self.wn(k)), le(self.wn(k), self.tn(k))))
        self.mb = ck.lemma('holding time at most one', 2, lambda a, b: ([ge(a, 0), le(a, b), gt(b, 0)], and_(ge(tdiv(mul(a, ONE), b), 0), le(tdiv(mul(a, ONE), b), ONE))))

    def w(self, k):
        return app('spec.weighted', (lift(k),))

    def t(self, k):
        return app('spec.weight', (lift(k),))

    def at(self, k):
        x = self.v.at(k)
        s, ts = field(self.W, x, 'stake'), field(self.W, x, 'stake_timestamp')
        return s, tdiv(sub(NOW, ts), DAY)

    def wn(self, k):
        s, d = self.at(k)
        return add(self.w(k), mul(ite(lt(d, 60), d, 60), s))

    def tn(self, k):
        return add(self.t(k), mul(60, self.at(k)[0]))

    def bounds(self):
        return and_(ge(self.w(self.n), 0), le(self.w(self.n), self.t(self.n)), self.mb(self.w(self.n), self.t(self.n)))

    def mult(self):
        return ite(gt(self.t(self.n), 0), tdiv(mul(self.w(self.n), ONE), self.t(self.n)), 0)

    # -- for the loop rule
    def spots(self, rec):
        return [get for n, get, kind in rec.leaves if kind == 'pos'] or [None]

    def facts(self, X, rec):
        out = [eq(self.w(0), 0), eq(self.t(0), 0)]
        for g in self.spots(rec):
            k = g(rec.gen) if g else rec.k
            gd = and_(ge(k, 0), lt(k, self.n))
            out += [(gd, self.w(add(k, 1)), self.wn(k)), (gd, self.t(add(k, 1)), self.tn(k))]
        return out

    def cands(self, X, rec):
        out = []
        for n, get, kind in rec.leaves:
            if kind != 'int':
                continue
            for g in self.spots(rec):
                w = (lambda s, k, g=g: k if g is None else g(s))
                for nm, f in (('weighted', self.w), ('weight', self.t)):
                    out.append(('spec %s is the %s so far' % (n, nm), lambda s, k, gh, get=get, w=w, f=f: eq(get(s), f(w(s, k)))))
        return out


def C18(ck):
    con = ck.contract('stake_rewards')
    W = con.W
    for e in sorted(con.entries):
        with ck.guard('stake_rewards.' + e):
            entry(ck, con, W, e)
    ck.assume_txt.append('amounts of the reward token handled stay below 2^96 (the limit documented in distribution.rs for its 32 fractional bits)')
    ck.assume_txt.append('stakes passed in by the staking contract are the recorded ones (not negative, not from the future)')


def entry(ck, con, W, e):
    cf = CurveFns()
    bi = {'add_user': 1, 'calculate_bond': 1, 'calculate_unbond': 1, 'withdraw_rewards': 1, 'query_withdrawable_reward': 1}.get(e)
    held, argv = None, None
    if bi is not None:
        tys = [t for t in con.param_types(e) if ex.lastseg(ex.base_type(t)) != 'Env']
        info = ex.sym(W, tys[bi], 'arg.%d' % bi)
        argv = {bi: info}
        held = Held(ck, W, field(W, info, 'stakes'))
        total = field(W, info, 'total_stake')
    R = con.run(e, loops=lp.AutoLoop(cands=[held.cands], facts=[held.facts]) if held else None, contracts={'*': cf}, argv=argv)
    ck.nonvacuous(R)
    A = R.args
    other, asset = app('any.user'), app('any.asset')
    for p in R.paths:
        hy = []
        if held:
            hy += [held.bounds(), eq(held.w(0), 0), eq(held.t(0), 0)]
        p_ = lambda n, goal, hyps=(), steps=(), **k: ck.path(p, n, goal, hy + list(hyps), steps, **k)
        h, cfg = rd(p, CFG)
        staking, tok = p.f(cfg, 'staking_contract'), p.f(cfg, 'reward_token')
        D0, D1 = rd(p, DIST, (tok,))[1], rd(p, DIST, (tok,), True)[1]
        F = lambda d, n: field(W, d, n)

        def adj(u, post=False):
            g, v = rd(p, ADJ, (u, tok), post)
            return ite(g, F(v, 'shares_correction'), 0), ite(g, F(v, 'withdrawn_rewards'), 0)

        def power(s):
            return ite(lt(s, p.f(cfg, 'min_bond')), 0, tdiv(s, PER_POWER))
        spp = F(D0, 'shares_per_point')

        def raw(u, s, post=False):
            c, w = adj(u, post)
            return sub(floor(add(mul(F(D1 if post else D0, 'shares_per_point'), power(s)), c), SH), w)
        mv = p.events('transfer', 'mint', 'burn')
        if e == 'initialize':
            c1 = rd(p, CFG, (), True)[1]
            p_('the staking contract, reward token and limits are those given', and_(*[eq(p.f(c1, n), a) for n, a in
               zip(('staking_contract', 'reward_token', 'max_complexity', 'min_reward', 'min_bond'), A[1:])], eq(rd(p, ADMIN, (), True)[1], A[0])))
            t1 = A[2]
            d = rd(p, DIST, (t1,), True)
            p_('nothing is distributed yet', and_(d[0], eq(F(d[1], 'distributed_total'), 0), eq(F(d[1], 'withdrawable_total'), 0), eq(F(d[1], 'shares_leftover'), 0), eq(F(d[1], 'shares_per_point'), 1)))
            cv = rd(p, CURVE, (t1,), True)
            p_('nothing is locked', and_(cv[0], tag_of(W, cv[1], 'Constant'), eq(cv[1].get('Constant', 0), 0)))
            p_('no credits or withdrawals are recorded', keep(p, ADJ, 2))
            p_('no token moves', p.moves_nothing())
            continue
        if e not in ('update',):
            p_('staking contract, reward token and limits stay', keep(p, CFG))
        p_('the admin stays', keep(p, ADMIN))
        if e.startswith('query') or e == 'update':
            if e == 'update':
                p_('the admin authorised it', p.auths(rd(p, ADMIN)[1]))
            for loc, n in ((DIST, 1), (ADJ, 2), (CURVE, 1)):
                p_('%s stays' % loc[1], keep(p, loc, n))
            p_('no token moves', p.moves_nothing())
            if e == 'query_withdrawable_reward':
                p_('reports the accrued reward less withdrawals, scaled by holding time', and_(eq(p.f(p.ret, 'reward_address'), tok),
                   eq(p.f(p.ret, 'reward_amount'), tdiv(mul(raw(A[0], total), held.mult()), ONE))))
            if e == 'query_distributed_reward':
                p_('reports what was distributed', eq(p.ret, F(rd(p, DIST, (A[0],))[1], 'distributed_total')))
            if e == 'query_undistributed_reward':
                p_('reports the balance less what can be withdrawn', eq(p.ret, sub(p.bal0(A[0], SELF), F(rd(p, DIST, (A[0],))[1], 'withdrawable_total'))))
            continue
        p_('the staking contract authorised it', and_(h, p.auths(staking)))
        p_('only the reward token is called', B(not changing_calls(p)))
        # nothing of other tokens or users changes
        d0, d1 = rd(p, DIST, (asset,)), rd(p, DIST, (asset,), True)
        p_('distributions of other tokens stay', and_(iff(d0[0], d1[0]), ex.veq(W, d0[1], d1[1])), [ne(asset, tok)])
        c0, c1 = rd(p, CURVE, (tok,)), rd(p, CURVE, (tok,), True)
        if e in ('distribute_rewards', 'fund_distribution'):
            p_('credits and withdrawals of all users stay', keep(p, ADJ, 2))
        else:
            user = A[0]
            p_('credits and withdrawals of other users stay', and_(*[eq(x, y) for x, y in zip(adj(other), adj(other, True))]), [ne(other, user)])
            p_('the locked amount stays', keep(p, CURVE, 1))
            p_('the points per share stay', eq(F(D0, 'shares_per_point'), F(D1, 'shares_per_point')))
            p_('the distributed total stays', and_(eq(F(D0, 'distributed_total'), F(D1, 'distributed_total')), eq(F(D0, 'shares_leftover'), F(D1, 'shares_leftover'))))
            (x0, w0), (x1, w1) = adj(user), adj(user, True)
            pay = tdiv(mul(raw(user, total), held.mult()), ONE)
            if e in ('add_user', 'calculate_bond'):
                p_('no token moves', p.moves_nothing())
                p_('what can be withdrawn in total stays', eq(F(D0, 'withdrawable_total'), F(D1, 'withdrawable_total')))
                p_('the withdrawn amount stays', eq(w1, w0))
            if e == 'add_user':
                p_('rewards distributed before are not credited', eq(add(mul(spp, power(total)), x1), x0))
            if e == 'calculate_bond':
                new = add(total, F(held.v.at(sub(held.n, 1)), 'stake'))
                p_('rewards accrued so far stay', eq(add(mul(spp, power(new)), x1), add(mul(spp, power(total)), x0)))
            if e == 'calculate_unbond':
                new = sub(total, A[2])
                p_('the user authorised it', p.auths(user))
                p_('rewards accrued so far stay', eq(add(mul(spp, power(new)), x1), add(mul(spp, power(total)), x0)))
            if e == 'withdraw_rewards':
                p_('credits stay', eq(x1, x0))
            if e in ('withdraw_rewards', 'calculate_unbond'):
                amt = add(0, *[t[4] for t in mv]) if mv else I(0)
                p_('the reported reward is paid', eq(amt, pay))
                p_('it is paid once, in the reward token, to the user', B(len(mv) <= 1) if not mv else and_(B(len(mv) == 1 and mv[0][0] == 'transfer'), eq(mv[0][1], tok), eq(mv[0][2], SELF), eq(mv[0][3], user)))
                p_('it is at most what was accrued', and_(le(amt, raw(user, total)), ge(amt, 0)), steps=[eq(amt, pay), and_(ge(held.mult(), 0), le(held.mult(), ONE)), ge(raw(user, total), 0)])
                p_('it is recorded as withdrawn', eq(w1, add(w0, amt)))
                p_('what can be withdrawn in total falls by it', eq(F(D1, 'withdrawable_total'), sub(F(D0, 'withdrawable_total'), amt)))
            if e == 'withdraw_rewards':
                left = tdiv(mul(raw(user, total, True), held.mult()), ONE)
                p_('nothing further can be withdrawn (stakes held for the full time)', eq(left, 0), [eq(held.mult(), ONE)], steps=[eq(pay, raw(user, total)), eq(raw(user, total, True), 0)])
                if mv:
                    p_('nothing further can be withdrawn (stakes held for a shorter time)', eq(left, 0), [lt(held.mult(), ONE)])
        if e == 'distribute_rewards':
            P_ = power(A[0])
            locked = cf.value(W, c0[1], NOW)
            amount = ite(eq(P_, 0), 0, sub(sub(p.bal0(tok, SELF), F(D0, 'withdrawable_total')), locked))
            pts = add(mul(amount, SH), F(D0, 'shares_leftover'))
            small = [lt(amount, 2**96)]
            p_('no token moves', p.moves_nothing())
            p_('the locked amount stays', keep(p, CURVE, 1))
            p_('what is distributed is not negative', ge(amount, 0), steps=[ge(P_, 0)])
            p_('the distributed total grows by what is neither withdrawable nor locked', eq(F(D1, 'distributed_total'), add(F(D0, 'distributed_total'), amount)))
            p_('what can be withdrawn grows by the same', eq(F(D1, 'withdrawable_total'), add(F(D0, 'withdrawable_total'), amount)))
            grow = sub(F(D1, 'shares_per_point'), spp)
            p_('each unit of power is credited its share', eq(grow, ite(eq(amount, 0), 0, tdiv(pts, P_))), small)
            rest = eq(F(D1, 'shares_leftover'), ite(eq(amount, 0), F(D0, 'shares_leftover'), trem(pts, P_)))
            rem = ck.lemma('remainder in range', 2, lambda a, b: ([ge(a, 0), gt(b, 0)], and_(ge(trem(a, b), 0), lt(trem(a, b), b))))
            p_('the remainder is kept', rest, small + [lt(P_, 2**64), rem(pts, P_)], steps=[ge(amount, 0)] + fits(rest))
            p_('no more points are credited than were distributed', le(mul(grow, P_), pts), small + [ge(amount, 0)], steps=[eq(grow, ite(eq(amount, 0), 0, tdiv(pts, P_)))])
        if e == 'fund_distribution':
            start, dur, amt = A
            adm = rd(p, ADMIN)[1]
            p_('the admin authorised it', p.auths(adm))
            p_('distributed and withdrawable totals and points stay', keep(p, DIST, 1))
            p_('exactly the funded amount comes from the admin', and_(B(len(mv) == 1 and mv[0][0] == 'transfer'), *[and_(eq(t[1], tok), eq(t[2], adm), eq(t[3], SELF), eq(t[4], amt)) for t in mv]))
            p_('it is at least the minimum and starts not in the past', and_(ge(amt, p.f(cfg, 'min_reward')), ge(start, NOW)))
            k0, k1 = rd(p, CURVE, (asset,)), rd(p, CURVE, (asset,), True)
            p_('the locked amounts of other tokens stay', and_(iff(k0[0], k1[0]), ex.veq(W, k0[1], k1[1])), [ne(asset, tok)])
            new = Enum(c0[1].ty, I(1), {('SaturatingLinear', 0): mk(W, c0[1], start, amt, add(NOW, dur), I(0))})
            old = c0[1]
            sl, pl = old.get('SaturatingLinear', 0), old.get('PiecewiseLinear', 0)
            steps = field(W, pl, 'steps')
            ended = or_(and_(tag_of(W, old, 'SaturatingLinear'), lt(field(W, sl, 'max_x'), NOW)),
                        and_(tag_of(W, old, 'PiecewiseLinear'), gt(steps.len, 0), lt(field(W, steps.at(sub(steps.len, 1)), 'time'), NOW)))
            both = cf.combine(W, old.ty, old, new)
            p_('the funded amount is locked on top of what was locked, released evenly until the end', and_(c1[0], or_(ex.veq(W, c1[1], both), and_(ended, ex.veq(W, c1[1], new)))))


def fits(goal):
    """steps: conversions in the goal lose nothing"""
    ws = sorted([u for u in subterms([goal]) if u.op == 'wrap'], key=lambda u: len(subterms([u])))
    out, mp = [], {}
    for w in ws:
        out.append(eq(w, w.args[0]))
        mp2 = subst(w.args[0], mp)
        if mp2 is not w.args[0]:
            out.append(eq(w, mp2))
        mp[w] = mp2
    return out + ([subst(goal, mp)] if mp else [])


def mk(W, like, *vals):
    d = W.typedef(like.ty)
    for vn, dd, fl in d[1]:
        if vn == 'SaturatingLinear':
            ty = ex.qual(W, like.ty, fl[0][1])
            return Struct(ty, dict(enumerate(vals)), None, len(vals))
    raise Undecided('no linear curves')
