"""Contracts of the staking contract (contracts/stake)."""
from vc.check import *
from vc.terms import *
from vc.values import *
from vc import exec as ex, loops as lp, models, smt
from spec.trader import changing_calls, same
from spec.factory import member

ADDR = 'soroban_sdk::Address'
CONFIG = ('persistent', 'sym:CONFIG')
USER = ('persistent', 'val')
TOTAL = ('persistent', 'u32:1')
ASSETS = ('persistent', 'u32:2')
HIST = ('persistent', 'RewardHistory')
TOTALS = ('persistent', 'TotalStakedHistory')
TY = {'sym:CONFIG': 'storage::Config', 'val': 'storage::BondingInfo', 'u32:1': 'i128', 'u32:2': 'soroban_sdk::Vec<soroban_sdk::Address>',
      'RewardHistory': 'soroban_sdk::Map<u64, u128>', 'TotalStakedHistory': 'soroban_sdk::Map<u64, u128>'}
WHO = app('any.user')


def rd(p, loc, args=(), post=False):
    return (p.post if post else p.pre)(loc[0], loc[1], args, TY[loc[1]])


def keep(p, loc, n=0):
    return p.unchanged(loc[0], loc[1], n, TY[loc[1]])


def total_of(W, v):
    """sum of the stakes in a list, by how the list was made"""
    if v.items is not None:
        return add(0, *[field(W, x, 'stake') for x in v.items]) if v.items else I(0)
    t = v.tag
    if t is None:
        raise Undecided('sum of a list of unknown origin')
    if t[0] == 'push':
        return add(total_of(W, t[1]), field(W, t[2], 'stake'))
    if t[0] == 'remove':
        return sub(total_of(W, t[1]), field(W, t[1].at(t[2]), 'stake'))
    if t[0] == 'set':
        return add(sub(total_of(W, t[1]), field(W, t[1].at(t[2]), 'stake')), field(W, t[3], 'stake'))
    if t[0] == 'ite':
        return ite(t[1], total_of(W, t[2]), total_of(W, t[3]))
    if t[0] == 'append':
        return add(total_of(W, t[1]), total_of(W, t[2]))
    return app('sum.' + t[1], tuple(t[2]))


class User:
    """what is recorded for a user; nothing recorded counts as no stakes and never claimed"""

    def __init__(self, p, who, post=False):
        h, v = rd(p, USER, (who,), post)
        self.has, self.v, self.W = h, v, p.W
        s = field(p.W, v, 'stakes')
        self.stakes = s
        self.n = ite(h, s.len, 0)
        self.at = s.at
        self.total = ite(h, field(p.W, v, 'total_stake'), 0)
        self.last = ite(h, field(p.W, v, 'last_reward_time'), 0)

    def sum(self):
        return ite(self.has, total_of(self.W, self.stakes), 0)


def same_stake(W, a, b):
    return and_(eq(field(W, a, 'stake'), field(W, b, 'stake')), eq(field(W, a, 'stake_timestamp'), field(W, b, 'stake_timestamp')))


def C15(ck):
    con = ck.contract('stake')
    W = con.W
    i = app('any.index', (), 'u32')
    for e in sorted(con.entries):
        with ck.guard('stake.' + e):
            R = con.run(e)
            ck.nonvacuous(R)
            A = R.args
            for p in R.paths:
                p_ = lambda n, goal, hyps=(), steps=(), **k: ck.path(p, n, goal, list(hyps), steps, **k)
                u, v = User(p, WHO), User(p, WHO, True)
                t0, t1 = rd(p, TOTAL)[1], rd(p, TOTAL, (), True)[1]
                lp_tok = p.f(rd(p, CONFIG)[1], 'lp_token')
                p_("a user's recorded total is the sum of the user's stakes", eq(v.total, v.sum()), [eq(u.total, u.sum())])
                others = and_(eq(v.n, u.n), eq(v.total, u.total), implies(and_(le(0, i), lt(i, u.n)), same_stake(W, v.at(i), u.at(i))))
                if e not in ('bond', 'unbond'):
                    p_('no stake changes', others)
                    if e != 'initialize':
                        p_('the contract-wide total stays', keep(p, TOTAL))
                        p_('the LP token and the minimum bond stay', keep(p, CONFIG))
                    else:
                        cfg = rd(p, CONFIG, (), True)[1]
                        p_('the contract-wide total starts at zero', and_(rd(p, TOTAL, (), True)[0], eq(t1, 0)))
                        p_('the LP token and the minimum bond are those given', and_(eq(p.f(cfg, 'lp_token'), A[1]), eq(p.f(cfg, 'min_bond'), A[2]), gt(A[2], 0)))
                    if e not in ('withdraw_rewards', 'distribute_rewards'):
                        p_('no token moves', p.moves_nothing())
                    continue
                sender, amt = A[0], A[1]
                p_('the staker authorised it', p.auths(sender))
                p_('the stakes of other users stay', others, [ne(WHO, sender)])
                p_('the LP token and the minimum bond stay', keep(p, CONFIG))
                a, b = User(p, sender), User(p, sender, True)
                mv = p.events('transfer', 'mint', 'burn')
                p_('exactly one token movement', B(len(mv) == 1))
                p_('the reward history stays', and_(keep(p, HIST, 1), keep(p, TOTALS)))
                p_('the time of the last claim stays', eq(b.last, a.last))
                if e == 'bond':
                    p_('at least the minimum bond', ge(amt, p.f(rd(p, CONFIG)[1], 'min_bond')))
                    for t in mv:
                        p_('exactly the stated LP tokens come from the staker', and_(B(t[0] == 'transfer'), eq(t[1], lp_tok), eq(t[2], sender), eq(t[3], SELF), eq(t[4], amt)))
                    p_('one stake is added', and_(b.has, eq(b.n, add(a.n, 1))))
                    p_('it has the stated amount and the current time', and_(eq(W_(W, b.at(a.n), 'stake'), amt), eq(W_(W, b.at(a.n), 'stake_timestamp'), NOW)))
                    p_('the other stakes stay', same_stake(W, b.at(i), a.at(i)), [le(0, i), lt(i, a.n)])
                    p_("the user's total grows by the amount", eq(b.total, add(a.total, amt)))
                    p_('the contract-wide total grows by the amount', eq(t1, add(t0, amt)))
                else:
                    for t in mv:
                        p_('exactly the stated LP tokens go to the staker', and_(B(t[0] == 'transfer'), eq(t[1], lp_tok), eq(t[2], SELF), eq(t[3], sender), eq(t[4], amt)))
                    p_('one stake is removed', and_(b.has, eq(b.n, sub(a.n, 1))))
                    gone = b.stakes.tag[2] if b.stakes.tag and b.stakes.tag[0] == 'remove' else None

                    def at(r):
                        j = bvar('s%d' % next(tm._cnt))
                        return and_(le(0, r), lt(r, a.n), eq(W_(W, a.at(r), 'stake'), amt), eq(W_(W, a.at(r), 'stake_timestamp'), A[2]),
                                    forall([j.args[0]], implies(and_(le(0, j), lt(j, b.n)), same_stake(W, b.at(j), ite_stake(lt(j, r), a.at(j), a.at(add(j, 1)))))))
                    if gone is not None:
                        p_('the stake removed has the stated amount and time, the others stay', at(gone))
                    else:
                        r = bvar('r%d' % next(tm._cnt))
                        p_('the stake removed has the stated amount and time, the others stay', exists([r.args[0]], at(r)))
                    p_("the user's total falls by the amount", eq(b.total, sub(a.total, amt)))
                    p_('the contract-wide total falls by the amount', eq(t1, sub(t0, amt)))


def ite_stake(c, a, b):
    from vc.values import vite
    return vite(c, a, b)


def W_(W, v, n):
    return field(W, v, n)


def C17(ck):
    con = ck.contract('stake')
    W = con.W
    tok, tok2, tm1, i = app('any.token'), app('any.token.2'), app('any.time', (), 'u64'), app('any.index', (), 'u32')
    for e in sorted(con.entries):
        with ck.guard('stake.' + e):
            R = con.run(e)
            ck.nonvacuous(R)
            A = R.args
            for p in R.paths:
                p_ = lambda n, goal, hyps=(), steps=(), **k: ck.path(p, n, goal, list(hyps), steps, **k)
                if e == 'initialize':
                    h, m = rd(p, TOTALS, (), True)
                    p_('the record of totals starts empty', and_(h, not_(m.has(tm1))))
                    p_('no reward token is registered or history written', and_(keep(p, ASSETS), keep(p, HIST, 1)))
                    cfg = rd(p, CONFIG, (), True)[1]
                    p_('manager and owner are those given', and_(eq(p.f(cfg, 'manager'), A[4]), eq(p.f(cfg, 'owner'), A[5])))
                    continue
                p_('manager and owner stay', keep(p, CONFIG))
                if e not in ('create_distribution_flow', 'distribute_rewards'):
                    p_('the reward history stays', keep(p, HIST, 1))
                    p_('the recorded totals stay', keep(p, TOTALS))
                    p_('the set of reward tokens stays', keep(p, ASSETS))
                    continue
                cfg = rd(p, CONFIG)[1]
                sender = A[0]
                p_('the manager or the owner authorised it', and_(rd(p, CONFIG)[0], or_(*[and_(p.auths(x), eq(x, sender)) for x in (p.f(cfg, 'manager'), p.f(cfg, 'owner'))])))
                h0, l0 = rd(p, ASSETS)
                h1, l1 = rd(p, ASSETS, (), True)
                was = lambda t: and_(h0, member(l0, t))
                p_('only this contract is involved and the token', B(not changing_calls(p)))
                if e == 'create_distribution_flow':
                    asset = A[1]
                    n0 = ite(h0, l0.len, 0)
                    p_('the token was not registered before', not_(was(asset)))
                    p_('it is appended to the reward tokens', and_(h1, eq(l1.len, add(n0, 1)), eq(l1.at(n0), asset)))
                    p_('the other reward tokens stay', eq(l1.at(i), l0.at(i)), [le(0, i), lt(i, n0)])
                    g, m = rd(p, HIST, (asset,), True)
                    p_('its history starts empty', and_(g, not_(m.has(tm1))))
                    hist_same(p_, p, tok, tm1, [ne(tok, asset)], 'the history of every other token stays')
                    p_('the recorded totals stay', keep(p, TOTALS))
                    p_('no token moves', p.moves_nothing())
                    continue
                amt, asset = A[1], A[2]
                p_('the reward token is registered', was(asset))
                p_('the set of reward tokens stays', keep(p, ASSETS))
                mv = p.events('transfer', 'mint', 'burn')
                p_('exactly the stated amount comes from the caller', and_(B(len(mv) == 1 and mv[0][0] == 'transfer'), *[and_(eq(t[1], asset), eq(t[2], sender), eq(t[3], SELF), eq(t[4], amt)) for t in mv]))
                a0, m0 = rd(p, HIST, (asset,))
                a1, m1 = rd(p, HIST, (asset,), True)
                p_('the amount is added to the history of the token at the current time', and_(a1, m1.has(NOW), eq(m1.val(NOW), add(ite(m0.has(NOW), m0.val(NOW), 0), amt))))
                p_('the history of the token at other times stays', and_(iff(m1.has(tm1), m0.has(tm1)), implies(m0.has(tm1), eq(m1.val(tm1), m0.val(tm1)))), [ne(tm1, NOW)])
                hist_same(p_, p, tok, tm1, [ne(tok, asset)], 'the history of every other token stays')
                b0, s0 = rd(p, TOTALS)
                b1, s1 = rd(p, TOTALS, (), True)
                t0 = rd(p, TOTAL)[1]
                p_('the total staked is recorded for the current time', and_(b1, s1.has(NOW), eq(s1.val(NOW), t0)), [ge(t0, 0)])
                p_('the recorded totals of other times stay', and_(iff(s1.has(tm1), s0.has(tm1)), implies(s0.has(tm1), eq(s1.val(tm1), s0.val(tm1)))), [ne(tm1, NOW)])
                p_('the amount is not negative', ge(amt, 0))


def hist_same(p_, p, tok, t, hy, name):
    h0, m0 = rd(p, HIST, (tok,))
    h1, m1 = rd(p, HIST, (tok,), True)
    p_(name, and_(iff(h0, h1), implies(h0, and_(iff(m0.has(t), m1.has(t)), implies(m0.has(t), eq(m0.val(t), m1.val(t)))))), hy)


# ------------------------------------------------------------------ pending rewards
DAY, ONE = 86400, 10**18
I128MAX = 2**127 - 1


class Rewards:
    """the specified rewards of one user: credit(token, day, j) is what the first j stakes earn from the reward of one
    day, reward(token, j) what the first j recorded days earn in total; both are defined by recursion on j"""

    def __init__(self, ck, con, user):
        self.ck, self.W, self.user = ck, con.W, user
        self.run = Run(con, 'query_withdrawable_rewards', None, [user])
        h, v = self.pre(USER, (user,))
        self.has = h
        self.stakes = field(self.W, v, 'stakes')
        self.n = ite(h, self.stakes.len, 0)
        self.last = ite(h, field(self.W, v, 'last_reward_time'), 0)
        self.totals = self.pre(TOTALS)[1]
        self.share = ck.lemma('share at most the whole', 3, lambda s, d, t: ([ge(s, 0), le(s, t), gt(t, 0), ge(d, 0)], and_(ge(tdiv(mul(s, d), t), 0), le(tdiv(mul(s, d), t), d))))
        self.scaled = ck.lemma('scaling does not increase', 2, lambda s, m: ([ge(s, 0), ge(m, 0), le(m, ONE)], and_(ge(tdiv(mul(s, m), ONE), 0), le(tdiv(mul(s, m), ONE), s))))
        self.days = ck.lemma('sixty days are the whole', 1, lambda a: ([ge(a, 0), lt(a, 60)], and_(ge(tdiv(mul(a, ONE), 60), 0), le(tdiv(mul(a, ONE), 60), ONE))))
        self.nosub = ck.lemma('share not negative', 3, lambda s, d, t: ([ge(s, 0), gt(t, 0), ge(d, 0)], ge(tdiv(mul(s, d), t), 0)))

    def pre(self, loc, args=()):
        return self.run.pre(loc[0], loc[1], args, TY[loc[1]])

    def hist(self, tok):
        return self.pre(HIST, (tok,))[1]

    def keys(self, tok):
        return models.map_keys(None, self.hist(tok))

    def credit(self, tok, day, j):
        return app('spec.credit', (tok, day, lift(j)))

    def reward(self, tok, j):
        return app('spec.reward', (tok, lift(j)))

    def all(self, tok):
        return self.reward(tok, self.keys(tok).len)

    def term(self, tok, day, j):
        """what stake j earns from the reward of the day"""
        s = self.stakes.at(j)
        st, ts = field(self.W, s, 'stake'), field(self.W, s, 'stake_timestamp')
        total, rew = self.totals.val(day), self.hist(tok).val(day)
        share = tdiv(mul(st, rew), total)
        age = tdiv(ite(ge(day, ts), sub(day, ts), 0), DAY)
        mult = tdiv(mul(age, ONE), 60)
        return ite(ge(age, 60), share, tdiv(mul(share, mult), ONE)), (st, ts, total, rew, share, age, mult)

    def counts(self, tok, day):
        """the reward of this day is still to be claimed"""
        t = self.totals
        return and_(gt(day, self.last), le(day, NOW), self.hist(tok).has(day), t.has(day), gt(t.val(day), 0))

    def credit_facts(self, tok, day, j):
        c = self.credit
        t, (st, ts, total, rew, share, age, mult) = self.term(tok, day, j)
        return [eq(c(tok, day, 0), 0), (and_(ge(j, 0), lt(j, self.n)), c(tok, day, add(j, 1)), add(c(tok, day, j), t)), ge(c(tok, day, j), 0),
                # recorded stakes are positive, one made before a distribution is part of the total recorded for it
                implies(and_(ge(j, 0), lt(j, self.n)), and_(ge(st, 0), implies(le(ts, day), le(st, total)))),
                ge(rew, 0), le(rew, I128MAX), self.share(st, rew, total), self.nosub(st, rew, total), self.scaled(share, mult), self.days(age)]

    def nothing(self, tok, a, b):
        """induction over the definition: days that do not count add nothing"""
        i = bvar('d%d' % next(tm._cnt))
        return implies(and_(le(0, a), le(a, b), forall([i.args[0]], implies(and_(le(a, i), lt(i, b)), not_(self.counts(tok, self.keys(tok).at(i)))))),
                       eq(self.reward(tok, a), self.reward(tok, b)))

    def reward_facts(self, tok, j):
        k = self.keys(tok)
        r = self.reward
        d = k.at(j)
        return [(and_(ge(j, 0), lt(j, k.len)), r(tok, add(j, 1)), add(r(tok, j), ite(self.counts(tok, d), self.credit(tok, d, self.n), 0))),
                eq(self.credit(tok, d, 0), 0), ge(r(tok, j), 0), self.nothing(tok, 0, j), self.nothing(tok, j, k.len)]

    def token_facts(self, tok):
        k, h = self.keys(tok), self.hist(tok)
        i, j, m = [bvar('%s%d' % (x, next(tm._cnt))) for x in 'ijm']
        return [eq(self.reward(tok, 0), 0), ge(k.len, 0), ge(self.reward(tok, k.len), 0), self.nothing(tok, 0, k.len),
                # host contract of maps: keys come in increasing order and are members
                forall([i.args[0], j.args[0]], implies(and_(le(0, i), lt(i, j), lt(j, k.len)), lt(k.at(i), k.at(j)))),
                forall([m.args[0]], implies(and_(le(0, m), lt(m, k.len)), h.has(k.at(m))))]

    # -- for the loop rule
    def seen(self, rec):
        """what a loop is about: tokens it works on, (token, day) whose stakes it passes over, tokens whose days it passes
        over"""
        toks, pairs, over = set(), set(), set()
        own = lambda t: any(u.op == 'app' and (u is rec.k or u.args[0].startswith('L%d.' % rec.id)) for u in subterms([t]))
        for b in rec.backs:
            for u in subterms(b.pc):
                if u.op != 'app' or smt.CTX._has_bvar(u):
                    continue
                if u.args[0] in ('has.persistent.RewardHistory', 'st.persistent.RewardHistory.keys.len'):
                    toks.add(u.args[1])
                if u.args[0] == 'st.persistent.RewardHistory.has':
                    t, d = u.args[1:3]
                    if own(d) and not own(t):
                        over.add(t)
                    elif not own(d):
                        pairs.add((t, d))
        srt = lambda x: sorted(x, key=lambda t: t.id)
        return srt(toks), sorted(pairs, key=lambda t: (t[0].id, t[1].id)), srt(over)

    def spots(self, rec):
        return [get for n, get, kind in rec.leaves if kind == 'pos'] or [None]

    def facts(self, X, rec):
        toks, pairs, over = self.seen(rec)
        out = []
        ats = [g(s) if g else k for g in self.spots(rec) for s, k in ((rec.gen, rec.k), (rec.entry, I(0)))]
        for t in over or [t for t in toks if not pairs]:
            out += self.token_facts(t)
        for t in over:
            for j in ats:
                out += self.reward_facts(t, j)
        for t, d in pairs:
            for j in ats[:1] if not over else []:
                out += self.credit_facts(t, d, j)
        return out

    def cands(self, X, rec):
        toks, pairs, over = self.seen(rec)
        out = []
        for n, get, kind in rec.leaves:
            if kind == 'int':
                x0 = get(rec.entry)
                for sp in self.spots(rec):
                    w = (lambda s, k, sp=sp: k if sp is None else sp(s))
                    for t in over:
                        out.append(('spec %s sums up the days' % n, lambda s, k, gh, get=get, t=t, w=w, x0=x0: eq(get(s), add(x0, self.reward(t, w(s, k))))))
                    for t, d in pairs if not over else []:
                        out.append(('spec %s sums up the stakes' % n, lambda s, k, gh, get=get, t=t, d=d, w=w, x0=x0: eq(get(s), add(x0, self.credit(t, d, w(s, k))))))
            if kind == 'vec':
                l = self.pre(ASSETS)[1]

                def g(s, k, gh, get=get):
                    v = get(s)
                    if is_int(lift(k)) and ival(lift(k)) == 0:
                        return eq(v.len, 0)
                    return and_(eq(v.len, k), self.reported(v, l, k))
                out.append(('spec %s lists the rewards' % n, g))
        return out

    def reported(self, v, l, n):
        j = bvar('q%d' % next(tm._cnt))
        e = v.at(j)
        return forall([j.args[0]], implies(and_(le(0, j), lt(j, n)), and_(eq(field(self.W, e, 'reward_address'), l.at(j)), eq(field(self.W, e, 'reward_amount'), self.all(l.at(j))))))


def plain(fs):
    return [implies(f[0], eq(f[1], f[2])) if isinstance(f, tuple) else f for f in fs]


def C16(ck):
    con = ck.contract('stake')
    W = con.W
    i = app('any.index', (), 'u32')
    user = ex.sym(W, ADDR, 'arg.0')
    rw = Rewards(ck, con, user)
    # the induction behind `nothing`: the empty range, and one more day that does not count
    ck.ob('days that do not count add nothing: one more day', [eq(rw.reward(app('t'), app('a')), rw.reward(app('t'), app('b'))), ge(app('b'), 0), lt(app('b'), rw.keys(app('t')).len),
          not_(rw.counts(app('t'), rw.keys(app('t')).at(app('b'))))] + plain(rw.reward_facts(app('t'), app('b')))[:1], eq(rw.reward(app('t'), app('a')), rw.reward(app('t'), add(app('b'), 1))))
    t_, d_, j_ = app('t'), app('d'), app('j')
    ck.ob('credits are never negative: one more stake', plain(rw.credit_facts(t_, d_, j_)) + [ge(j_, 0), lt(j_, rw.n), rw.totals.has(d_), gt(rw.totals.val(d_), 0)], ge(rw.credit(t_, d_, add(j_, 1)), 0))
    lo = lambda: lp.AutoLoop(cands=[rw.cands], facts=[rw.facts])
    h0, l0 = rw.pre(ASSETS)
    with ck.guard('stake.query_withdrawable_rewards'):
        R = con.run('query_withdrawable_rewards', loops=lo(), argv={0: user})
        ck.nonvacuous(R)
        for p in R.paths:
            p_ = lambda n, goal, hyps=(), steps=(), **k: ck.path(p, n, goal, list(hyps), steps, **k)
            p_('nothing changes', p.no_state_change())
            v = field(W, p.ret, 'rewards')
            n = ite(h0, l0.len, 0)
            p_('one entry for every reward token', eq(v.len, n))
            e = v.at(i) if v.items is None or v.items else None
            if e is not None:
                p_('each entry is the specified reward of that token', and_(eq(field(W, e, 'reward_address'), l0.at(i)), eq(field(W, e, 'reward_amount'), rw.all(l0.at(i)))), [le(0, i), lt(i, n)])
    for e in sorted(con.entries):
        if e == 'query_withdrawable_rewards':
            continue
        with ck.guard('stake.' + e):
            R = con.run(e, loops=lo(), argv={0: user} if e == 'withdraw_rewards' else None)
            ck.nonvacuous(R)
            for p in R.paths:
                p_ = lambda n, goal, hyps=(), steps=(), **k: ck.path(p, n, goal, list(hyps), steps, **k)
                u, v = User(p, WHO), User(p, WHO, True)
                if e != 'withdraw_rewards':
                    p_('the time of the last claim stays', eq(u.last, v.last))
                    continue
                p_("other users' claims stay", eq(u.last, v.last), [ne(WHO, user)])
                me, me2 = User(p, user), User(p, user, True)
                p_('the rewards are marked as claimed', and_(me2.has, eq(me2.last, NOW)))
                p_('stakes stay', and_(eq(me2.n, me.n), eq(me2.total, me.total), implies(and_(le(0, i), lt(i, me.n)), same_stake(W, me2.at(i), me.at(i))) if me.stakes.items != [] and me2.stakes.items != [] else TRUE))
                for loc, k in ((HIST, 1), (TOTALS, 0), (ASSETS, 0), (TOTAL, 0), (CONFIG, 0)):
                    p_('%s stays' % loc[1], keep(p, loc, k))
                if p.events('transfer', 'mint', 'burn') or changing_calls(p):
                    raise Undecided('payments outside the pass over the reward tokens')
                quiet, busy = p.quiet_loops()
                if len(busy) != 1:
                    if not busy and not p.loops():
                        raise Undecided('no pass over the reward tokens')
                    p_('no reward token is registered', or_(not_(h0), eq(l0.len, 0)))
                    continue
                rec = busy[0]
                p_('every reward token is paid', eq(rec.k, l0.len), [h0])
                for b, ev, hy in p.iterations(rec):
                    o = lambda n, g: ck.ob('%s: token: %s' % (p.name, n), hy, g, p=p)
                    mv = [t for t in ev if t[0] in ('transfer', 'mint', 'burn')]
                    inner = [t[1] for t in ev if t[0] == 'loop']
                    if any(effect(t) for r in inner for _, ev2, _ in p.iterations(r) for t in ev2):
                        raise Undecided('effects in an inner loop')
                    o('exactly one payment', B(len(mv) == 1 and not [t for t in ev if effect(t) and t not in mv]))
                    for t in mv:
                        o('it goes from the contract to the user', and_(B(t[0] == 'transfer'), eq(t[2], SELF), eq(t[3], user)))
                        o('it is of the reward token in turn', eq(t[1], l0.at(rec.k)))
                        o('it is the specified reward', eq(t[4], rw.all(l0.at(rec.k))))
    ck.assume_txt.append('a stake made before a distribution is part of the total recorded for that distribution (follows from C15 and C17 over the whole history), recorded stakes are not negative, and a reward token has a supply below 2^127')
