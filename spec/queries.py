"""Contracts of the queries of all contracts: what is reported is what is on the books, and asking changes nothing."""
from vc.check import *
from vc.terms import *
from vc.values import *
from vc import exec as ex, loops as lp, models
from spec.admin import ADMIN, options, ADDR
from spec.pool import POOLS, U
from spec.multihop import since
from spec.trader import changing_calls

QUERY = re.compile(r'^(query_\w+|simulate_\w+|get_admin|get_config|allowance|balance|decimals|name|symbol)$')
POOL = 'query_pool_info_for_factory'


def C30(ck):
    for key in ('pool', 'pool_stable', 'stake', 'stake_rewards', 'factory', 'multihop', 'trader', 'vesting', 'token'):
        con = ck.contract(key)
        for e in sorted(e for e in con.entries if QUERY.match(e)):
            with ck.guard('%s.%s' % (key, e)):
                if (key, e) == ('factory', 'query_user_portfolio'):
                    vals = arguments(con, e)
                    R = con.run(e, loops=lp.AutoLoop(ghosts=[staked_ghost, count_ghost(vals[1])], cands=[staked_total, picked(vals[1])]), argv=dict(enumerate(vals)))
                else:
                    R = con.run(e, **options(key))
                ck.nonvacuous(R)
                for p in R.paths:
                    ck.path(p, 'a query changes nothing', nothing_changes(p))
                    Report(ck, key, e, R, p).check()


def nothing_changes(p):
    g = p.no_state_change()
    for rec in p.loops():
        for _, ev, _ in p.iterations(rec):
            if any(t[0] in ('transfer', 'mint', 'burn', 'upgrade', 'deploy') or (t[0] == 'call' and not models.READ_ONLY.match(t[3])) for t in ev):
                return FALSE
    return g


def arguments(con, e):
    f = con.entries[e]
    return [ex.sym(con.W, f.locals[a], 'arg.%d' % i) for i, a in enumerate(x for x in f.args if ex.lastseg(f.locals[x]) != 'Env')]


class Report:
    def __init__(self, ck, key, e, R, p):
        self.ck, self.key, self.e, self.R, self.p, self.W, self.A = ck, key, e, R, p, p.W, R.args

    def ob(self, n, goal, hyps=(), **k):
        self.ck.path(self.p, n, goal, list(hyps), **k)

    def f(self, v, *ns):
        for n in ns:
            v = field(self.W, v, n)
        return v

    def rd(self, loc, args=(), ty=None):
        return self.p.pre(loc[0], loc[1], args, ty)

    def cell(self, what, loc, args=(), ty=None, ret=None, default=None):
        """the value reported is the one recorded"""
        h, v = self.rd(loc, args, ty)
        r = self.p.ret if ret is None else ret
        if default is None:
            self.ob('%s is what is recorded' % what, and_(h, self.eqv(r, v)))
        else:
            self.ob('%s is what is recorded, or nothing' % what, and_(implies(h, self.eqv(r, v)), implies(not_(h), eq(r, default))))

    def eqv(self, a, b):
        return same(self.W, a, b)

    def check(self):
        m = getattr(self, '%s_%s' % (self.key, self.e), None) or (getattr(self, 'pools_' + self.e, None) if self.key in POOLS else None) \
            or (self.admin if self.e in ('query_admin', 'query_admin_address', 'get_admin') and self.key in ADMIN else None)
        if m:
            m()

    def admin(self):
        self.cell('the admin', ADMIN[self.key], (), ADDR)

    # ---------------------------------------------------------------- pools
    def pool_cfg(self, n):
        return self.f(self.rd(('persistent', 'sym:CONFIG'), (), 'storage::Config')[1], n)

    def book(self, n):
        return self.rd(('persistent', U[n]), (), 'i128')[1]

    def pools_query_config(self):
        self.cell('the configuration', ('persistent', 'sym:CONFIG'), (), 'storage::Config')

    def pools_query_share_token_address(self):
        self.ob('the LP token is what is recorded', eq(self.p.ret, self.pool_cfg('share_token')))

    def pools_query_stake_contract_address(self):
        self.ob('the stake contract is what is recorded', eq(self.p.ret, self.pool_cfg('stake_contract')))

    def pools_query_total_issued_lp(self):
        self.cell('the total of LP shares', ('persistent', U['TotalShares']), (), 'i128')

    def pools_query_pool_info(self, r=None):
        r = self.p.ret if r is None else r
        for part, tok, n in (('asset_a', 'token_a', 'ReserveA'), ('asset_b', 'token_b', 'ReserveB'), ('asset_lp_share', 'share_token', 'TotalShares')):
            self.ob('%s is the asset recorded' % part, eq(self.f(r, part, 'address'), self.pool_cfg(tok)))
            self.ob('the amount of %s is the one recorded' % part, eq(self.f(r, part, 'amount'), self.book(n)))
        self.ob('the stake contract is the one recorded', eq(self.f(r, 'stake_address'), self.pool_cfg('stake_contract')))

    def pools_query_pool_info_for_factory(self):
        r = self.p.ret
        self.pools_query_pool_info(self.f(r, 'pool_response'))
        self.ob('the pool reports itself', eq(self.f(r, 'pool_address'), SELF))
        self.ob('the fee is the one recorded', eq(self.f(r, 'total_fee_bps'), self.pool_cfg('total_fee_bps')))

    # ---------------------------------------------------------------- factory
    LIST = ('persistent', 'u32:2')

    def factory_cfg(self):
        return self.rd(('persistent', 'u32:1'), (), 'storage::Config')

    def factory_get_admin(self):
        h, c = self.factory_cfg()
        self.ob('the admin is what is recorded', and_(h, eq(self.p.ret, self.f(c, 'admin'))))

    def factory_get_config(self):
        self.cell('the configuration', ('persistent', 'u32:1'), (), 'storage::Config')

    def factory_query_pools(self):
        self.cell('the list of pools', self.LIST, (), 'soroban_sdk::Vec<%s>' % ADDR)

    def factory_query_pool_details(self):
        cs = self.p.calls()
        self.ob('the report is what the pool reports of itself', and_(B(len(cs) == 1 and not self.p.loops()), *[and_(B(c[3] == POOL and not c[4]), eq(c[2], self.A[0]), self.eqv(self.p.ret, c[5])) for c in cs]))

    def over_pools(self):
        """the loop over the registered pools in which they are asked about themselves"""
        l = self.rd(self.LIST, (), 'soroban_sdk::Vec<%s>' % ADDR)[1]
        recs = [rec for rec in self.p.loops() if any(t[0] == 'call' and t[3] == POOL for _, ev, _ in self.p.iterations(rec) for t in ev)]
        self.ob('the pools are asked in one pass over the list', B(len(recs) == 1))
        if len(recs) != 1:
            return l, None
        rec = recs[0]
        self.ob('every registered pool is asked', eq(rec.k, l.len))
        for i, (b, ev, hy) in enumerate(self.p.iterations(rec)):
            cs = [t for t in ev if t[0] == 'call' and t[3] == POOL]
            self.ck.ob('%s: pool %d: it is asked about itself' % (self.p.name, i), hy, and_(B(len(cs) == 1), *[and_(eq(c[2], l.at(rec.k)), B(not c[4])) for c in cs]), p=self.p)
        return l, rec

    def factory_query_all_pools_details(self):
        l, rec = self.over_pools()
        if rec is None:
            return
        j = app('any.pool', (), 'u32')
        cs = [x for x in since(rec.backs[0], rec) if x[0] == 'call' and x[3] == POOL]
        r = self.p.ret
        at = lp.vmap(cs[0][5], lambda t: rec.at(t, j))
        self.ob('there is one report for each pool', eq(r.len, l.len))
        self.ob('each report is what that pool reports of itself', self.eqv(r.at(j), at), [le(0, j), lt(j, l.len)])

    # ---------------------------------------------------------------- the others
    def stake_query_config(self):
        self.cell('the configuration', ('persistent', 'sym:CONFIG'), (), 'storage::Config', ret=self.f(self.p.ret, 'config'))

    stake_rewards_query_config = stake_query_config

    def stake_query_staked(self):
        h, v = self.rd(('persistent', 'val'), (self.A[0],), 'storage::BondingInfo')
        for n in ('stakes', 'total_stake', 'last_reward_time'):
            r = self.f(self.p.ret, n)
            self.ob('the %s reported is what is recorded, or nothing' % n, and_(implies(h, self.eqv(r, self.f(v, n))), implies(not_(h), eq(r.len if n == 'stakes' else r, 0))))

    def stake_query_total_staked(self):
        self.cell('the total staked', ('persistent', 'u32:1'), (), 'i128')

    def dist(self, asset):
        return self.rd(('persistent', 'Distribution'), (asset,), 'distribution::Distribution')

    def stake_rewards_query_distributed_reward(self):
        h, d = self.dist(self.A[0])
        self.ob('what was distributed is reported', and_(h, eq(self.p.ret, self.f(d, 'distributed_total'))))

    def stake_rewards_query_undistributed_reward(self):
        h, d = self.dist(self.A[0])
        self.ob('what is held beyond what can be withdrawn is reported', and_(h, eq(self.p.ret, sub(self.p.bal0(self.A[0], SELF), self.f(d, 'withdrawable_total')))))

    def trader_query_trading_pairs(self):
        self.cell('the pair', ('persistent', 'Pair'))

    def trader_query_contract_name(self):
        self.cell('the name', ('persistent', 'ContractId'))

    def trader_query_balances(self):
        pair, out = self.rd(('persistent', 'Pair'))[1], self.rd(('persistent', 'Token'), (), ADDR)[1]
        for n, t in (('output_token', out), ('token_a', pair.get(0)), ('token_b', pair.get(1))):
            self.ob('the balance of %s is the one held' % n, eq(self.f(self.p.ret, n, 'amount'), self.p.bal0(t, SELF)))
            self.ob('the symbol of %s is its own' % n, eq(self.f(self.p.ret, n, 'symbol'), app('tok.symbol', (t,), None)))

    def trader_query_output_token_info(self):
        t, r = self.rd(('persistent', 'Token'), (), ADDR)[1], self.p.ret
        self.ob('the output token is the one recorded', eq(self.f(r, 'address'), t))
        self.ob('its name, symbol and decimals are its own', and_(eq(self.f(r, 'name'), app('tok.name', (t,), None)), eq(self.f(r, 'symbol'), app('tok.symbol', (t,), None)),
                                                                 eq(self.f(r, 'decimal'), app('tok.decimals', (t,), 'u32'))))

    VEST = ('persistent', '{index,recipient}')

    def token_of_vesting(self):
        return self.f(self.rd(('instance', 'u32:5'), (), 'storage::VestingTokenInfo')[1], 'address')

    def vesting_query_balance(self):
        self.ob('the balance is the token\'s', eq(self.p.ret, self.p.bal0(self.token_of_vesting(), self.A[0])))

    def vesting_query_vesting_contract_balance(self):
        self.ob('the balance is the contract\'s', eq(self.p.ret, self.p.bal0(self.token_of_vesting(), SELF)))

    def vesting_query_token_info(self):
        self.cell('the token', ('instance', 'u32:5'), (), 'storage::VestingTokenInfo')

    def vesting_query_minter(self):
        self.cell('the minter', ('instance', 'u32:3'), (), 'storage::MinterInfo')

    def vesting_query_vesting_info(self):
        self.cell('the schedule', self.VEST, (self.A[0], self.A[1]), 'storage::VestingInfo')

    def vesting_query_all_vesting_info(self):
        r, j = self.p.ret, app('any.index', (), 'u32')
        h, v = self.rd(self.VEST, (self.A[0], j), 'storage::VestingInfo')
        h2, _ = self.rd(self.VEST, (self.A[0], r.len), 'storage::VestingInfo')
        inside = [le(0, j), lt(j, r.len)]
        self.ob('every schedule listed is one recorded', h, inside)
        for n in ('recipient', 'balance', 'schedule'):
            self.ob('the %s of each schedule is as recorded, in order' % n, self.eqv(self.f(r.at(j), n), self.f(v, n)), inside)
        self.ob('no schedule is left out', not_(h2))

    def token_balance(self):
        self.cell('the balance', ('persistent', 'Balance'), (self.A[0],), 'i128', default=0)

    def token_allowance(self):
        h, v = self.rd(('temporary', 'Allowance'), tuple(self.A), 'storage_types::AllowanceValue')
        live = and_(h, ge(self.f(v, 'expiration_ledger'), app('sequence', (), 'u32')))
        self.ob('the allowance is the one in force', eq(self.p.ret, ite(live, self.f(v, 'amount'), 0)))

    def metadata(self, i, what):
        h, m = self.rd(('instance', 'METADATA'), (), 'soroban_token_sdk::metadata::TokenMetadata')
        self.ob('the %s are what is recorded' % what, and_(h, self.eqv(self.p.ret, m.get(i, {0: 'u32'}.get(i, 'soroban_sdk::String')))))

    def token_decimals(self):
        self.metadata(0, 'decimals')

    def token_name(self):
        self.metadata(1, 'name')

    def token_symbol(self):
        self.metadata(2, 'symbol')

    # ---------------------------------------------------------------- a user's portfolio
    def factory_query_user_portfolio(self):
        l, rec = self.over_pools()
        if rec is None:
            return
        user, staking = self.A
        o = lambda i, n, hy, g: self.ck.ob('%s: pool %d: %s' % (self.p.name, i, n), hy, g, p=self.p)
        for i, (b, ev, hy) in enumerate(self.p.iterations(rec)):
            t = Pool(self.W, ev)
            o(i, 'the user\'s tokens and stakes are looked up', hy, B(t.ok))
            if not t.ok:
                continue
            for c in t.bals:
                o(i, 'the LP token of that pool is asked about the user', hy, and_(eq(c[2], t.share), eq(c[4][0], user)))
            for c in t.stakes:
                o(i, 'the stake contract of that pool is asked about the user', hy, and_(eq(c[2], t.contract), eq(c[4][0], user)))
            for c in t.quotes:
                o(i, 'the pool is asked what it would pay for all shares of the user, held and staked', hy, and_(eq(c[2], l.at(rec.k)), eq(c[4][0], t.shares)))
        best = portfolio(self.W, rec)
        for n, what in (('lp_portfolio', 'share'), ('stake_portfolio', 'stake')):
            v = self.f(self.p.ret, n)
            if best is None or what not in rec.ghosts:
                self.ob('the %s entries are listed' % what, FALSE)
                continue
            cond, elem = best.entry(what, staking)
            c = rec.ghosts[what]
            at = lambda t: rec.at(t, ANYPOOL)
            self.ob('nothing is listed without %ss' % what, eq(v.len, c))
            hy = [le(0, ANYPOOL), lt(ANYPOOL, l.len), at(cond)]
            self.ob('each %s entry has its place' % what, lt(at(c), v.len), hy)
            for nm, get in elem.items():
                self.ob('the %s of each %s entry are as reported' % (nm, what), self.eqv(self.f(v.at(at(c)), nm), lp.vmap(get, at)), hy)


ANYPOOL = app('any.pool', (), 'u32')


class Pool:
    """what is asked about one registered pool, and what that makes of the user's share"""

    def __init__(self, W, ev):
        self.W = W
        call = lambda m: [t for t in ev if t[0] == 'call' and t[3] == m]
        info = call(POOL)
        self.bals, self.stakes, self.quotes = call('balance'), call('query_staked'), call('query_share')
        sums = [t[1] for t in ev if t[0] == 'loop' and 'staked' in t[1].ghosts]
        self.ok = len(info) == 1 and len(self.bals) == 1 and bool(self.stakes) and bool(sums)
        if not self.ok:
            return
        f = lambda v, *ns: f(field(W, v, ns[0]), *ns[1:]) if ns else v
        self.share, self.contract = f(info[0][5], 'pool_response', 'asset_lp_share', 'address'), f(info[0][5], 'pool_response', 'stake_address')
        self.list = f(self.stakes[-1][5], 'stakes')
        n = f(self.stakes[0][5], 'stakes').len
        self.shares = add(self.bals[0][5], subst(sums[0].ghosts['staked'], {sums[0].k: n}))

    def entry(self, what, staking):
        """(condition, fields) of the entry the pool adds to the portfolio"""
        if what == 'share':
            return gt(self.shares, 0), {'assets': self.quotes[0][5]} if self.quotes else {}
        return and_(staking, gt(self.list.len, 0)), {'staking_contract': self.contract, 'stakes': self.list}


def portfolio(W, rec):
    """the terms of one arbitrary pool, from the way through the loop which asks most"""
    ts = [Pool(W, since(b, rec)) for b in rec.backs]
    ts = [t for t in ts if t.ok and t.quotes]
    return max(ts, key=lambda t: len(t.stakes)) if ts else None


def staked_ghost(X, rec, st):
    """ghost of the loop which adds up a user's stakes: their sum so far"""
    for it in rec.iters:
        v = it.info[1] if it.info and it.info[0] == 'vec' else None
        if isinstance(v, SVec) and v.ety and ex.lastseg(v.ety) == 'Stake':
            return [lp.Ghost('staked', lambda rec, st: I(0), lambda rec, b, t: add(t, field(X.W, v.at(rec.k), 'stake')), 'i128')]
    return []


def staked_total(X, rec):
    """candidate: a number grows by the stakes added up"""
    if 'staked' not in rec.ghosts:
        return []
    return [('spec %s: plus the stakes' % name, lambda s, k, gh, get=get: eq(get(s), add(get(rec.entry), gh['staked']))) for name, get, kind in rec.leaves if kind == 'int']


def count_ghost(staking):
    """ghosts of the loop over the pools: the number of entries so far"""
    def g(X, rec, st):
        t = portfolio(X.W, rec)
        return [lp.Ghost(w, lambda rec, st: I(0), lambda rec, b, c, w=w: add(c, ite(t.entry(w, staking)[0], 1, 0)), 'u32') for w in ('share', 'stake')] if t else []
    return g


def picked(staking):
    """candidates: an entry for every pool that has one, in its place, and no others"""
    def cands(X, rec):
        t = portfolio(X.W, rec)
        if t is None:
            return []
        out = []
        for what, ty in (('share', 'LpPortfolio'), ('stake', 'StakePortfolio')):
            cond, elem = t.entry(what, staking)
            at = lambda t: rec.at(t, ANYPOOL)
            place = at(rec.ghosts[what])
            for name, get, kind in rec.leaves:
                if kind != 'vec' or not get(rec.gen).ety or ex.lastseg(get(rec.gen).ety) != ty:
                    continue
                out.append(('spec %s: as many as pools with any' % name, lambda s, k, gh, get=get, what=what: eq(get(s).len, gh[what])))
                seen = lambda k, cond=cond: and_(le(0, ANYPOOL), lt(ANYPOOL, k), at(cond))
                out.append(('spec %s: a place each' % name, lambda s, k, gh, what=what, seen=seen, place=place: implies(seen(k), lt(place, gh[what]))))
                for nm, v in elem.items():
                    def g(s, k, gh, get=get, v=v, nm=nm, seen=seen, place=place):
                        l = get(s)
                        if is_int(lift(l.len)) and ival(lift(l.len)) == 0:
                            return TRUE if is_int(lift(k)) else FALSE
                        return implies(seen(k), same(X.W, field(X.W, l.at(place), nm), lp.vmap(v, at)))
                    out.append(('spec %s: %s' % (name, nm), g))
        return out
    return cands


def same(W, a, b):
    """equality, of lists at one arbitrary index"""
    if isinstance(a, SVec) or isinstance(b, SVec):
        i = app('any.index', (), 'u32')
        if a.items == [] or b.items == []:
            return eq(a.len, b.len)
        return and_(eq(a.len, b.len), implies(and_(le(0, i), lt(i, a.len)), same(W, a.at(i), b.at(i))))
    if isinstance(a, Struct) and isinstance(b, Struct):
        d = W.typedef(a.ty if a.ty not in ('tuple', 'partial') else b.ty)
        if d and d[0] == 'struct':
            return and_(*[same(W, field(W, a, n), field(W, b, n)) for n, _ in d[1]])
        if a.ty == 'tuple':
            return and_(*[same(W, a.get(i), b.get(i)) for i in range(a.n if a.n is not None else b.n)])
    return ex.veq(W, a, b)
