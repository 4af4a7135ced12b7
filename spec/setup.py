"""Contracts of initialisation: a contract starts with exactly the settings it was given and with nothing on its books."""
from vc.check import *
from vc.terms import *
from vc.values import *
from vc import exec as ex
from spec.admin import ADMIN, options, ADDR
from spec.pool import POOLS
from spec.trader import changing_calls

INIT = re.compile(r'^(initialize|initialize_with_\w+|__constructor)$')
STAKE_ARGS = ('admin', 'LP token', 'minimum bond', 'minimum reward', 'manager', 'owner', 'complexity limit')


def C29(ck):
    for key in ('pool', 'pool_stable', 'stake', 'stake_rewards', 'factory', 'multihop', 'trader', 'vesting', 'token'):
        con = ck.contract(key)
        es = sorted(e for e in con.entries if INIT.match(e))
        if not es:
            ck.undecided.append('%s: no initialising entry point' % key)
        for e in es:
            with ck.guard('%s.%s' % (key, e)):
                R = con.run(e, **options(key))
                ck.nonvacuous(R)
                for p in R.paths:
                    one(ck, key, e, R, p)


def one(ck, key, e, R, p):
    A = R.args
    f = lambda v, n: field(p.W, v, n)
    p_ = lambda n, goal, hyps=(), **k: ck.path(p, n, goal, list(hyps), **k)
    eqv = lambda a, b: ex.veq(p.W, a, b)

    def stored(what, dur, k, want, args=(), ty=None):
        h, v = p.post(dur, k, args, ty)
        p_('%s is recorded as given' % what, and_(h, eqv(v, want)))

    def struct(what, dur, k, ty, want, args=()):
        h, v = p.post(dur, k, args, ty)
        p_('the %s are recorded' % what, h)
        for n, w in want.items():
            p_('%s: %s is as given' % (what, n), eqv(f(v, n), w))

    def zero(what, dur, k, ty='i128'):
        h, v = p.post(dur, k, (), ty)
        p_('%s starts at zero' % what, and_(h, eq(v, 0)))

    def fresh_calls(n):
        cs = changing_calls(p)
        p_('exactly the new contracts are set up, nothing else is called', B(len(cs) == n))
        return cs

    p_('no token moves', p.moves_nothing())
    if key in ADMIN and key not in POOLS:
        stored('the admin', *ADMIN[key], A[0], (), ADDR)
    deps = p.events('deploy')
    if key not in POOLS and key != 'factory':
        p_('nothing is deployed', B(not deps))
        fresh_calls(0)
    if key in POOLS:
        info = A[2]
        ti, si = f(info, 'token_init_info'), f(info, 'stake_init_info')
        stored('the admin', *ADMIN[key], f(info, 'admin'), (), ADDR)
        h, c = p.post('persistent', 'sym:CONFIG', (), 'storage::Config')
        want = {'token_a': f(ti, 'token_a'), 'token_b': f(ti, 'token_b'), 'total_fee_bps': f(info, 'swap_fee_bps'), 'fee_recipient': f(info, 'fee_recipient'),
                'max_allowed_slippage_bps': f(info, 'max_allowed_slippage_bps'), 'max_allowed_spread_bps': f(info, 'max_allowed_spread_bps')}
        if key == 'pool':
            want['max_referral_bps'] = f(info, 'max_referral_bps')
        else:
            want['default_slippage_bps'] = f(info, 'default_slippage_bps')
        struct('settings', 'persistent', 'sym:CONFIG', 'storage::Config', want)
        if key == 'pool':
            stored('the default slippage', 'persistent', 'sym:DSLIPBPS', A[-2], (), 'i64')
        else:
            h, amp = p.post('instance', 'u32:5', (), 'storage::AmplifierParameters')
            p_('the amplification is recorded', h)
            p_('the amplification is as given, times 100, without a ramp',
               and_(eq(f(amp, 'next_amp'), mul(A[7], 100)), eq(f(amp, 'init_amp'), f(amp, 'next_amp')), eq(f(amp, 'init_amp_time'), NOW), eq(f(amp, 'next_amp_time'), NOW)))
        p_('the tokens are distinct and in order', lt(f(ti, 'token_a'), f(ti, 'token_b')))
        for n, k in (('the total of LP shares', 'u32:0'), ('the reserve of the first token', 'u32:1'), ('the reserve of the second token', 'u32:2')):
            zero(n, 'persistent', k)
        p_('an LP token and a stake contract are deployed', B(len(deps) == 2))
        ds = {d[1]: d for d in deps}
        share, stake = f(c, 'share_token'), f(c, 'stake_contract')
        p_('the recorded LP token and stake contract are the ones deployed', B(share in ds and stake in ds and share is not stake))
        if not (share in ds and stake in ds and len(deps) == 2):
            return
        dt, dk = ds[share], ds[stake]
        p_('the LP token runs the code given', eq(dt[2], A[1]))
        p_('the stake contract runs the code given', eq(dk[2], A[0]))
        g = [dt[4].get(i) for i in range(4)]
        p_('the LP token is administered by the pool', eq(g[0], SELF))
        if key == 'pool':
            p_('the LP token has the decimals given', eq(g[1], A[4]))
        else:
            da, db = app('tok.decimals', (f(ti, 'token_a'),), 'u32'), app('tok.decimals', (f(ti, 'token_b'),), 'u32')
            top = ite(gt(da, db), da, db)
            p_('the LP token has the greater of the tokens\' decimals', eq(g[1], top))
            hp, vp = p.post('instance', 'u32:6', (), 'u32')
            p_('the greater precision is recorded', and_(hp, eq(vp, top)))
            for t, d in ((f(ti, 'token_a'), da), (f(ti, 'token_b'), db)):
                ht, vt = p.post('instance', '(u32:7,val)', (t,), 'u32')
                p_('each token\'s precision is recorded', and_(ht, eq(vt, d)))
        p_('the LP token has the name given', eqv(g[2], A[5]))
        p_('the LP token has the symbol given', eqv(g[3], A[6]))
        cs = fresh_calls(1)
        for x in cs:
            p_('the stake contract is initialised', and_(eq(x[2], stake), B(x[3] == 'initialize' and len(x[4]) == 7)))
            if len(x[4]) == 7:
                ws = [f(info, 'admin'), share, f(si, 'min_bond'), f(si, 'min_reward'), f(si, 'manager'), A[3], f(si, 'max_complexity')]
                for n, v, w in zip(STAKE_ARGS, x[4], ws):
                    p_('the stake contract gets its %s' % n, eqv(v, w))
    elif key == 'stake':
        struct('settings', 'persistent', 'sym:CONFIG', 'storage::Config', dict(zip(('lp_token', 'min_bond', 'min_reward', 'manager', 'owner', 'max_complexity'), A[1:])))
        p_('the minimums are positive and curves may have steps', and_(gt(A[2], 0), gt(A[3], 0), ne(A[6], 0)))
        zero('the total staked', 'persistent', 'u32:1')
        h, m = p.post('persistent', 'TotalStakedHistory', (), 'soroban_sdk::Map<u64, u128>')
        p_('the history of totals starts empty', and_(h, not_(m.has(app('any.day', (), 'u64')))))
    elif key == 'stake_rewards':
        struct('settings', 'persistent', 'sym:CONFIG', 'storage::Config', dict(zip(('staking_contract', 'reward_token', 'max_complexity', 'min_reward', 'min_bond'), A[1:])))
        h, d = p.post('persistent', 'Distribution', (A[2],), 'distribution::Distribution')
        p_('the distribution is recorded', h)
        for n in ('shares_leftover', 'distributed_total', 'withdrawable_total', 'max_bonus_bps', 'bonus_per_day_bps'):
            p_('the distribution starts with no %s' % n, eq(f(d, n), 0))
        h, c = p.post('persistent', 'Curve', (A[2],), 'curve::Curve')
        p_('nothing is locked at first', and_(h, tag_of(p.W, c, 'Constant'), eq(c.get('Constant', 0), 0)))
    elif key == 'factory':
        struct('settings', 'persistent', 'u32:1', 'storage::Config', {'admin': A[0], 'lp_wasm_hash': A[2], 'stake_wasm_hash': A[4], 'token_wasm_hash': A[5], 'lp_token_decimals': A[7]})
        h, c = p.post('persistent', 'u32:1', (), 'storage::Config')
        w, i = f(c, 'whitelisted_accounts'), app('any.index', (), 'u32')
        p_('the whitelist is the one given', and_(eq(w.len, A[6].len), implies(and_(le(0, i), lt(i, w.len)), eq(w.at(i), A[6].at(i)))))
        p_('the whitelist is not empty', gt(A[6].len, 0))
        stored('the stable pool code', 'persistent', 'sym:stabwasm', A[3], (), 'soroban_sdk::BytesN<32>')
        h, l = p.post('persistent', 'u32:2', (), 'soroban_sdk::Vec<soroban_sdk::Address>')
        p_('the list of pools starts empty', and_(h, eq(l.len, 0)))
        p_('one contract is deployed, from the multihop code given', and_(B(len(deps) == 1), *[eq(d[2], A[1]) for d in deps]))
        for d in deps:
            p_('it is recorded as the multihop contract', eq(f(c, 'multihop_address'), d[1]))
        cs = fresh_calls(1)
        for x in cs:
            p_('the multihop contract is initialised with the admin and this factory', and_(B(x[3] == 'initialize' and len(x[4]) == 2), *([eq(x[2], f(c, 'multihop_address')), eq(x[4][0], A[0]), eq(x[4][1], SELF)] if len(x[4]) == 2 else [])))
    elif key == 'multihop':
        stored('the factory', 'instance', 'FactoryKey', A[1], (), ADDR)
    elif key == 'trader':
        p_('the admin authorised it', p.auths(A[0]))
        stored('the name', 'persistent', 'ContractId', A[1])
        stored('the pair', 'persistent', 'Pair', A[2])
        stored('the output token', 'persistent', 'Token', A[3], (), ADDR)
    elif key == 'vesting':
        h, t = p.post('instance', 'u32:5', (), 'storage::VestingTokenInfo')
        p_('the token is recorded', h)
        for n in ('name', 'symbol', 'decimals', 'address'):
            p_('the token\'s %s is as given' % n, eqv(f(t, n), f(A[1], n)))
        stored('the complexity limit', 'instance', 'u32:6', A[2], (), 'u32')
        if e == 'initialize':
            p_('no minter is recorded', p.unchanged('instance', 'u32:3', 0, 'storage::MinterInfo'))
        else:
            struct('minter', 'instance', 'u32:3', 'storage::MinterInfo', {'address': f(A[3], 'address'), 'mint_capacity': f(A[3], 'mint_capacity')})
    elif key == 'token':
        h, m = p.post('instance', 'METADATA', (), 'soroban_token_sdk::metadata::TokenMetadata')
        p_('the metadata is recorded', h)
        for i, (n, w) in enumerate(zip(('decimals', 'name', 'symbol'), A[1:])):      # the token SDK's TokenMetadata
            p_('the token\'s %s is as given' % n, eqv(m.get(i), w))
        p_('at most 18 decimals', le(A[1], 18))
