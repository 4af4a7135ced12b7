"""Contracts of settings, administration and initialisation, in every contract of the system."""
from vc.check import *
from vc.terms import *
from vc.values import *
from spec.pool import PoolView, POOLS, runopts, amp_settled, tvar, U
from vc import loops as lp, models

ADDR = 'soroban_sdk::Address'
# protected settings of each contract: (durability, key, number of key parts, type)
SETTINGS = {
    'pool': [('persistent', 'u32:3', 0, ADDR), ('persistent', 'sym:CONFIG', 0, None), ('persistent', 'sym:DSLIPBPS', 0, 'i64')],
    'pool_stable': [('instance', 'u32:3', 0, ADDR), ('persistent', 'sym:CONFIG', 0, None), ('instance', 'u32:5', 0, None),
                    ('instance', 'u32:6', 0, 'u32'), ('instance', '(u32:7,val)', 1, 'u32')],
    'stake': [('persistent', 'u32:0', 0, ADDR), ('persistent', 'sym:CONFIG', 0, None)],
    'stake_rewards': [('persistent', 'u32:1', 0, ADDR), ('persistent', 'sym:CONFIG', 0, None), ('persistent', 'Curve', 1, None)],
    'factory': [('persistent', 'u32:1', 0, None), ('persistent', 'sym:stabwasm', 0, None)],
    'multihop': [('instance', 'Admin', 0, ADDR), ('instance', 'FactoryKey', 0, ADDR)],
    'trader': [('persistent', 'Admin', 0, ADDR), ('persistent', 'ContractId', 0, None), ('persistent', 'Pair', 0, None), ('persistent', 'Token', 0, ADDR)],
    'vesting': [('persistent', 'u32:1', 0, ADDR), ('instance', 'u32:5', 0, None), ('instance', 'u32:6', 0, 'u32')],
    'token': [('instance', 'Admin', 0, ADDR), ('instance', 'METADATA', 0, None)],
}
ADMIN = {'pool': ('persistent', 'u32:3'), 'pool_stable': ('instance', 'u32:3'), 'stake': ('persistent', 'u32:0'),
         'stake_rewards': ('persistent', 'u32:1'), 'multihop': ('instance', 'Admin'), 'trader': ('persistent', 'Admin'),
         'vesting': ('persistent', 'u32:1'), 'token': ('instance', 'Admin')}
FLAG = {'pool': ('persistent', 'u32:4'), 'pool_stable': ('persistent', 'u32:4'), 'stake': ('instance', 'u32:3'),
        'stake_rewards': ('persistent', 'u32:0'), 'factory': ('persistent', 'u32:3'), 'multihop': ('persistent', 'Initialized'),
        'trader': ('persistent', 'IsInitialized'), 'vesting': ('instance', 'u32:7')}
INIT = re.compile(r'^(initialize|initialize_with_\w+|__constructor)$')


def options(key):
    if key in POOLS:
        return runopts(key)
    return {'contracts': {'*': lp.Pure(True)}}


def all_runs(ck, key):
    """every entry point of the contract, each for arbitrary arguments and storage"""
    con = ck.contract(key)
    out = []
    for e in sorted(con.entries):
        with ck.guard('%s.%s' % (key, e)):
            out.append((e, con.run(e, **options(key))))
    if con.types:
        for dur, k, n, ty in SETTINGS[key] + [FLAG.get(key, (None, None)) + (0, None)]:
            if k is not None and not any(c == k for _, c in con.types):
                ck.undecided.append('%s: storage key %s of the specification is not used by the code' % (key, k))
    return con, out


def admin_of(key, p):
    if key == 'factory':
        h, c = p.pre('persistent', 'u32:1', (), 'storage::Config')
        return p.f(c, 'admin')
    return p.pre(*ADMIN[key], (), ADDR)[1]


def C12(ck):
    for key in SETTINGS:
        con, runs = all_runs(ck, key)
        for e, R in runs:
            if INIT.match(e):
                continue
            for p in R.paths:
                adm = p.auths(admin_of(key, p))
                if p.events('upgrade'):
                    ck.path(p, 'the code is replaced by the admin only', adm)
                for dur, k, n, ty in SETTINGS[key]:
                    g = p.unchanged(dur, k, n, ty)
                    if g is not TRUE:
                        ck.path(p, 'setting %s changes by the admin only' % k, or_(adm, g))
                    else:
                        ck.path(p, 'setting %s is not touched' % k, g)
                if key == 'vesting':
                    h, m = p.pre('instance', 'u32:3', (), 'storage::MinterInfo')
                    h2, m2 = p.post('instance', 'u32:3', (), 'storage::MinterInfo')
                    cur = p.f(m, 'address')
                    ck.path(p, 'the minter is replaced by the minter, or by the admin when there is none',
                            or_(and_(iff(h, h2), implies(h, eq(p.f(m2, 'address'), cur))), ite(h, p.auths(cur), adm)))


def C13(ck):
    for key in FLAG:
        con, runs = all_runs(ck, key)
        dur, k = FLAG[key]
        for e, R in runs:
            if INIT.match(e):
                ck.nonvacuous(R)
            for p in R.paths:
                h, v = p.pre(dur, k, (), 'bool')
                h2, v2 = p.post(dur, k, (), 'bool')
                v, v2 = as_b(v), as_b(v2)
                if INIT.match(e):
                    ck.path(p, 'succeeds only while not initialised', not_(and_(h, v)))
                    ck.path(p, 'leaves the contract initialised', and_(h2, v2))
                else:
                    ck.path(p, 'never makes the contract uninitialised', implies(and_(h, v), and_(h2, v2)))
    # the token is initialised by its constructor, which the host runs once, at deployment


def as_b(v):
    v = lift(v)
    return v if v.sort == BOOL else ne(v, 0)


FIELDS = ['total_fee_bps', 'fee_recipient', 'max_allowed_slippage_bps', 'max_allowed_spread_bps']
BPS = ['total_fee_bps', 'max_allowed_slippage_bps', 'max_allowed_spread_bps']


def valid(x):
    return and_(le(0, x), le(x, 10000))


def C11(ck):
    for key in POOLS:
        con, runs = all_runs(ck, key)
        fields = FIELDS + (['max_referral_bps'] if key == 'pool' else [])
        bps = BPS + (['max_referral_bps'] if key == 'pool' else [])
        for e, R in runs:
            for p in R.paths:
                h, c = p.pre('persistent', 'sym:CONFIG', (), 'storage::Config')
                h2, c2 = p.post('persistent', 'sym:CONFIG', (), 'storage::Config')
                old = [valid(p.f(c, n)) for n in bps]
                if key == 'pool':
                    hd, d = p.pre('persistent', 'sym:DSLIPBPS', (), 'i64')
                    hd2, d2 = p.post('persistent', 'sym:DSLIPBPS', (), 'i64')
                    old.append(implies(hd, valid(d)))
                hy = [] if INIT.match(e) else old
                for n in bps:
                    ck.path(p, '%s stays between 0 and 100 percent' % n, valid(p.f(c2, n)), hy)
                if key == 'pool':
                    ck.path(p, 'the default slippage stays between 0 and 100 percent', implies(hd2, valid(d2)), hy)
                adm = p.pre(*ADMIN[key], (), ADDR)[1]
                _, adm2 = p.post(*ADMIN[key], (), ADDR)
                if key == 'pool_stable':
                    a, a2 = p.pre('instance', 'u32:5', (), 'storage::AmplifierParameters')[1], p.post('instance', 'u32:5', (), 'storage::AmplifierParameters')[1]
                if INIT.match(e):
                    info = R.args[2]
                    g = lambda n: p.f(info, n)
                    want = {'total_fee_bps': g('swap_fee_bps'), 'fee_recipient': g('fee_recipient'), 'max_allowed_slippage_bps': g('max_allowed_slippage_bps'),
                            'max_allowed_spread_bps': g('max_allowed_spread_bps'), 'max_referral_bps': g('max_referral_bps')}
                    for n in fields:
                        ck.path(p, '%s is recorded as given' % n, eq(p.f(c2, n), want[n]))
                    ck.path(p, 'the admin is recorded as given', eq(adm2, g('admin')))
                    ck.path(p, 'the fee is within the maximum given', le(g('swap_fee_bps'), R.args[8]))
                    ti = g('token_init_info')
                    for n in ('token_a', 'token_b'):
                        ck.path(p, '%s is recorded as given' % n, eq(p.f(c2, n), p.f(ti, n)))
                    if key == 'pool':
                        ck.path(p, 'the default slippage is recorded as given', eq(d2, R.args[7]))
                    else:
                        f = lambda n: p.f(a2, n)
                        ck.path(p, 'the amplification is recorded as given, times 100, without a ramp',
                                and_(eq(f('init_amp'), mul(R.args[7], 100)), eq(f('next_amp'), f('init_amp')), eq(f('init_amp_time'), NOW), eq(f('next_amp_time'), NOW)))
                        ck.path(p, 'the amplification is positive', gt(f('next_amp'), 0))
                    continue
                gate = p.auths(adm)
                if e == 'update_config':
                    na, fee, rec, sl, sp = R.args[1 if key == 'pool_stable' else 0:][:5]
                    given_ = [('total_fee_bps', fee), ('fee_recipient', rec), ('max_allowed_slippage_bps', sl), ('max_allowed_spread_bps', sp)]
                    if key == 'pool':
                        given_.append(('max_referral_bps', R.args[5]))
                    ck.path(p, 'the admin authorised it', gate)
                    for n, o in given_:
                        ck.path(p, '%s becomes the value given, or stays' % n, eq(p.f(c2, n), ite(given(o), val(o), p.f(c, n))))
                    ck.path(p, 'the admin becomes the one given, or stays', eq(adm2, ite(given(na), val(na), adm)))
                    for n in ('token_a', 'token_b', 'share_token', 'stake_contract'):
                        ck.path(p, '%s stays' % n, eq(p.f(c2, n), p.f(c, n)))
                    if key == 'pool':
                        ck.path(p, 'the default slippage stays', p.unchanged('persistent', 'sym:DSLIPBPS', 0, 'i64'))
                    else:
                        ck.path(p, 'the amplification stays', p.unchanged('instance', 'u32:5', 0))
                    continue
                ck.path(p, 'the settings stay', p.unchanged('persistent', 'sym:CONFIG', 0))
                ck.path(p, 'the admin stays', p.unchanged(*ADMIN[key], 0, ADDR))
                if key == 'pool':
                    same = p.unchanged('persistent', 'sym:DSLIPBPS', 0, 'i64')
                    if e == 'upgrade':
                        ck.path(p, 'the default slippage becomes the value the admin gives', and_(gate, eq(d2, R.args[1])))
                    else:
                        ck.path(p, 'the default slippage stays', same)
                else:
                    ck.path(p, 'the amplification stays', p.unchanged('instance', 'u32:5', 0))
                    ck.path(p, 'the recorded decimals stay', and_(p.unchanged('instance', 'u32:6', 0, 'u32'), p.unchanged('instance', '(u32:7,val)', 1, 'u32')))
