"""Contracts of the factory (contracts/factory)."""
from vc.check import *
from vc.terms import *
from vc.values import *
from vc import exec as ex, loops as lp, models, smt
from spec.trader import changing_calls, same

ADDR = 'soroban_sdk::Address'
CONFIG = ('persistent', 'u32:1')
LIST = ('persistent', 'u32:2')
PAIR = ('persistent', '{token_a,token_b}')
STABLE = ('persistent', 'sym:stabwasm')
ANY = app('any.account')


# ------------------------------------------------------------------ membership in a list of addresses
def member(v, z, n=None):
    """z is one of the (first n) elements of v"""
    if n is None and v.tag:
        if v.tag[0] == 'push':
            return or_(member(v.tag[1], z), eq(v.tag[2], z))
        if v.tag[0] == 'ite':
            return ite(v.tag[1], member(v.tag[2], z), member(v.tag[3], z))
        if v.tag[0] == 'append':
            return or_(member(v.tag[1], z), member(v.tag[2], z))
        if v.tag[0] == 'remove':
            w, i = v.tag[1], v.tag[2]
            j = bvar('m%d' % next(tm._cnt))
            return exists([j.args[0]], and_(le(0, j), lt(j, w.len), ne(j, i), eq(w.at(j), z)))
    if n is None and v.items is not None:
        return or_(*[eq(x, z) for x in v.items])
    j = bvar('m%d' % next(tm._cnt))
    return exists([j.args[0]], and_(le(0, j), lt(j, v.len if n is None else n), eq(v.at(j), z)))


def membership(args):
    """candidates about the membership of one arbitrary account while lists of accounts are worked through"""
    def cands(X, rec):
        out = []
        for name, get, kind in rec.leaves:
            if kind != 'vec':
                continue
            v0 = get(rec.entry)
            if not isinstance(v0, SVec) or v0.ety is None or ex.lastseg(v0.ety) != 'Address':
                continue

            def c(n, rel, get=get, v0=v0, name=name):
                out.append(('spec %s: %s' % (name, n), lambda s, k, gh: rel(member(get(s), ANY), member(v0, ANY), k)))
            c('members stay', lambda m, m0, k: implies(m0, m))
            c('no new members', lambda m, m0, k: implies(m, m0))
            for src in [it.info[1] for it in rec.iters if it.info and it.info[0] == 'vec' and not it.maps and it.info[1].ety and ex.lastseg(it.info[1].ety) == 'Address']:
                c('the list worked through is taken over', lambda m, m0, k, src=src: iff(m, or_(m0, member(src, ANY, k))))
                for i, a in enumerate(args):
                    if isinstance(a, SVec) and a is not src:
                        c('the list worked through is taken over, without list %d' % i,
                          lambda m, m0, k, src=src, a=a: iff(m, or_(m0, and_(member(src, ANY, k), not_(member(a, ANY))))))
            for i, a in enumerate(args):
                if not isinstance(a, SVec):
                    continue
                c('list %d is added' % i, lambda m, m0, k, a=a: iff(m, or_(m0, member(a, ANY, k))))
                c('list %d is taken out' % i, lambda m, m0, k, a=a: iff(m, and_(m0, not_(member(a, ANY, k)))))
                nm = a.at(app('any.index')).args[0]
                for x in {u for b in rec.backs for u in subterms(b.pc) if u.op == 'app' and u.args[0] == nm and not smt.CTX._has_bvar(u)
                          and rec.k not in subterms([u])}:
                    c('only the account in hand is affected (list %d)' % i, lambda m, m0, k, x=x: implies(ne(x, ANY), iff(m, m0)))
        return out
    return cands


def config(p, post=False):
    return (p.post if post else p.pre)(*CONFIG, (), 'storage::Config')[1]


def C25(ck):
    con = ck.contract('factory')
    W = con.W
    for e in sorted(con.entries):
        with ck.guard('factory.' + e):
            f = con.entries[e]
            vals = [ex.sym(W, f.locals[a], 'arg.%d' % i) for i, a in enumerate(x for x in f.args if ex.lastseg(f.locals[x]) != 'Env')]
            R = con.run(e, loops=lp.AutoLoop(cands=[membership(vals)]), argv=dict(enumerate(vals)))
            ck.nonvacuous(R)
            for p in R.paths:
                one(ck, con, e, R, p)


def one(ck, con, e, R, p):
    A = R.args
    p_ = lambda n, goal, hyps=(), steps=(), **k: ck.path(p, n, goal, list(hyps), steps, **k)
    f = lambda v, n: field(p.W, v, n)
    had, c0 = p.pre(*CONFIG, (), 'storage::Config')
    has, c1 = p.post(*CONFIG, (), 'storage::Config')
    shad, s0 = p.pre(*STABLE, (), 'soroban_sdk::BytesN<32>')
    shas, s1 = p.post(*STABLE, (), 'soroban_sdk::BytesN<32>')
    names = [n for n, _ in p.W.typedef('storage::Config')[1]]
    hashes = ('lp_wasm_hash', 'stake_wasm_hash', 'token_wasm_hash')
    if e == 'initialize':
        adm, mh, lph, sth, skh, toh, wl, dec = A
        p_('the whitelist given is not empty', gt(wl.len, 0))
        p_('the settings are recorded as given', and_(has, eq(f(c1, 'admin'), adm), eq(f(c1, 'lp_wasm_hash'), lph), eq(f(c1, 'stake_wasm_hash'), skh),
                                                      eq(f(c1, 'token_wasm_hash'), toh), eq(f(c1, 'lp_token_decimals'), dec)))
        p_('the stable pool code is recorded as given', and_(shas, eq(s1, sth)))
        p_('exactly the accounts given are whitelisted', iff(member(f(c1, 'whitelisted_accounts'), ANY), member(wl, ANY)))
        return
    if e == 'update_whitelisted_accounts':
        sender, add_, rem = A
        p_('the stored admin authorised it', and_(had, p.auths(f(c0, 'admin'))))
        p_('the whitelist is what it was, plus the accounts to add, minus the accounts to remove',
           and_(has, iff(member(f(c1, 'whitelisted_accounts'), ANY), and_(or_(member(f(c0, 'whitelisted_accounts'), ANY), member(add_, ANY)), not_(member(rem, ANY))))))
        for n in names:
            if n != 'whitelisted_accounts':
                p_('%s stays' % n, ex.veq(p.W, f(c1, n), f(c0, n)))
        p_('the stable pool code stays', p.unchanged(*STABLE, 0, 'soroban_sdk::BytesN<32>'))
        return
    if e == 'update_wasm_hashes':
        p_('the stored admin authorised it', and_(had, p.auths(f(c0, 'admin'))))
        for n, a in zip(hashes, A):
            p_('%s is the one given, or stays' % n, and_(has, eq(f(c1, n), ite(given(a), val(a), f(c0, n)))))
        for n in names:
            if n not in hashes:
                p_('%s stays' % n, ex.veq(p.W, f(c1, n), f(c0, n)))
        p_('the stable pool code stays', p.unchanged(*STABLE, 0, 'soroban_sdk::BytesN<32>'))
        return
    p_('the settings and the whitelist stay', p.unchanged(*CONFIG, 0, 'storage::Config'))
    if e == 'update':
        p_('the stored admin authorised it', and_(had, p.auths(f(c0, 'admin'))))
        p_('the stable pool code is the one given', and_(shas, eq(s1, A[1])))
        ups = p.events('upgrade')
        p_('the code is replaced by the one given', and_(B(len(ups) == 1), *[eq(u[1], A[0]) for u in ups]))
    else:
        p_('the stable pool code stays', p.unchanged(*STABLE, 0, 'soroban_sdk::BytesN<32>'))
        p_('the code stays', B(not p.events('upgrade')))


# ------------------------------------------------------------------ creating and finding pools
def lookup(p, a, b, post):
    """what a lookup of the pair finds: the entry for the pair as given, otherwise the one for the other order"""
    rd = p.post if post else p.pre
    h1, v1 = rd(*PAIR, (a, b), ADDR)
    h2, v2 = rd(*PAIR, (b, a), ADDR)
    return or_(h1, h2), ite(h1, v1, v2)


def ordered(p, a, b):
    """invariant of the registry, proved for every entry point: only ordered pairs are recorded"""
    return implies(p.pre(*PAIR, (a, b), ADDR)[0], lt(a, b))


def C24(ck):
    con = ck.contract('factory')
    W = con.W
    x, y, i = app('any.token.1'), app('any.token.2'), app('any.index', (), 'u32')
    for e in sorted(con.entries):
        with ck.guard('factory.' + e):
            R = con.run(e)
            ck.nonvacuous(R)
            for p in R.paths:
                p_ = lambda n, goal, hyps=(), steps=(), **k: ck.path(p, n, goal, list(hyps), steps, **k)
                f = lambda v, n: field(p.W, v, n)
                p_('only ordered pairs are recorded', implies(p.post(*PAIR, (x, y), ADDR)[0], lt(x, y)), [ordered(p, x, y)])
                if e == 'create_liquidity_pool':
                    create(ck, con, R, p, x, y, i)
                    continue
                p_('no recorded pool changes', p.unchanged(*PAIR, 2, ADDR))
                if e == 'query_for_pool_by_token_pair':
                    h, v = lookup(p, R.args[0], R.args[1], False)
                    p_('the pool recorded for the pair in either order is found', and_(h, eq(p.ret, v)))
                if e == 'initialize':
                    p_('the list of pools starts empty', and_(p.post(*LIST)[0], eq(p.post(*LIST)[1].len, 0)))
                else:
                    p_('the list of pools stays', p.unchanged(*LIST, 0, 'soroban_sdk::Vec<soroban_sdk::Address>'))
                    p_('no contract is deployed', B(not p.events('deploy')))
                if e == 'query_pools':
                    l = p.pre(*LIST)[1]
                    p_('the list of pools is reported', and_(eq(p.ret.len, l.len), implies(and_(le(0, i), lt(i, l.len)), eq(p.ret.at(i), l.at(i)))))


def create(ck, con, R, p, x, y, i):
    p_ = lambda n, goal, hyps=(), steps=(), **k: ck.path(p, n, goal, list(hyps), steps, **k)
    f = lambda v, n: field(p.W, v, n)
    sender, info, name, sym, ptype, amp, slip, fee = R.args
    cfg = config(p)
    tok, stk = f(info, 'token_init_info'), f(info, 'stake_init_info')
    a, b = f(tok, 'token_a'), f(tok, 'token_b')
    stable = tag_of(p.W, ptype, 'Stable')
    p_('the caller authorised it', p.auths(sender))
    p_('the caller is whitelisted', and_(p.pre(*CONFIG)[0], member(f(cfg, 'whitelisted_accounts'), sender)))
    for n in ('swap_fee_bps', 'max_allowed_slippage_bps', 'max_allowed_spread_bps', 'max_referral_bps'):
        p_('%s is a valid percentage' % n, and_(ge(f(info, n), 0), le(f(info, n), 10000)))
    p_('the default slippage is a valid percentage', and_(ge(slip, 0), le(slip, 10000)))
    p_('the fee limit is a valid percentage', and_(ge(fee, 0), le(fee, 10000)))
    p_('the tokens are ordered and distinct', lt(a, b))
    p_('the stake minimums are positive', and_(gt(f(stk, 'min_bond'), 0), gt(f(stk, 'min_reward'), 0)))
    p_('a stable pool has an amplification', implies(stable, given(amp)))
    deps = p.events('deploy')
    p_('exactly one contract is deployed', B(len(deps) == 1))
    if len(deps) != 1:
        return
    _, pool, code, salt, dargs = deps[0]
    p_('it runs the code stored for its type', eq(code, ite(stable, p.pre(*STABLE, (), 'soroban_sdk::BytesN<32>')[1], f(cfg, 'lp_wasm_hash'))))
    # the address of the deployed contract is a function of this contract and the salt; the host refuses an address twice
    other = {}
    ts = [t for t in (salt if isinstance(salt, (list, tuple)) else [salt]) if isinstance(t, T)]
    for u in subterms(ts):
        if u.op == 'app' and u not in (a, b) and len(u.args) == 1 and u.args[0] != 'self':
            other[u] = app('another.' + u.args[0], (), tm.APP_TYPE.get(u.args[0]))
    p_('a second pool for the same pair would have the same address (which the host refuses)', and_(*[eq(t, subst(t, other)) for t in ts]))
    p_('the address depends on the pair', B(any(a in subterms([t]) for t in ts) and any(b in subterms([t]) for t in ts)))
    calls = changing_calls(p)
    p_('only the new pool is called, to initialise it', and_(B(len(calls) == 1), *[and_(eq(c[2], pool), B(c[3] == 'initialize')) for c in calls]))
    for c in calls:
        last = [slip, fee] if False else None
        want = [f(cfg, 'stake_wasm_hash'), f(cfg, 'token_wasm_hash'), info, SELF, f(cfg, 'lp_token_decimals'), name, sym, None, fee]
        g = c[4]
        p_('the pool is initialised with nine parameters', B(len(g) == 9))
        if len(g) != 9:
            continue
        for n, v, w in zip(('stake code', 'token code', 'pool parameters', 'factory', 'share decimals', 'share name', 'share symbol', '', 'fee limit'), g, want):
            if w is not None:
                p_('the pool is initialised with the %s' % n, ex.veq(p.W, v, w))
        p_('the pool is initialised with the default slippage or the amplification', eq(g[7], ite(stable, val(amp), slip)))
    l0, l1 = p.pre(*LIST)[1], p.post(*LIST)[1]
    p_('the pool is appended to the list of pools', and_(p.post(*LIST)[0], eq(l1.len, add(l0.len, 1)), eq(l1.at(l0.len), pool)))
    p_('the other pools of the list stay', eq(l1.at(i), l0.at(i)), [le(0, i), lt(i, l0.len)])
    for s, t, o in ((a, b, 'the given order'), (b, a, 'the other order')):
        h, v = lookup(p, s, t, True)
        p_('the pool is found for the pair in %s' % o, and_(h, eq(v, pool)), [ordered(p, a, b), ordered(p, b, a)])
    p_('the entry of any other pair stays', and_(iff(p.post(*PAIR, (x, y), ADDR)[0], p.pre(*PAIR, (x, y), ADDR)[0]), eq(p.post(*PAIR, (x, y), ADDR)[1], p.pre(*PAIR, (x, y), ADDR)[1])),
       [or_(ne(x, a), ne(y, b))])
    p_('the pool is returned', eq(p.ret, pool))
    p_('no token moves', p.moves_nothing())
