"""Contracts of the multi-hop router (contracts/multihop)."""
from vc.check import *
from vc.terms import *
from vc.values import *
from vc import loops as lp, models, exec as ex
from spec.trader import changing_calls, same

ADDR = 'soroban_sdk::Address'


def chain_cand(ops, fld, rev=False):
    """candidate invariant: the first k pairs of consecutive hops fit together"""
    def cands(X, rec):
        def f(s, k, gh):
            return chained(X.W, ops, fld, k, rev)
        return [('spec chain', f)]
    return cands


def chained(W, ops, fld, n, rev):
    j = bvar('hop')
    a, b = fld(ops.at(j), 'offer_asset' if rev else 'ask_asset'), fld(ops.at(add(j, 1)), 'ask_asset' if rev else 'offer_asset')
    return forall(['hop'], implies(and_(le(0, j), lt(j, n), lt(add(j, 1), ops.len)), eq(a, b)))


def since(b, rec):
    i = max(n for n, t in enumerate(b.trace) if t[0] == 'loop' and t[1] is rec)
    return b.trace[i + 1:]


def out_ghost(con, amount, meth, fld):
    """ghost: the amount the previous hop returned (the first: the amount given)"""
    def g(X, rec, st):
        if not any(t[0] == 'call' and t[3] == meth for b in rec.backs for t in since(b, rec)):
            return []

        def step(rec, b, t):
            c = [x for x in since(b, rec) if x[0] == 'call' and x[3] == meth]
            if len(c) != 1:
                return fresh('unknown amount')
            return fld(c[0][5])
        return [lp.Ghost('amount', lambda rec, st: amount, step, 'i128')]
    return g


def C26(ck):
    con = ck.contract('multihop')
    f = con.entries['swap']
    W = con.W
    fld = lambda v, n: field(W, v, n)
    vals = [ex.sym(W, f.locals[a], 'arg.%d' % i) for i, a in enumerate(x for x in f.args if ex.lastseg(f.locals[x]) != 'Env')]
    rec_, ops, spread, amount, ptype, deadline, fee = vals
    lo = lp.AutoLoop(ghosts=[out_ghost(con, amount, 'swap', lambda r: r)], cands=[chain_cand(ops, fld)])
    R = con.run('swap', loops=lo, argv=dict(enumerate(vals)))
    ck.nonvacuous(R)
    for p in R.paths:
        p_ = lambda n, goal, hyps=(), steps=(), **k: ck.path(p, n, goal, list(hyps), steps, **k)
        p_('the recipient authorised it', p.auths(rec_))
        p_('the chain is not empty', gt(ops.len, 0))
        p_('each hop sells what the one before bought', chained(W, ops, fld, ops.len, False))
        p_('the router moves no tokens itself', B(not p.events('transfer', 'mint', 'burn')))
        quiet, busy = p.quiet_loops()
        p_('nothing is executed outside the hops', B(not changing_calls(p) and len(busy) == 1))
        for rec in busy:
            hops(ck, p, rec, ops, fld, 'swap', lambda b, hop, c, g: [
                ('the hop is for the recipient', eq(c[4][0], rec_)),
                ('the hop sells its own asset', eq(c[4][1], fld(hop, 'offer_asset'))),
                ('the hop sells exactly what the one before returned', eq(c[4][2], g)),
                ("the hop's minimum is passed on", same(p, c[4][3], fld(hop, 'ask_asset_min_amount'))),
                ('the spread limit is passed on', same(p, c[4][4], spread)),
                ('the deadline is passed on', same(p, c[4][5], deadline)),
                ('the fee limit is passed on', same(p, c[4][6], fee))], nargs=7)
    for e in sorted(con.entries):
        with ck.guard('multihop.' + e):
            if e == 'swap':
                continue
            R2 = con.run(e)
            for p in R2.paths:
                quiet, busy = p.quiet_loops()
                ck.path(p, 'moves no tokens and executes no swap', B(not p.events('transfer', 'mint', 'burn') and not changing_calls(p)
                        and not any(t[0] in ('transfer', 'mint', 'burn', 'call') and effect(t) for rec in busy for _, ev, _ in p.iterations(rec) for t in ev)))
    ck.assume_txt.append('a pool registered with the factory returns from swap the amount it paid to the recipient (proved for both pools: C01, C08)')


def hops(ck, p, rec, ops, fld, meth, goals, nargs):
    ck.path(p, 'every hop is executed', eq(rec.k, ops.len))
    its = p.iterations(rec)
    if not its:
        raise Undecided('no iteration')
    factory = p.pre('instance', 'FactoryKey', (), ADDR)[1]
    for i, (b, ev, hy) in enumerate(its):
        o = lambda n, g: ck.ob('%s: hop %d: %s' % (p.name, i, n), hy, g, p=p)
        cs = [t for t in ev if t[0] == 'call' and t[3] == meth]
        reg = [t for t in ev if t[0] == 'call' and t[3] == 'query_for_pool_by_token_pair']
        o('exactly one pool call, and nothing else', B(len(cs) == 1 and not [t for t in ev if effect(t) and t not in cs]))
        hop = ops.at(rec.k)
        for c in cs:
            o('the pool is the one registered for the pair of the hop',
              or_(*[and_(eq(c[2], r[5]), eq(r[2], factory), eq(r[4][0], fld(hop, 'offer_asset')), eq(r[4][1], fld(hop, 'ask_asset'))) for r in reg],
                  *[and_(eq(c[2], r[5]), eq(r[2], factory), eq(r[4][0], fld(hop, 'ask_asset')), eq(r[4][1], fld(hop, 'offer_asset'))) for r in reg]))
            if len(c[4]) != nargs:
                o('the pool call has the arguments of the interface', B(False))
                continue
            for n, g in goals(b, hop, c, rec.ghosts.get('amount', fresh('no amount'))):
                o(n, g)


def pooltype(con, n):
    d = con.W.typedef('factory_contract::PoolType')
    for vn, dd, fl in d[1]:
        if vn == n:
            return Enum('factory_contract::PoolType', lift(dd), {})
    raise Undecided('pool type ' + n)


def C27(ck):
    con = ck.contract('multihop')
    W = con.W
    fld = lambda v, n: field(W, v, n)
    for entry, meth, out, rev in (('simulate_swap', 'simulate_swap', 'ask_amount', False), ('simulate_reverse_swap', 'simulate_reverse_swap', 'offer_amount', True)):
        for kind in ('Xyk', 'Stable'):
            with ck.guard('%s of %s pools' % (entry, kind)):
                quote(ck, con, entry, meth, out, rev, kind, W, fld)


def quote(ck, con, entry, meth, out, rev, kind, W, fld):
    f = con.entries[entry]
    vals = [ex.sym(W, f.locals[a], 'arg.%d' % i) for i, a in enumerate(x for x in f.args if ex.lastseg(f.locals[x]) != 'Env')]
    vals[2] = pooltype(con, kind)
    ops, amount = vals[0], vals[1]

    def lists(X, rec):
        """candidate: a list that grows by one element per hop holds what the pool quoted for that hop"""
        cs = [x for b in rec.backs for x in since(b, rec) if x[0] == 'call' and x[3] == meth]
        if len(cs) != 1 or len(rec.backs) != 1:
            return []
        ret = cs[0][5]
        out_ = []
        for name, get, knd in rec.leaves:
            if knd != 'vec':
                continue
            v = get(rec.gen)
            for n in ('commission_amount', 'spread_amount'):
                def g(s, k, gh, get=get, n=n):
                    v = get(s)
                    if is_int(lift(k)) and ival(lift(k)) == 0:
                        return eq(v.len, 0)
                    j = bvar('q%d' % next(tm._cnt))
                    e = v.at(j)
                    e = e.get(1) if isinstance(e, Struct) else e
                    return and_(eq(v.len, k), forall([j.args[0]], implies(and_(le(0, j), lt(j, k)), eq(e, rec.at(fld(ret, n), j)))))
                out_.append(('spec %s lists %s' % (name, n), g))
        for name, get, knd in rec.leaves:
            if knd == 'int':
                out_.append(('spec %s is the last quote' % name, lambda s, k, gh, get=get: or_(eq(k, 0), eq(get(s), gh['amount']))))
        return out_
    lo = lp.AutoLoop(ghosts=[out_ghost(con, amount, meth, lambda r: fld(r, out))], cands=[chain_cand(ops, fld, rev), lists])
    R = con.run(entry, loops=lo, argv=dict(enumerate(vals)), tag=kind)
    R.name += ' (%s)' % kind
    ck.nonvacuous(R)
    for p in R.paths:
        p.name = R.name + '/%d' % p.i
        p_ = lambda n, goal, hyps=(), steps=(), **k: ck.path(p, n, goal, list(hyps), steps, **k)
        p_('the chain is not empty', gt(ops.len, 0))
        p_('each hop fits the one before', chained(W, ops, fld, ops.len, rev))
        p_('nothing changes', p.no_state_change())
        hopl = [rec for rec in p.loops() if any(t[0] == 'call' and t[3] == meth for _, ev, _ in p.iterations(rec) for t in ev)]
        p_('the pools are asked in one pass over the chain', B(len(hopl) == 1 and not p.calls(meth)))
        for rec in hopl:
            asset = 'offer_asset' if kind == 'Stable' or not rev else 'ask_asset'
            hops(ck, p, rec, ops, fld, meth, lambda b, hop, c, g: [
                ('the pool is asked about the asset of the hop', eq(c[4][0], fld(hop, asset))),
                ('the pool is asked for exactly the amount of the hop before', eq(c[4][1], g))], nargs=2)
            p_('the amount of the last hop is reported', eq(fld(p.ret, out), rec.ghosts['amount']))
            cs = [x for b in rec.backs for x in since(b, rec) if x[0] == 'call' and x[3] == meth]
            com, spr = fld(p.ret, 'commission_amounts'), fld(p.ret, 'spread_amount')
            p_('one commission and one spread per hop', and_(eq(com.len, ops.len), eq(spr.len, ops.len)))
            j = app('any.hop')
            r = cs[0][5]
            p_('the commission of every hop is listed', eq(com.at(j).get(1), rec.at(fld(r, 'commission_amount'), j)), [le(0, j), lt(j, ops.len)])
            p_('the spread of every hop is listed', eq(spr.at(j), rec.at(fld(r, 'spread_amount'), j)), [le(0, j), lt(j, ops.len)])
