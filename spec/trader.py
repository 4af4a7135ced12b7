"""Contracts of the trader contract (contracts/trader)."""
from vc.check import *
from vc.terms import *
from vc.values import *
from vc import exec as ex, models

ADDR = 'soroban_sdk::Address'


def changing_calls(p):
    return [t for t in p.calls() if not models.READ_ONLY.match(t[3])]


def same(p, a, b):
    return ex.veq(p.W, a, b)


def C28(ck):
    con = ck.contract('trader')
    runs = [(e, con.run(e)) for e in sorted(con.entries)]
    for e, R in runs:
        ck.nonvacuous(R)
        A = R.args
        for p in R.paths:
            p_ = lambda n, goal, hyps=(), steps=(), **k: ck.path(p, n, goal, list(hyps), steps, **k)
            adm = p.pre('persistent', 'Admin', (), ADDR)[1]
            calls = changing_calls(p)
            if e == 'trade_token':
                sender, tok, pool, amount, spread, deadline, amin, fee = A
                p_('the admin authorised it', and_(p.auths(adm), eq(sender, adm)))
                pair = p.pre('persistent', 'Pair')[1]
                p_('the token sold is one of the pair', or_(eq(tok, pair.get(0)), eq(tok, pair.get(1))))
                p_('the spread asked for is a valid percentage', opt(spread, lambda s: and_(ge(s, 0), le(s, 10000))))
                p_('exactly one trade is made', eq(len(calls), 1))
                for c in calls:
                    want = ite(given(amount), val(amount), p.bal0(tok, sender))
                    p_('the trade goes to the pool given', and_(eq(c[2], pool), B(c[3] == 'swap')))
                    p_('the trade is the one asked for', and_(B(len(c[4]) == 7), *([eq(c[4][0], SELF), eq(c[4][1], tok), eq(c[4][2], want), same(p, c[4][3], amin),
                                                              same(p, c[4][4], spread), same(p, c[4][5], deadline), same(p, c[4][6], fee)] if len(c[4]) == 7 else [])))
                p_('no token moves otherwise', p.moves_nothing())
            elif e == 'transfer':
                sender, rec, amt, tok = A
                t = ite(given(tok), val(tok), p.pre('persistent', 'Token', (), ADDR)[1])
                p_('the admin authorised it', and_(p.auths(adm), eq(sender, adm)))
                ts = p.events('transfer')
                p_('one transfer', eq(len(ts) + len(p.events('mint', 'burn')), 1))
                for x in ts:
                    p_('exactly the amount of that token goes from the contract to the recipient', and_(eq(x[1], t), eq(x[2], SELF), eq(x[3], rec), eq(x[4], amt)))
                p_('nothing else is called', B(not calls))
            else:
                p_('no token moves', p.moves_nothing())
                p_('nothing else is called', B(not calls))
                if e == 'initialize':
                    p_('the admin authorised it', p.auths(A[0]))
                    p_('the settings are recorded as given', and_(eq(p.post('persistent', 'Admin', (), ADDR)[1], A[0]), same(p, p.post('persistent', 'Pair')[1], A[2]),
                                                                eq(p.post('persistent', 'Token', (), ADDR)[1], A[3])))
            if e != 'initialize':
                p_('the settings stay', and_(*[p.unchanged('persistent', k, 0) for k in ('Admin', 'Pair', 'Token')]))
