"""Contracts of the LP and reward token (contracts/token)."""
from vc.check import *
from vc.terms import *
from vc.values import *
from vc import loops as lp, models

ADDR = 'soroban_sdk::Address'
SEQ = app('sequence', (), 'u32')


class TokenView:
    def __init__(self, p):
        self.p = p
        self.admin = p.pre('instance', 'Admin', (), ADDR)[1]

    def bal(self, who, post=False):
        h, v = (self.p.post if post else self.p.pre)('persistent', 'Balance', (who,), 'i128')
        return ite(h, v, 0)

    def allow(self, frm, sp, post=False):
        """allowance in force: nothing when there is none or it has expired"""
        h, v = (self.p.post if post else self.p.pre)('temporary', 'Allowance', (frm, sp), 'storage_types::AllowanceValue')
        return ite(and_(h, ge(self.p.f(v, 'expiration_ledger'), SEQ)), self.p.f(v, 'amount'), 0)

    def raw(self, frm, sp):
        h, v = self.p.pre('temporary', 'Allowance', (frm, sp), 'storage_types::AllowanceValue')
        return ite(h, self.p.f(v, 'amount'), 0)


def on(c, x):
    return ite(c, x, 0)


def C14(ck):
    con = ck.contract('token')
    z, s = app('any.holder'), app('any.spender')
    runs = [(e, con.run(e)) for e in sorted(con.entries)]
    for e, R in runs:
        ck.nonvacuous(R)
        A = R.args
        for p in R.paths:
            v = TokenView(p)
            # contract invariant: no negative balance, no negative allowance (proved for every entry below)
            hy = [ge(v.bal(w), 0) for w in [z] + [a for a in A if isinstance(a, T)]] + [ge(v.raw(z, s), 0)]
            p_ = lambda n, goal, hyps=(), steps=(), **k: ck.path(p, n, goal, hy + list(hyps), steps, **k)
            b, b2 = v.bal(z), v.bal(z, True)
            al, al2 = v.allow(z, s), v.allow(z, s, True)
            p_('balances stay non-negative', ge(b2, 0))
            p_('allowances stay non-negative', ge(al2, 0))
            if e == '__constructor':
                p_('the admin is recorded', eq(p.post('instance', 'Admin', (), ADDR)[1], A[0]))
                p_('at most 18 decimals', le(A[1], 18))
                p_('balances stay', eq(b2, b))
                p_('allowances stay', eq(al2, al))
                continue
            delta, dal, amt = I(0), None, None
            if e in ('transfer', 'transfer_from', 'burn', 'burn_from'):
                by = e.endswith('_from')
                frm = A[1] if by else A[0]
                to = {'transfer': 1, 'transfer_from': 2}.get(e)
                amt = A[-1]
                delta = sub(on(eq(z, A[to]), amt) if to is not None else 0, on(eq(z, frm), amt))
                if by:
                    p_('the spender authorised it', p.auths(A[0]))
                    p_('the amount is within the unexpired allowance', le(amt, v.allow(frm, A[0])))
                    p_('the allowance shrinks by exactly the amount', eq(v.allow(frm, A[0], True), sub(v.allow(frm, A[0]), amt)))
                    dal = and_(eq(z, frm), eq(s, A[0]))
                else:
                    p_('the holder authorised it', p.auths(frm))
                p_('the amount is within the balance', le(amt, v.bal(frm)))
            elif e == 'mint':
                amt = A[1]
                delta = on(eq(z, A[0]), amt)
                p_('the admin authorised it', p.auths(v.admin))
            elif e == 'approve':
                amt = A[2]
                p_('the holder authorised it', p.auths(A[0]))
                p_('the allowance becomes the amount given', eq(v.allow(A[0], A[1], True), amt), [ge(A[3], SEQ)])
                p_('an expired approval gives nothing', eq(v.allow(A[0], A[1], True), 0), [lt(A[3], SEQ)])
                h2, w2 = p.post('temporary', 'Allowance', (A[0], A[1]), 'storage_types::AllowanceValue')
                p_('it expires when stated', and_(h2, eq(p.f(w2, 'expiration_ledger'), A[3])))
                dal = and_(eq(z, A[0]), eq(s, A[1]))
            elif e == 'balance':
                p_('reports the balance', eq(p.ret, v.bal(A[0])))
            elif e == 'allowance':
                p_('reports the allowance in force', eq(p.ret, v.allow(A[0], A[1])))
            elif e == 'set_admin':
                p_('the admin authorised it', p.auths(v.admin))
                p_('the new admin is recorded', eq(p.post('instance', 'Admin', (), ADDR)[1], A[0]))
            if amt is not None:
                p_('the amount is not negative', ge(amt, 0))
            p_('every balance changes by exactly what was moved, minted or burned', eq(sub(b2, b), delta))
            p_('every other allowance stays', eq(al2, al), [not_(dal)] if dal is not None else [])
            p_('a balance falls only by the holder or an allowance of the holder',
               implies(lt(b2, b), or_(p.auths(z), *[and_(eq(w, w2), ge(v.allow(z, w2), sub(b, b2)), eq(v.allow(z, w2, True), sub(v.allow(z, w2), sub(b, b2))))
                                                    for w in p.auth_list() for w2 in A if isinstance(w2, T)])))
            if e != 'set_admin':
                p_('the admin stays', p.unchanged('instance', 'Admin', 0, ADDR))
            if e in ('balance', 'allowance', 'decimals', 'name', 'symbol'):
                p_('a query changes nothing', p.no_state_change())
