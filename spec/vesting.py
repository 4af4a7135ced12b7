"""Contracts of the vesting contract (contracts/vesting), built with its minter feature."""
from vc.check import *
from vc.terms import *
from vc.values import *
from vc import exec as ex, loops as lp, models
from spec.trader import changing_calls
from spec import curve
from spec.curvefn import CurveFns

ADDR = 'soroban_sdk::Address'
VEST = ('persistent', '{index,recipient}')
TOKEN = ('instance', 'u32:5')
LIMIT = ('instance', 'u32:6')
MINTER = ('instance', 'u32:3')
ADMIN = ('persistent', 'u32:1')
TY = {VEST: 'storage::VestingInfo', TOKEN: 'storage::VestingTokenInfo', LIMIT: 'u32', MINTER: 'storage::MinterInfo', ADMIN: ADDR}


def rd(p, loc, args=(), post=False):
    return (p.post if post else p.pre)(loc[0], loc[1], args, TY[loc])


def keep(p, loc, n=0):
    return p.unchanged(loc[0], loc[1], n, TY[loc])


def keyed(index, recipient):
    """storage arguments of a schedule"""
    return (recipient, index)


def grant(W, c):
    """the amount a curve grants: its value at the start"""
    pl = c.get('PiecewiseLinear', 0)
    sl = c.get('SaturatingLinear', 0)
    return ite(tag_of(W, c, 'SaturatingLinear'), field(W, sl, 'min_y'), field(W, field(W, pl, 'steps').at(0), 'value'))


def ends_at_zero(W, c):
    sl, st = c.get('SaturatingLinear', 0), field(W, c.get('PiecewiseLinear', 0), 'steps')
    return or_(and_(tag_of(W, c, 'SaturatingLinear'), eq(field(W, sl, 'max_y'), 0)),
               and_(tag_of(W, c, 'PiecewiseLinear'), gt(st.len, 0), eq(field(W, st.at(sub(st.len, 1)), 'value'), 0)))


def runs(ck, only=None):
    con = ck.contract('vesting')
    for e in sorted(con.entries):
        with ck.guard('vesting.' + e):
            yield con, e


def C19(ck):
    with ck.guard('curve evaluation'):
        curve.evaluate(ck)      # what the schedule locks at a time is the value of its curve
    con = ck.contract('vesting')
    W = con.W
    z, i = app('any.recipient'), app('any.index', (), 'u64')
    for e in sorted(con.entries):
        with ck.guard('vesting.' + e):
            cf = CurveFns()
            R = con.run(e, contracts={'*': cf}) if e != 'create_vesting_schedules' else creation(ck, con).R
            ck.nonvacuous(R)
            A = R.args
            for p in R.paths:
                p_ = lambda n, goal, hyps=(), steps=(), **k: ck.path(p, n, goal, list(hyps), steps, **k)
                tok = p.f(rd(p, TOKEN)[1], 'address')
                h0, v0 = rd(p, VEST, keyed(i, z))
                h1, v1 = rd(p, VEST, keyed(i, z), True)
                F = lambda v, n: field(W, v, n)
                mv = p.events('transfer', 'mint', 'burn')
                if e == 'claim':
                    who, ix = A
                    h, v = rd(p, VEST, keyed(ix, who))
                    g, w = rd(p, VEST, keyed(ix, who), True)
                    locked = cf.value(W, F(v, 'schedule'), NOW)
                    pay = sub(F(v, 'balance'), locked)
                    p_('the recipient authorised it', p.auths(who))
                    p_('the schedule is one of the recipient', h)
                    p_('something is released', gt(pay, 0))
                    p_('exactly the released part is paid to the recipient', and_(B(len(mv) == 1), *[and_(B(t[0] == 'transfer'), eq(t[1], tok), eq(t[2], SELF), eq(t[3], who), eq(t[4], pay)) for t in mv if t[0] == 'transfer']))
                    p_('the remaining balance falls by the amount paid', and_(g, eq(F(w, 'balance'), sub(F(v, 'balance'), pay))))
                    p_('what is still locked stays in the balance', ge(F(w, 'balance'), locked))
                    p_('the schedule itself stays', and_(ex.veq(W, F(w, 'schedule'), F(v, 'schedule')), eq(F(w, 'recipient'), F(v, 'recipient'))))
                    p_('every other schedule stays', and_(iff(h0, h1), implies(h0, ex.veq(W, v0, v1))), [or_(ne(i, ix), ne(z, who))])
                    p_('only the token is called', B(not changing_calls(p)))
                    continue
                if e == 'create_vesting_schedules':
                    for rec in p.loops():
                        for b, ev, hy in p.iterations(rec):
                            for t in ev:
                                if effect(t):
                                    p_('while schedules are stored no token moves', B(t[0] == 'set' and (t[1], t[2]) == VEST), hy)
                    p_('existing schedules stay', implies(h0, and_(h1, ex.veq(W, v0, v1))))
                else:
                    p_('schedules stay', keep(p, VEST, 2))
                for t in mv:
                    if t[0] != 'mint':
                        p_('no tokens are taken from the contract', or_(eq(t[4], 0), ne(t[2], SELF), eq(t[3], SELF) if t[0] == 'transfer' else FALSE), [ne(a, SELF) for a in p.auth_list()])
                p_('only the token is called', B(not changing_calls(p)))
                if e == 'query_available_to_claim':
                    v = rd(p, VEST, keyed(A[1], A[0]))[1]
                    p_('reports the released part', eq(p.ret, sub(F(v, 'balance'), cf.value(W, F(v, 'schedule'), NOW))))
                if e == 'query_vesting_info':
                    h, v = rd(p, VEST, keyed(A[1], A[0]))
                    p_('reports the schedule', and_(h, ex.veq(W, p.ret, v)))
                if e.startswith('initialize'):
                    p_('the token is the one given', eq(p.f(rd(p, TOKEN, (), True)[1], 'address'), p.f(A[1], 'address')))
                else:
                    p_('the token stays', keep(p, TOKEN))
    ck.assume_txt.append('the contract never calls itself, so an account that authorises a call is not the contract (the host refuses re-entry)')


# ------------------------------------------------------------------ creation
class Creation:
    """what storing a list of schedules means: the sum of the granted amounts by recursion, and what becomes of one
    arbitrary schedule j of the list and of one arbitrary storage entry (z, x)"""

    def __init__(self, con):
        self.con, self.W = con, con.W
        e = 'create_vesting_schedules'
        self.v = ex.sym(self.W, [t for t in con.param_types(e) if 'Vec' in t][0], 'arg.0')
        self.cf = CurveFns()
        self.j, self.i = app('any.schedule', (), 'u32'), app('next.free', (), 'u64')
        self.z, self.x = app('any.recipient'), app('any.index', (), 'u64')
        self.sj = self.v.at(self.j)
        self.rj, self.cj = self.f(self.sj, 'recipient'), self.f(self.sj, 'curve')
        self.inr = and_(le(0, self.j), lt(self.j, self.v.len))
        self.R = con.run(e, loops=lp.AutoLoop(cands=[self.cands], facts=[self.facts]), contracts={'*': self.cf}, argv={0: self.v}, tag='creation', pre=self.pre)

    def f(self, v, n):
        return field(self.W, v, n)

    def rec(self, k):
        return self.f(self.v.at(k), 'recipient')

    def s(self, k):
        return app('spec.granted', (lift(k),))

    def pre(self, r):
        """i is the next free index of the recipient of schedule j"""
        r.con.types.setdefault(VEST, TY[VEST])
        m = bvar('m%d' % next(tm._cnt))
        return [not_(r.pre(*VEST, keyed(self.i, self.rj))[0]),
                forall([m.args[0]], implies(and_(le(0, m), lt(m, self.i)), r.pre(*VEST, keyed(m, self.rj))[0]))]

    def pre0(self, i, r):
        return bapp('has.%s.%s' % VEST, keyed(i, r)), ex.sym(self.W, TY[VEST], 'st.%s.%s' % VEST, keyed(i, r))

    def now(self, X, s, i, r):
        return models.store_read(X, s, VEST[0], VEST[1], keyed(i, r), TY[VEST])

    def stays(self, X, s, i, r):
        (h0, v0), (h1, v1) = self.pre0(i, r), self.now(X, s, i, r)
        return and_(iff(h0, h1), implies(h0, ex.veq(self.W, v0, v1)))

    def stored(self, v):
        return and_(eq(self.f(v, 'balance'), grant(self.W, self.cj)), eq(self.f(v, 'recipient'), self.rj), ex.veq(self.W, self.f(v, 'schedule'), self.cj))

    def valid(self):
        return and_(self.cf.accepted(self.W, self.cj, 'decreasing'), ends_at_zero(self.W, self.cj))

    def facts(self, X, rec):
        out = [eq(self.s(0), 0)]
        for g in [get for n, get, kind in rec.leaves if kind == 'pos'] or [None]:
            k = g(rec.gen) if g else rec.k
            out.append((and_(ge(k, 0), lt(k, self.v.len)), self.s(add(k, 1)), add(self.s(k), grant(self.W, self.f(self.v.at(k), 'curve')))))
        return out

    def cands(self, X, rec):
        out = []
        poss = [get for n, get, kind in rec.leaves if kind == 'pos'] or [None]
        ints = [(n, get) for n, get, kind in rec.leaves if kind == 'int']
        writes = VEST in rec.gen.store and len(rec.gen.store[VEST]) > len(rec.entry.store.get(VEST, ()))
        m = lambda: bvar('m%d' % next(tm._cnt))

        def c(n, f):
            out.append(('spec ' + n, f))
        for g in poss:
            w = lambda s, k, g=g: k if g is None else g(s)
            for n, get in ints:
                c(n + ' is the sum so far', lambda s, k, gh, get=get, w=w: eq(get(s), self.s(w(s, k))))
            for n, get, kind in rec.leaves:
                if kind != 'vec':
                    continue
                v0 = get(rec.gen)
                if isinstance(v0, SVec) and v0.ety is not None and ex.lastseg(v0.ety) == 'Address':
                    def same(s, k, gh, get=get):
                        b = m()
                        if is_int(get(s).len) and ival(get(s).len) == 0:
                            return TRUE
                        return forall([b.args[0]], implies(and_(le(0, b), lt(b, get(s).len)), eq(get(s).at(b), self.rec(b))))
                    c(n + ' are the recipients so far', same)

            def distinct(s, k, gh, w=w):
                b = m()
                return implies(lt(self.j, w(s, k)), forall([b.args[0]], implies(and_(le(0, b), lt(b, w(s, k)), ne(b, self.j)), ne(self.rec(b), self.rj))))
            c('the recipient occurs once so far', distinct)
            c('the schedule was validated', lambda s, k, gh, w=w: implies(and_(le(0, self.j), lt(self.j, w(s, k))), self.valid()))
            if writes:
                c('the schedule is stored', lambda s, k, gh, w=w: implies(and_(self.inr, lt(self.j, w(s, k))),
                                                                       and_(self.now(X, s, self.i, self.rj)[0], self.stored(self.now(X, s, self.i, self.rj)[1]))))
                c('the index is free until then', lambda s, k, gh, w=w: implies(and_(self.inr, le(w(s, k), self.j)), not_(self.now(X, s, self.i, self.rj)[0])))

                def others(s, k, gh, w=w):
                    b = m()
                    return implies(forall([b.args[0]], implies(and_(le(0, b), lt(b, w(s, k))), ne(self.rec(b), self.z))), self.stays(X, s, self.x, self.z))
                c('entries of others stay', others)
        if writes:
            def rest(s, k, gh):
                b = m()
                h0, h1 = self.pre0(b, self.rj)[0], self.now(X, s, b, self.rj)[0]
                return implies(self.inr, forall([b.args[0]], implies(ne(b, self.i), iff(h0, h1))))
            c('the other indices of the recipient stay', rest)
            c('entries present before stay', lambda s, k, gh: implies(self.pre0(self.x, self.z)[0], self.stays(X, s, self.x, self.z)))
        # searching for the next free index
        for i1, (n, a) in enumerate(ints):
            for n2, b in ints[i1 + 1:]:
                c('%s is %s' % (n, n2), lambda s, k, gh, a=a, b=b: eq(a(s), b(s)))
        if rec.outer and ints:
            nm = self.rec(app('any.k', (), 'u32')).args[0]
            for r in {u for u in subterms(rec.entry.pc + [get(rec.entry) for n, get in ints]) if u.op == 'app' and u.args[0] == nm}:
                if r is self.rj or any(u.op == 'bvar' for u in subterms([r])):
                    continue
                for n, get in ints:
                    def below(s, k, gh, get=get, r=r):
                        b = m()
                        return forall([b.args[0]], implies(and_(le(0, b), lt(b, get(s))), self.now(X, s, b, r)[0]))
                    c('every index below %s is taken' % n, below)
        return out


def creation(ck, con):
    if not hasattr(con, 'creation'):
        con.creation = Creation(con)
    return con.creation


def C20(ck):
    with ck.guard('curve validation'):
        curve.validate(ck, ('decreasing',))
    con = ck.contract('vesting')
    W = con.W
    for e in sorted(con.entries):
        with ck.guard('vesting.' + e):
            if e != 'create_vesting_schedules':
                R = con.run(e, contracts={'*': CurveFns()})
                ck.nonvacuous(R)
                for p in R.paths:
                    z, i = app('any.recipient'), app('any.index', (), 'u64')
                    h0, v0 = rd(p, VEST, keyed(i, z))
                    h1, v1 = rd(p, VEST, keyed(i, z), True)
                    ck.path(p, 'no schedule is created or removed', iff(h0, h1))
                    ck.path(p, 'the recipient and curve of every schedule stay', implies(h0, and_(eq(field(W, v1, 'recipient'), field(W, v0, 'recipient')),
                                                                                         ex.veq(W, field(W, v1, 'schedule'), field(W, v0, 'schedule')))))
                continue
            c = creation(ck, con)
            ck.nonvacuous(c.R)
            for p in c.R.paths:
                p_ = lambda n, goal, hyps=(), steps=(), **k: ck.path(p, n, goal, list(hyps), steps, **k)
                tok, adm = p.f(rd(p, TOKEN)[1], 'address'), rd(p, ADMIN)[1]
                h, v = rd(p, VEST, keyed(c.i, c.rj), True)
                p_('the admin authorised it', and_(rd(p, ADMIN)[0], p.auths(adm)))
                p_('there is at least one schedule', gt(c.v.len, 0))
                k = app('another.schedule', (), 'u32')
                p_('no recipient occurs twice', ne(c.rec(k), c.rj), [c.inr, le(0, k), lt(k, c.v.len), ne(k, c.j)])
                p_('every schedule is stored under the next free index of its recipient', h, [c.inr])
                p_('with its full amount, its recipient and its curve', c.stored(v), [c.inr])
                p_('its curve was accepted as never rising', c.cf.accepted(W, c.cj, 'decreasing'), [c.inr])
                p_('its curve ends at zero', ends_at_zero(W, c.cj), [c.inr])
                p_('the recipient gets no other schedule', iff(rd(p, VEST, keyed(c.x, c.rj))[0], rd(p, VEST, keyed(c.x, c.rj), True)[0]), [c.inr, ne(c.x, c.i)])
                p_('schedules stored before stay', c.stays(p.X, p.st, c.x, c.z), [rd(p, VEST, keyed(c.x, c.z))[0]])
                b = bvar('m%d' % next(tm._cnt))
                p_('nobody else gets a schedule', c.stays(p.X, p.st, c.x, c.z), [forall([b.args[0]], implies(and_(le(0, b), lt(b, c.v.len)), ne(c.rec(b), c.z)))])
                mv = p.events('transfer', 'mint', 'burn')
                p_('the admin pays exactly the sum of the granted amounts', and_(B(len(mv) == 1), *[and_(B(t[0] == 'transfer'), eq(t[1], tok), eq(t[2], adm), eq(t[3], SELF), eq(t[4], c.s(c.v.len))) for t in mv if t[0] == 'transfer']))
                for rec in p.loops():
                    for b_, ev, hy in p.iterations(rec):
                        for t in ev:
                            if effect(t):
                                p_('while schedules are stored nothing else happens', B(t[0] == 'set' and (t[1], t[2]) == VEST), hy)
                p_('only the token is called', B(not changing_calls(p)))


def C21(ck):
    con = ck.contract('vesting')
    W = con.W
    for e in sorted(con.entries):
        with ck.guard('vesting.' + e):
            R = con.run(e, contracts={'*': CurveFns()}) if e != 'create_vesting_schedules' else creation(ck, con).R
            ck.nonvacuous(R)
            A = R.args
            for p in R.paths:
                p_ = lambda n, goal, hyps=(), steps=(), **k: ck.path(p, n, goal, list(hyps), steps, **k)
                tok = p.f(rd(p, TOKEN)[1], 'address')
                h0, m0 = rd(p, MINTER)
                h1, m1 = rd(p, MINTER, (), True)
                adm = rd(p, ADMIN)[1]
                a0, a1 = p.f(m0, 'address'), p.f(m1, 'address')
                c0, c1 = p.f(m0, 'mint_capacity'), p.f(m1, 'mint_capacity')
                mints, burns = p.events('mint'), p.events('burn')
                p_('only the token is called', B(not changing_calls(p)))
                if e == 'mint':
                    p_('the minter authorised it', and_(h0, p.auths(a0)))
                    p_('the amount is positive', gt(A[1], 0))
                    p_('the amount is within the capacity', le(A[1], c0))
                    p_('the capacity falls by the amount', and_(h1, eq(c1, sub(c0, A[1]))))
                    p_('the minter stays', eq(a1, a0))
                    p_('exactly the amount of the vesting token is minted', and_(B(len(mints) == 1), *[and_(eq(t[1], tok), eq(t[4], A[1])) for t in mints]))
                else:
                    p_('nothing is minted', B(not mints))
                if e == 'burn':
                    p_('the holder authorised it', p.auths(A[0]))
                    p_('the amount is positive', gt(A[1], 0))
                    p_('exactly the amount of the holder is burned', and_(B(len(burns) == 1), *[and_(eq(t[1], tok), eq(t[2], A[0]), eq(t[4], A[1])) for t in burns]))
                else:
                    p_('nothing is burned', B(not burns))
                if e in ('mint', 'burn'):
                    p_('no token moves otherwise', B(not p.events('transfer')))
                if e == 'mint':
                    continue
                if e == 'initialize_with_minter':
                    p_('the minter is the one given', and_(h1, eq(a1, p.f(A[3], 'address')), eq(c1, p.f(A[3], 'mint_capacity'))))
                elif e == 'update_minter':
                    p_('the minter, or without one the admin, authorised it', p.auths(ite(h0, a0, adm)))
                    p_('the minter is the one given', and_(h1, eq(a1, A[1])))
                    p_('the capacity stays', eq(c1, ite(h0, c0, 0)))
                elif e == 'update_minter_capacity':
                    p_('the admin authorised it', p.auths(adm))
                    p_('the minter stays', and_(h0, h1, eq(a1, a0)))
                    p_('the capacity is the one given', eq(c1, A[1]))
                else:
                    p_('minter and capacity stay', keep(p, MINTER))
                if not e.startswith('initialize'):
                    p_('the admin stays', keep(p, ADMIN))
                    p_('the token stays', keep(p, TOKEN))
