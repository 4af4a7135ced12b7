"""Contracts of packages/curve used at its callers.

Curve::value(c, x), Curve::combine(a, b), Curve::size(c) and Curve::validate_monotonic_*(c) are functions of their arguments;
what they compute is the subject of C22.  A caller is verified against these contracts, not against the bodies."""
from vc.terms import *
from vc.values import *
from vc import exec as ex, loops as lp


def vkey(W, v):
    """(shape, terms): values of one shape are equal when their terms are"""
    if isinstance(v, T):
        return 't', (v,)
    if isinstance(v, Struct):
        d = W.typedef(v.ty)
        if d and d[0] == 'struct':
            return seq(('s', ex.lastseg(v.ty)), [vkey(W, v.get(i, ex.qual(W, v.ty, ft))) for i, (fn, ft) in enumerate(d[1])])
        return seq(('s', v.ty), [vkey(W, v.get(i)) for i in range(v.n or 0)])
    if isinstance(v, Enum):
        d = W.typedef(v.ty)
        l = [('t', (v.discr,))]
        for vn, dd, fl in d[1]:
            if not is_int(v.discr) or ival(v.discr) == dd:
                l += [vkey(W, v.get(vn, i, ex.qual(W, v.ty, ft))) for i, (fn, ft) in enumerate(fl)]
        return seq(('e', ex.lastseg(v.ty), ival(v.discr) if is_int(v.discr) else None), l)
    if isinstance(v, SVec):
        if v.items is not None:
            return seq(('v', len(v.items)), [vkey(W, x) for x in v.items])
        if v.tag and v.tag[0] in ('sym', 'havoc'):
            return ('v', v.tag[1]), tuple(v.tag[2]) + (v.len,)
        return ('v', 'id', id(v)), ()
    raise Unsupported('key of %r' % (v,))


def seq(head, parts):
    return head + tuple(s for s, _ in parts), tuple(t for _, a in parts for t in a)


class CurveFns(lp.Pure):
    """Pure, with the methods of Curve as functions of their arguments"""

    METHODS = {'value': 2, 'combine': 3, 'validate_monotonic_decreasing': 1, 'validate_monotonic_increasing': 1, 'size': 1}

    def __init__(self):
        lp.Pure.__init__(self)
        self.names = {}
        self.keep = []

    def which(self, fn):
        if fn.kind != 'fn' or not fn.args:
            return None
        n = fn.name.split('::')[-1]
        if n not in self.METHODS:
            return None
        t = ex.lastseg(ex.base_type(fn.locals[fn.args[0]]))
        return n if t == 'Curve' and len(fn.args) == self.METHODS[n] else None

    def wants(self, X, fn):
        return self.which(fn) is not None or lp.Pure.wants(self, X, fn)

    def apply(self, X, st, fn, args):
        w = self.which(fn)
        if w is None:
            return lp.Pure.apply(self, X, st, fn, args)
        d = lambda a: X.deref(st, a) if isinstance(a, Ref) else a
        c = d(args[0])
        if w == 'value':
            return self.value(X.W, c, d(args[1]))
        if w.startswith('validate'):
            n, a = self.key(X.W, c)
            return ex.sym(X.W, fn.locals[0], 'curve.%s.%d' % (w[19:], n), a)
        if w == 'size':
            return self.size(X.W, c)
        return self.combine(X.W, fn.locals[0], c, d(args[-1]))

    def key(self, W, *vs):
        ks = [vkey(W, v) for v in vs]
        if len(ks) > 1:
            ks.sort(key=lambda k: (repr(k[0]), [t.id for t in k[1]]))
        shape, args = seq((), ks)
        self.keep.append(vs)
        return self.names.setdefault(shape, len(self.names)), args

    def value(self, W, c, x):
        n, a = self.key(W, c)
        return app('curve.value.%d' % n, a + (lift(x),), 'u128')

    def combine(self, W, ty, a, b):
        n, t = self.key(W, a, b)
        return ex.sym(W, ty, 'curve.combine.%d' % n, t)

    def accepted(self, W, c, how):
        """the curve passes validate_monotonic_<how>"""
        n, a = self.key(W, c)
        return eq(app('curve.%s.%d.is_err' % (how, n), a, 'bool'), 0)

    def size(self, W, c):
        n, a = self.key(W, c)
        return app('curve.size.%d' % n, a, 'u32')
