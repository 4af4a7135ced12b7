"""Symbolic values: int/bool/opaque ids are terms; structs, enums, vectors and maps are built over terms."""
from . import terms as tm
from .terms import *
import hashlib, re

STR = {}


def strconst(s):
    """string / symbol literal -> distinct integer constant (also readable again)"""
    h = int.from_bytes(hashlib.sha256(s.encode()).digest()[:20], 'big') + (1 << 200)
    STR[h] = s
    return I(h)


class Unsupported(Exception):
    pass


class Struct:
    __slots__ = ('ty', 'fields', 'getter', 'n')

    def __init__(self, ty, fields=None, getter=None, n=None):
        self.ty, self.fields, self.getter, self.n = ty, fields or {}, getter, n

    def get(self, i, fty=None):
        v = self.fields.get(i)
        if v is None:
            if self.getter is None:
                raise Unsupported('no field %r in %s' % (i, self.ty))
            v = self.getter(i, fty)
        return v

    def set(self, i, v):
        d = dict(self.fields)
        d[i] = v
        return Struct(self.ty, d, self.getter, self.n)

    def __repr__(self):
        return '%s{%s%s}' % (self.ty, ', '.join('%s:%r' % kv for kv in self.fields.items()), '..' if self.getter else '')


def tup(*vs):
    return Struct('tuple', dict(enumerate(vs)), None, len(vs))


UNIT = Struct('()', {}, None, 0)


class Enum:
    __slots__ = ('ty', 'discr', 'pay', 'getter')

    def __init__(self, ty, discr, pay=None, getter=None):
        self.ty, self.discr, self.pay, self.getter = ty, lift(discr), pay or {}, getter

    def get(self, variant, i, fty=None):
        v = self.pay.get((variant, i))
        if v is None:
            if self.getter is None:
                raise Unsupported('no payload %s.%s in %s' % (variant, i, self.ty))
            v = self.getter(variant, i, fty)
        return v

    def set(self, variant, i, v):
        d = dict(self.pay)
        d[(variant, i)] = v
        return Enum(self.ty, self.discr, d, self.getter)

    def __repr__(self):
        return '%s#%r%r' % (self.ty, self.discr, self.pay)


def some(v, ty='Option'):
    return Enum(ty, 1, {('Some', 0): v})


def none(ty='Option'):
    return Enum(ty, 0)


def ok(v):
    return Enum('Result', 0, {('Ok', 0): v})


def err(v):
    return Enum('Result', 1, {('Err', 0): v})


class SVec:
    """soroban Vec: length term and element function"""
    __slots__ = ('ety', 'len', 'fn', 'items', 'tag')

    def __init__(self, ety, length, fn=None, items=None, tag=None):
        self.ety, self.len, self.fn, self.items, self.tag = ety, lift(length), fn, items, tag

    def at(self, i):
        i = lift(i)
        if self.items is not None:
            if is_int(i):
                return self.items[ival(i)]
            if not self.items:
                raise Unsupported('index into empty vec')
            v = self.items[-1]
            for k in range(len(self.items) - 2, -1, -1):
                v = vite(eq(i, k), self.items[k], v)
            return v
        return self.fn(i)

    def push(self, v):
        if self.items is not None:
            return SVec(self.ety, len(self.items) + 1, None, self.items + [v])
        n, f = self.len, self.fn
        return SVec(self.ety, add(n, 1), lambda j: vite(eq(j, n), v, f(j)), None, ('push', self, v))

    def removed(self, i):
        i = lift(i)
        if self.items is not None and is_int(i):
            k = ival(i)
            return SVec(self.ety, len(self.items) - 1, None, self.items[:k] + self.items[k+1:])
        f = self.at
        return SVec(self.ety, sub(self.len, 1), lambda j: vite(lt(j, i), f(j), f(add(j, 1))), None, ('remove', self, i))

    def updated(self, i, v):
        i = lift(i)
        if self.items is not None and is_int(i):
            k = ival(i)
            return SVec(self.ety, len(self.items), None, self.items[:k] + [v] + self.items[k+1:])
        f = self.at
        return SVec(self.ety, self.len, lambda j: vite(eq(j, i), v, f(j)), None, ('set', self, i, v))

    def __repr__(self):
        return 'Vec<%s>[%r]%s' % (self.ety, self.len, '' if self.items is None else self.items)


class SMap:
    """soroban Map with integer-encoded keys: membership and value functions"""
    __slots__ = ('kty', 'vty', 'has', 'val', 'name', 'kv')

    def __init__(self, kty, vty, has, val, name=None, kv=None):
        self.kty, self.vty, self.has, self.val, self.name, self.kv = kty, vty, has, val, name, kv

    def set(self, k, v):
        h, f = self.has, self.val
        return SMap(self.kty, self.vty, lambda j: or_(eq(j, k), h(j)), lambda j: vite(eq(j, k), v, f(j)), None, ('set', self, k, v))


class Ref:
    __slots__ = ('cell', 'projs')

    def __init__(self, cell, projs=()):
        self.cell, self.projs = cell, projs

    def __repr__(self):
        return '&%r%r' % (self.cell, self.projs)


class Opq:
    """host objects: env, storage accessors, clients, iterators .."""
    __slots__ = ('kind', 'data')

    def __init__(self, kind, *data):
        self.kind, self.data = kind, data

    def __repr__(self):
        return '<%s %r>' % (self.kind, self.data)


class Iter:
    __slots__ = ('src', 'n', 'pos', 'ety', 'maps', 'info')

    def __init__(self, src, n, pos, ety, maps=(), info=None):
        self.src, self.n, self.pos, self.ety, self.maps, self.info = src, lift(n), lift(pos), ety, maps, info

    def at(self, p):
        return Iter(self.src, self.n, p, self.ety, self.maps, self.info)

    def __repr__(self):
        return 'Iter(%r..%r)' % (self.pos, self.n)


class FnItem:
    __slots__ = ('path',)

    def __init__(self, path):
        self.path = path


def vite(c, a, b):
    """value-level if-then-else"""
    if c is TRUE:
        return a
    if c is FALSE:
        return b
    if a is b:
        return a
    if isinstance(a, T) and isinstance(b, T):
        return ite(c, a, b)
    if isinstance(a, Struct) and isinstance(b, Struct):
        keys = set(a.fields) | set(b.fields)
        if a.getter is None and b.getter is None:
            return Struct(a.ty, {k: vite(c, a.get(k), b.get(k)) for k in keys}, None, a.n)
        return Struct(a.ty, {}, lambda i, t: vite(c, a.get(i, t), b.get(i, t)), a.n)
    if isinstance(a, Enum) and isinstance(b, Enum):
        def g(v, i, t):
            try:
                x = a.get(v, i, t)
            except Unsupported:
                return b.get(v, i, t)
            try:
                y = b.get(v, i, t)
            except Unsupported:
                return x
            return vite(c, x, y)
        return Enum(a.ty, ite(c, a.discr, b.discr), {}, g)
    if isinstance(a, SVec) and isinstance(b, SVec):
        return SVec(a.ety, ite(c, a.len, b.len), lambda j: vite(c, _safe_at(a, j, b), _safe_at(b, j, a)), None, ('ite', c, a, b))
    if isinstance(a, SMap) and isinstance(b, SMap):
        return SMap(a.kty, a.vty, lambda j: ite(c, a.has(j), b.has(j)), lambda j: vite(c, a.val(j), b.val(j)), None, ('ite', c, a, b))
    raise Unsupported('vite of %s / %s' % (type(a).__name__, type(b).__name__))


def _safe_at(v, j, other):
    if v.items is not None and (not v.items or (is_int(lift(j)) and ival(lift(j)) >= len(v.items))):
        return other.at(j)
    return v.at(j)
