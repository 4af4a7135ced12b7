"""Symbolic execution of MIR: every path of a function, for all inputs."""
import re, os, itertools
from . import terms as tm, mir, src
from .terms import *
from .values import *
from .smt import Feas

import sys
sys.setrecursionlimit(20000)
LIBCRATES = ('phoenix', 'curve', 'soroban_decimal')
UNROLL = int(os.environ.get('VC_UNROLL', '4'))


def norm(s):
    """callee / type path normal form"""
    s = s.replace('std::', 'core::').replace('alloc::', 'core::')
    s = re.sub(r"<'_>|<'static>|<'a>", '', s)
    s = re.sub(r"'_ |'a |'static ", '', s)
    s = s.replace('Client::::', 'Client::')
    return s


def lastseg(ty):
    """path without generics, last segment"""
    ty = ty.strip()
    i = ty.find('<')
    if i > 0:
        ty = ty[:i]
    ty = ty.rstrip(':')
    return ty.split('::')[-1].strip()


def strip_paths(s):
    """a::b::C<d::E> -> C<E>, for comparing type texts"""
    s = re.sub(r"'\w+\s*", '', s)
    s = re.sub(r'(?:\w+::)+(?=\w)', '', s)
    s = s.replace(' ', '').replace('<>', '')
    return s


def type_args(ty):
    i = ty.find('<')
    if i < 0 or not ty.endswith('>'):
        return []
    return mir.split_top(ty[i+1:-1])


class World:
    def __init__(self, root, crate, mirs, srcdirs, imports, libsrc):
        """crate: main crate name; mirs: {crate: path}; srcdirs: {crate: dir}; imports: {module: crate}"""
        self.root, self.crate = root, crate
        self.mirs = {c: mir.Mir(c, p) for c, p in mirs.items()}
        self.db = {}
        for c, d in srcdirs.items():
            db = src.TypeDB()
            for f in src.rs_files(d):
                db.scan(f)
            self.db[c] = db
        self.imports = imports
        self._impl = {}
        self._clos = {}
        self._cfields = {}
        self._resolve = {}
        for c, m in self.mirs.items():
            self._index(c, m)
        self.hdr = {}
        self.const_cache = {}

    def _index(self, c, m):
        for name, (kind, raw) in m.items.items():
            if kind == 'fn':
                hd = raw[:raw.index('\n')]
                mm = re.search(r'\(_1: (&mut |&)?(\{closure@[^}]*\})', hd)
                if mm and '{closure#' in name:
                    self._clos.setdefault(mm.group(2), (c, name))
            mm = re.match(r'((?:\w+::)*)<impl at (.*?\.rs:\d+:\d+: \d+:\d+)>::(\w+)$', name)
            if mm:
                self._impl.setdefault((c, mm.group(3)), []).append((mm.group(2), name))

    def header(self, span):
        h = self.hdr.get(span)
        if h is None:
            try:
                h = src.impl_header(self.root, span)
            except Exception:
                h = (None, '?')
            self.hdr[span] = h
        return h

    def closure_fn(self, ty):
        c, name = self._clos[ty]
        return self.mirs[c].get(name)

    def closure_fields(self, ty):
        """captured fields the body of a closure uses: index -> type"""
        f = self._cfields.get(ty)
        if f is None:
            c, name = self._clos[ty]
            raw = self.mirs[c].items[name][1]
            f = {}
            for m in re.finditer(r'\((?:\(\*_1\)|_1)\.(\d+): ', raw):
                j = mir.match_paren(raw, m.start())
                f[int(m.group(1))] = raw[m.end():j]
            self._cfields[ty] = f
        return f

    def typedef(self, ty):
        """-> ('struct'|'enum', def) or None"""
        ty = base_type(ty)
        path = ty.split('<')[0] if '<' in ty else ty
        segs = [s for s in path.split('::') if s]
        name = segs[-1]
        order = []
        if segs[0] in self.imports:
            order = [self.imports[segs[0]]] + list(LIBCRATES)
        elif segs[0] in self.db:
            order = [segs[0]]
        order = order + [self.crate] + [l for l in LIBCRATES]
        for c in order:
            d = self.db.get(c)
            if d and name in d.types:
                t = d.types[name]
                if segs[0] in self.imports and c == self.imports[segs[0]] and t[0] == 'struct' and not any(str(n).isdigit() for n, _ in t[1]):
                    t = ('struct', sorted(t[1]))     # contractimport! declares the fields in the order of the interface: by name
                return t
        return None

    def is_int_enum(self, ty):
        name = lastseg(ty)
        for c in [self.crate] + list(self.db):
            d = self.db.get(c)
            if d and name in d.types:
                # a fieldless enum with explicit discriminants is stored as an integer
                return name in d.int_enums
        return False

    def item(self, crate, name):
        m = self.mirs.get(crate)
        return m.get(name) if m else None

    def find_fn(self, callee, crate):
        key = (callee, crate)
        if key not in self._resolve:
            self._resolve[key] = self._find_fn(callee, crate)
        return self._resolve[key]

    def _find_fn(self, callee, crate):
        """MIR body for a (normalised) callee text as printed in `crate`, or None"""
        c = callee
        # strip trailing turbofish
        c = strip_turbofish(c)
        m = self.mirs.get(crate)
        # 1. exact local path
        if m and c in m.items:
            return m.get(c)
        segs = c.split('::')
        if segs[0] in self.mirs and segs[0] != crate:
            r = '::'.join(segs[1:])
            if r in self.mirs[segs[0]].items:
                return self.mirs[segs[0]].get(r)
        # 2. <T as Trait>::m
        mm = re.match(r'^<(.*)>::(\w+)$', c)
        if mm:
            body = mm.group(1)
            k = _as_pos(body)
            if k is not None:
                ty, tr = body[:k], body[k+4:]
                return self._find_impl(strip_paths(ty).lstrip('&'), strip_paths(tr), mm.group(2), crate)
            return self._find_impl(strip_paths(body), None, mm.group(2), crate)
        # 3. inherent Type::method
        if len(segs) >= 2 and not c.startswith('<'):
            ty = strip_paths('::'.join(segs[:-1]))
            r = self._find_impl(ty, None, segs[-1], crate)
            if r is not None:
                return r
        # 4. a function declared inside a method
        mm = re.match(r'^(.*[\w>]::\w+)::(\w+)$', c)
        if mm and len(segs) >= 3 or mm and c.startswith('<'):
            o = self.find_fn(mm.group(1), crate)
            if o is not None and o.crate in self.mirs:
                n = o.name + '::' + mm.group(2)
                if n in self.mirs[o.crate].items:
                    return self.mirs[o.crate].get(n)
        return None

    def _find_impl(self, ty, trait, method, crate):
        cands = []
        for c in [crate] + [x for x in self.mirs if x != crate]:
            for span, name in self._impl.get((c, method), []):
                tr, t = self.header(span)
                t = strip_paths(t)
                if tr and tr.startswith('derive:'):
                    w = tr[7:].strip()
                    if trait and lastseg(trait) == w and t == ty.split('<')[0]:
                        cands.append((c, name))
                    continue
                if trait is None:
                    if tr is None and (t == ty or t.split('<')[0] == ty.split('<')[0]):
                        cands.append((c, name))
                else:
                    if tr is None:
                        continue
                    trs = strip_paths(tr)
                    if t.split('<')[0] != ty.split('<')[0]:
                        continue
                    if trs == trait or trs == trait + '<' + t + '>' or trait == trs + '<' + t + '>' \
                            or trs == trait.replace('<' + t + '>', '<Self>') or trs + '<Self>' == trait:
                        cands.append((c, name))
            if cands:
                break
        if not cands:
            return None
        c, name = cands[0]
        if name in self.mirs[c].dups:
            # same printed name, several bodies (macro generated): ambiguous
            return None if len(set(r for _, r in self.mirs[c].dups[name])) > 1 and '#' not in name and not name.endswith(method) else self.mirs[c].get(name)
        return self.mirs[c].get(name)


def _as_pos(body):
    d = 0
    for i, ch in enumerate(body):
        if ch in '<([':
            d += 1
        elif ch in '>)]' and body[i-1] != '-':
            d -= 1
        elif d == 0 and body.startswith(' as ', i):
            return i
    return None


def strip_turbofish(c):
    # remove ::<...> groups (not a leading <T as Trait>)
    while True:
        i = c.find('::<')
        while i >= 0 and c.startswith('::<impl at', i):
            i = c.find('::<', i + 3)
        if i < 0:
            return c
        d, j = 0, i + 2
        while True:
            if c[j] in '<([{':
                d += 1
            elif c[j] in ')]}':
                d -= 1
            elif c[j] == '>' and c[j-1] != '-':
                d -= 1
            if d == 0:
                break
            j += 1
        c = c[:i] + c[j+1:]


def base_type(ty):
    ty = ty.strip()
    while True:
        if ty.startswith('&'):
            ty = ty[1:].strip()
        elif ty.startswith('mut '):
            ty = ty[4:].strip()
        elif ty.startswith("'"):
            ty = ty[1:].lstrip('abcdefghijklmnopqrstuvwxyz_').strip()
        else:
            return ty


OPAQUE = {'Address', 'BytesN', 'String', 'Symbol', 'Bytes', 'Val', 'Hash', 'str', 'InvokeError', 'Error', 'ConversionError', 'RawVal', 'MuxedAddress'}


def sym(W, ty, name, args=()):
    """fresh-by-name symbolic value of a Rust type; deterministic in (name, args)"""
    ty = base_type(ty)
    if ty in RANGES and ty != 'bool':
        return app(name, args, ty)
    if ty == 'bool':
        return bapp(name, args)
    if ty == '()':
        return UNIT
    if ty == '!':
        return UNIT
    if ty.startswith('('):
        parts = mir.split_top(ty[1:-1])
        return Struct('tuple', {}, lambda i, t, parts=parts: sym(W, parts[i], '%s.%d' % (name, i), args), len(parts))
    if ty.startswith('['):
        m = re.match(r'\[(.*); (\d+)\]$', ty)
        if m:
            return Struct('array', {i: sym(W, m.group(1), '%s[%d]' % (name, i), args) for i in range(int(m.group(2)))}, None, int(m.group(2)))
    seg = lastseg(ty)
    if seg in OPAQUE:
        return app(name, args, None)
    if seg in ('U256',):
        return app(name, args, 'u256')
    if seg in ('I256',):
        return app(name, args, 'i256')
    if seg == 'Env':
        return Opq('env')
    if seg == 'Option':
        t = type_args(ty)[0]
        return Enum('Option<%s>' % t, app(name + '.is_some', args, 'bool'), {},
                    lambda v, i, ft: sym(W, t, name + '.some', args))
    if seg == 'Result':
        a = type_args(ty)
        return Enum('Result', app(name + '.is_err', args, 'bool'), {},
                    lambda v, i, ft: sym(W, a[0] if v == 'Ok' else a[1], name + '.' + v, args))
    if seg == 'Vec':
        t = type_args(ty)[0]
        return SVec(t, app(name + '.len', args, 'u32'), lambda j: sym(W, t, name + '[]', tuple(args) + (j,)), None, ('sym', name, tuple(args)))
    if seg == 'Map':
        k, v = type_args(ty)
        return SMap(k, v, lambda j: bapp(name + '.has', tuple(args) + (j,)), lambda j: sym(W, v, name + '.val', tuple(args) + (j,)), (name, tuple(args)))
    if seg in ('RangeInclusive', 'Range'):
        raise Unsupported('symbolic ' + ty)
    if seg == 'Ordering':
        RANGES.setdefault('ordering', (-1, 1))
        return Enum('Ordering', app(name + '.ord', args, 'ordering'))
    d = W.typedef(ty)
    if d is None:
        if ty.startswith('{closure') or seg in ('Env',):
            raise Unsupported('symbolic ' + ty)
        # unknown struct: fields by projection type
        def g(i, ft):
            if ft is None:
                raise Unsupported('field %s of unknown type %s' % (i, ty))
            return sym(W, ft, '%s.%s' % (name, i), args)
        return Struct(ty, {}, g)
    if d[0] == 'struct':
        fl = d[1]

        def g(i, ft):
            if i >= len(fl):
                raise Unsupported('field %d of %s' % (i, ty))
            return sym(W, qual(W, ty, fl[i][1]), '%s.%s' % (name, fl[i][0]), args)
        return Struct(ty, {}, g, len(fl))
    vs = d[1]
    lo, hi = min(x[1] for x in vs), max(x[1] for x in vs)
    RANGES.setdefault('enum:%d:%d' % (lo, hi), (lo, hi))

    def g(v, i, ft):
        for vn, dd, fl in vs:
            if vn == v:
                return sym(W, qual(W, ty, fl[i][1]), '%s.%s.%d' % (name, v, i), args)
        raise Unsupported('variant %s of %s' % (v, ty))
    return Enum(ty, app(name + '.tag', args, 'enum:%d:%d' % (lo, hi)), {}, g)


def qual(W, owner, fty):
    """qualify a field type written in source with the import module of its owner, so lookups stay in that crate"""
    segs = base_type(owner).split('<')[0].split('::')
    if segs[0] in W.imports:
        mod = segs[0]

        def rep(m):
            n = m.group(0)
            c = W.imports[mod]
            if c in W.db and n in W.db[c].types:
                return mod + '::' + n
            return n
        return re.sub(r'(?<![:\w])[A-Z]\w*(?!\w*::)', rep, fty)
    return fty


def flatten(W, v, ty=None):
    """value -> list of leaf terms (for keys and comparisons)"""
    if isinstance(v, T):
        return [v if v.sort == INT else ite(v, 1, 0)]
    if isinstance(v, Struct):
        if v.ty in ('tuple', 'array', '()'):
            out = []
            for i in range(v.n):
                out += flatten(W, v.get(i))
            return out
        d = W.typedef(v.ty)
        if d is None or d[0] != 'struct':
            if v.getter is None:
                out = []
                for i in sorted(v.fields):
                    out += flatten(W, v.fields[i])
                return out
            raise Unsupported('flatten ' + v.ty)
        out = []
        for i, (fn, ft) in enumerate(d[1]):
            out += flatten(W, v.get(i, ft), ft)
        return out
    if isinstance(v, Enum):
        if v.ty.startswith('Option') or lastseg(v.ty) == 'Option':
            out = [v.discr]
            if is_int(v.discr):
                if ival(v.discr) == 1:
                    out += flatten(W, v.get('Some', 0))
                return out
            try:
                p = flatten(W, v.get('Some', 0))
            except Unsupported:
                p = []
            return out + [ite(eq(v.discr, 1), x, 0) for x in p]
        out = [v.discr]
        d = W.typedef(v.ty)
        if d and d[0] == 'enum':
            for vn, dd, fl in d[1]:
                for i, (fn, ft) in enumerate(fl):
                    if is_int(v.discr):
                        if ival(v.discr) == dd:
                            out += flatten(W, v.get(vn, i, ft), ft)
                    else:
                        out += [ite(eq(v.discr, dd), x, 0) for x in flatten(W, v.get(vn, i, ft), ft)]
        return out
    raise Unsupported('flatten %r' % (v,))


def veq(W, a, b, ty=None):
    """semantic equality of two values as a Bool term"""
    if isinstance(a, T) and isinstance(b, T):
        return eq(a, b)
    if isinstance(a, Struct) and isinstance(b, Struct):
        if a.ty in ('tuple', 'array', '()'):
            return and_(*[veq(W, a.get(i), b.get(i)) for i in range(a.n if a.n is not None else b.n)])
        d = W.typedef(a.ty) or W.typedef(b.ty)
        if d is None:
            if a is b:
                return TRUE
            if a.getter is None and b.getter is None and set(a.fields) == set(b.fields):
                return and_(*[veq(W, a.fields[i], b.fields[i]) for i in a.fields])
            raise Unsupported('veq of unknown type ' + a.ty)
        return and_(*[veq(W, a.get(i, ft), b.get(i, ft), ft) for i, (fn, ft) in enumerate(d[1])])
    if isinstance(a, Enum) and isinstance(b, Enum):
        if lastseg(a.ty) == 'Option' or lastseg(b.ty) == 'Option':
            r = eq(a.discr, b.discr)
            if r is FALSE or (is_int(a.discr) and ival(a.discr) == 0) or (is_int(b.discr) and ival(b.discr) == 0):
                return r
            return and_(r, or_(eq(a.discr, 0), veq(W, a.get('Some', 0), b.get('Some', 0))))
        if lastseg(a.ty) == 'Result':
            r = eq(a.discr, b.discr)
            return r
        r = [eq(a.discr, b.discr)]
        d = W.typedef(a.ty)
        if d and d[0] == 'enum':
            for vn, dd, fl in d[1]:
                if fl and not (is_int(a.discr) and ival(a.discr) != dd) and not (is_int(b.discr) and ival(b.discr) != dd):
                    r.append(implies(eq(a.discr, dd), and_(*[veq(W, a.get(vn, i, ft), b.get(vn, i, ft), ft) for i, (_, ft) in enumerate(fl)])))
        return and_(*r)
    if isinstance(a, SVec) and isinstance(b, SVec):
        if a is b:
            return TRUE
        if a.items is not None and b.items is not None:
            if len(a.items) != len(b.items):
                return FALSE
            return and_(*[veq(W, x, y) for x, y in zip(a.items, b.items)])
        if a.items is not None or b.items is not None:
            n = len(a.items if a.items is not None else b.items)
            return and_(eq(a.len, b.len), *[veq(W, a.at(k), b.at(k)) for k in range(n)])
        j = bvar('j%d' % next(_vq))
        body = veq(W, a.at(j), b.at(j))
        if body is TRUE:
            return eq(a.len, b.len)
        return and_(eq(a.len, b.len), forall([j.args[0]], implies(and_(le(0, j), lt(j, a.len)), body)))
    if isinstance(a, SMap) and isinstance(b, SMap):
        if a is b:
            return TRUE
        j = bvar('k%d' % next(_vq))
        h = eq(a.has(j), b.has(j))
        body = and_(h, implies(a.has(j), veq(W, a.val(j), b.val(j))))
        return forall([j.args[0]], body)
    if isinstance(a, Opq) and isinstance(b, Opq) and a.kind == b.kind:
        return TRUE
    raise Unsupported('veq %s %s' % (type(a).__name__, type(b).__name__))


_vq = itertools.count()
_cells = itertools.count(1)


class Frame:
    __slots__ = ('fn', 'locals', 'bb', 'dest', 'ret', 'cont', 'visits', 'inv', 'gen', 'joins')

    def clone(self):
        f = Frame()
        f.fn, f.locals, f.bb, f.dest, f.ret, f.cont = self.fn, dict(self.locals), self.bb, self.dest, self.ret, self.cont
        f.visits, f.inv = dict(self.visits), dict(self.inv)
        f.gen, f.joins = self.gen, self.joins
        return f


class State:
    __slots__ = ('frames', 'mem', 'pc', 'pcset', 'store', 'trace', 'auth', 'tok', 'bounded', 'notes', 'wcount', 'abstract', 'ghost', 'wait')

    def __init__(self):
        self.frames, self.mem, self.pc, self.pcset = [], {}, [], set()
        self.store, self.trace, self.auth, self.tok = {}, [], [], []
        self.bounded, self.notes, self.wcount, self.abstract = False, [], 0, False
        self.ghost = {}
        self.wait = False

    def clone(self):
        s = State.__new__(State)
        s.frames = [f.clone() for f in self.frames]
        s.mem = dict(self.mem)
        s.pc = list(self.pc)
        s.pcset = set(self.pcset)
        s.store = {k: list(v) for k, v in self.store.items()}
        s.trace = list(self.trace)
        s.auth = list(self.auth)
        s.tok = list(self.tok)
        s.bounded, s.notes, s.wcount, s.abstract = self.bounded, list(self.notes), self.wcount, self.abstract
        s.ghost = dict(self.ghost)
        s.wait = False
        return s

    def assume(self, t):
        t = lift(t)
        if t is TRUE:
            return
        for u in (t.args if t.op == 'and' else (t,)):
            if u not in self.pcset:
                self.pcset.add(u)
                self.pc.append(u)

    def new_cell(self, v):
        c = next(_cells)
        self.mem[c] = v
        return c


class Branches:
    """outcomes of a modelled call: list of (condition, value | Panic | thunk(ex, st))"""
    def __init__(self, items):
        self.items = items


class Panic:
    def __init__(self, msg):
        self.msg = msg


class Retry:
    """outcome of a modelled call at the head of a loop: this iteration is over"""


class Inline:
    def __init__(self, fn, args, cont=None):
        self.fn, self.args, self.cont = fn, args, cont


class PathEnd:
    __slots__ = ('kind', 'st', 'ret', 'msg')

    def __init__(self, kind, st, ret=None, msg=''):
        self.kind, self.st, self.ret, self.msg = kind, st, ret, msg


_flow = {}


class Flow:
    """reverse postorder, immediate postdominators and live locals of a MIR body"""

    def __init__(self, fn):
        self.fn = fn
        succ, use, dfn = {}, {}, {}
        for b, ss in fn.blocks.items():
            t = mir.stmt(ss[-1])
            k = t[0]
            o = []
            if k == 'goto':
                o = [t[1]]
            elif k == 'switch':
                o = [b2 for _, b2 in t[2]] + ([t[3]] if t[3] is not None else [])
            elif k == 'assert':
                o = [t[4]]
            elif k == 'call':
                o = [t[4]] if t[4] is not None else []
            succ[b] = o
            u, d = set(), set()
            for s in ss:
                if s.startswith('drop(') or s.startswith('Storage'):
                    continue
                if s == 'return':
                    u.add(0)
                    continue
                m = re.match(r'_(\d+) = ', s)
                rhs = s[m.end():] if m else s
                for x in re.findall(r'\b_(\d+)\b', rhs):
                    x = int(x)
                    if x not in d:
                        u.add(x)
                if m:
                    d.add(int(m.group(1)))
            use[b], dfn[b] = u, d
        self.succ = succ
        # blocks that can return
        pred = {}
        for b, o in succ.items():
            for x in o:
                pred.setdefault(x, []).append(b)
        ret = [b for b, ss in fn.blocks.items() if mir.stmt(ss[-1])[0] == 'return']
        good = set(ret)
        w = list(ret)
        while w:
            for q in pred.get(w.pop(), []):
                if q not in good:
                    good.add(q)
                    w.append(q)
        # reverse postorder
        order, seen = [], set()
        stack = [(0, iter(succ.get(0, [])))]
        seen.add(0)
        while stack:
            b, it = stack[-1]
            nx = next(it, None)
            if nx is None:
                order.append(b)
                stack.pop()
            elif nx not in seen:
                seen.add(nx)
                stack.append((nx, iter(succ.get(nx, []))))
        order.reverse()
        self.rpo = {b: i for i, b in enumerate(order)}
        # postdominators (sets; bodies are small)
        allb = frozenset(b for b in order if b in good)
        pd = {b: (frozenset([b]) if b in ret else allb) for b in allb}
        ch = True
        while ch:
            ch = False
            for b in reversed(order):
                if b not in allb or b in ret:
                    continue
                ss = [pd[x] for x in succ[b] if x in allb]
                n = frozenset.intersection(*ss) | {b} if ss else frozenset([b])
                if n != pd[b]:
                    pd[b] = n
                    ch = True
        self.ipdom = {}
        for b in allb:
            c = pd[b] - {b}
            for x in c:
                if pd[x] == c:
                    self.ipdom[b] = x
                    break
        # liveness
        li = {b: set(use[b]) for b in fn.blocks}
        ch = True
        while ch:
            ch = False
            for b in reversed(order):
                out = set()
                for x in succ[b]:
                    out |= li[x]
                n = use[b] | (out - dfn[b])
                if n != li[b]:
                    li[b] = n
                    ch = True
        self.li = li

    def live_in(self, b):
        return self.li[b]

    def live_after_call(self, b):
        out = set()
        for x in self.succ[b]:
            out |= self.li[x]
        # a caller suspended in block b: locals assigned before the call are kept as well
        return out


class Budget(Exception):
    pass


class Exec:
    def __init__(self, W, contracts=None, loops=None, max_paths=4000, max_steps=2000000, keep_panics=False, unroll=None, feas=True):
        self.W = W
        self.contracts = contracts or {}     # fn tail -> contract object (modular call)
        from .loops import AUTO
        self.loops = AUTO if loops is None else (loops or None)      # False: bounded unrolling
        self.stopper = None
        self.loop_recs = []
        self.max_paths, self.max_steps = max_paths, max_steps
        self.keep_panics = keep_panics
        self.unroll = UNROLL if unroll is None else unroll
        self.ends = []
        self.steps = 0
        self.obls = []          # obligations raised during execution: (name, pc, goal, meta)
        self.used_fns = {}
        self.const_mem = {}
        self.cuts = 0
        self.feas = feas
        from . import models
        self.models = models
        self.st_types = {}
        self.key_types = W.__dict__.setdefault('key_types', {})     # (durability, key) -> Rust type of the key
        self.ret_types = W.__dict__.setdefault('ret_types', {})     # id of a call's result -> (result, Rust type)
        self.calls_made = set()
        self.answers = {}           # (place on the path, method) -> number of the symbol for its answer

    # ------------------------------------------------------------ driver
    def run(self, fn, args, st=None):
        """explore all paths of fn from st; returns list of PathEnd"""
        st = st.clone() if st is not None else State()
        base = len(st.frames)
        self.push(st, fn, args, None, None, None)
        work = [st]
        ends = []
        while work:
            s = self.pick(work)
            r = self.advance(s, work, base)
            if r is not None:
                if r.kind != 'panic' or self.keep_panics:
                    ends.append(r)
                if len(ends) > self.max_paths:
                    raise Budget('too many paths in ' + fn.name)
        return ends

    # ------------------------------------------------------------ joining of paths
    merge = True

    def flow(self, fn):
        f = _flow.get(id(fn))
        if f is None:
            f = _flow[id(fn)] = Flow(fn)
        return f

    def pick(self, work):
        if not work[-1].wait:
            return work.pop()
        best = None
        for i, s in enumerate(work):
            if not s.wait:
                return work.pop(i)
            k = (len(s.frames), -self.flow(s.frames[-1].fn).rpo.get(s.frames[-1].bb, 0))
            if best is None or k > best[0]:
                best = (k, s)
        s0 = best[1]
        key = [(id(f.fn), f.bb, f.gen) for f in s0.frames]
        grp = [s for s in work if [(id(f.fn), f.bb, f.gen) for f in s.frames] == key]
        rest = [s for s in work if not any(s is g for g in grp)]
        reps = []
        for s in grp:
            for i, r in enumerate(reps):
                if self.same_state(r[0], s):
                    r.append(s)
                    break
            else:
                reps.append([s])
        outs = []
        for r in reps:
            if len(r) == 1:
                outs.append(r[0])
                continue
            pcs = [s.pc for s in r]
            n = 0
            m = min(len(p) for p in pcs)
            while n < m and all(p[n] is pcs[0][n] for p in pcs):
                n += 1
            t = r[0]
            t.pc = list(pcs[0][:n])
            t.pcset = set(t.pc)
            common = [x for x in pcs[0][n:] if all(x in set(p[n:]) for p in pcs[1:])]
            for x in common:
                t.assume(x)
            cs = set(common)
            t.assume(or_(*[and_(*[x for x in p[n:] if x not in cs]) for p in pcs]))
            t.bounded = any(x.bounded for x in r)
            outs.append(t)
        work[:] = rest + outs[:-1]
        return outs[-1]

    def same_state(self, a, b):
        if a.auth != b.auth or len(a.trace) != len(b.trace) or a.wcount != b.wcount or a.tok != b.tok or a.abstract != b.abstract:
            return False
        if any(x is not y for x, y in zip(a.trace, b.trace)):
            return False
        if set(a.store) != set(b.store) or any(len(a.store[k]) != len(b.store[k]) or any(x is not y for x, y in zip(a.store[k], b.store[k])) for k in a.store):
            return False
        if a.ghost != b.ghost:
            return False
        ren = {}
        for fa, fb in zip(a.frames, b.frames):
            top = fa is a.frames[-1]
            live = self.flow(fa.fn).live_in(fa.bb) if top else self.flow(fa.fn).live_after_call(fa.bb)
            for l in live:
                ca, cb = fa.locals.get(l), fb.locals.get(l)
                if ca is None and cb is None:
                    continue
                if ca is None or cb is None:
                    return False
                if not self.same_cell(a, b, ca, cb, ren):
                    return False
            if fa.inv != fb.inv or fa.joins != fb.joins:
                return False
        return True

    def same_cell(self, a, b, ca, cb, ren):
        if ren.get(ca) == cb:
            return True
        if ca in ren or (ca != cb and (ca in b.mem and False)):
            return False
        ren[ca] = cb
        va, vb = a.mem.get(ca, self.const_mem.get(ca)), b.mem.get(cb, self.const_mem.get(cb))
        if ca != cb and (self.has_ref_to(a, ca)):
            return False
        return self.same_val(a, b, va, vb, ren)

    def has_ref_to(self, a, c):
        return False

    def same_val(self, a, b, x, y, ren):
        if isinstance(x, Ref) and isinstance(y, Ref):
            return x.projs == y.projs and self.same_cell(a, b, x.cell, y.cell, ren) and (x.cell == y.cell)
        if x is y:
            return True if not isinstance(x, (Struct, Enum, Opq, SVec)) else self.refs_same(a, b, x, ren)
        if isinstance(x, Struct) and isinstance(y, Struct):
            if x.ty != y.ty or x.n != y.n or x.getter is not y.getter or set(x.fields) != set(y.fields):
                return False
            return all(self.same_val(a, b, x.fields[k], y.fields[k], ren) for k in x.fields)
        if isinstance(x, Enum) and isinstance(y, Enum):
            if x.discr is not y.discr or x.getter is not y.getter or set(x.pay) != set(y.pay):
                return False
            return all(self.same_val(a, b, x.pay[k], y.pay[k], ren) for k in x.pay)
        if isinstance(x, Opq) and isinstance(y, Opq):
            if x.kind != y.kind or len(x.data) != len(y.data):
                return False
            for p, q in zip(x.data, y.data):
                if isinstance(p, list):
                    if not isinstance(q, list) or len(p) != len(q) or not all(self.same_val(a, b, u, v, ren) for u, v in zip(p, q)):
                        return False
                elif isinstance(p, (T, Ref, Struct, Enum)):
                    if not self.same_val(a, b, p, q, ren):
                        return False
                elif p != q:
                    return False
            return True
        if isinstance(x, SVec) and isinstance(y, SVec) and x.items is not None and y.items is not None:
            return len(x.items) == len(y.items) and all(self.same_val(a, b, u, v, ren) for u, v in zip(x.items, y.items))
        return False

    def refs_same(self, a, b, x, ren):
        """the same object on both sides: what it points to must agree too"""
        vals = []
        if isinstance(x, Struct):
            vals = list(x.fields.values())
        elif isinstance(x, Enum):
            vals = list(x.pay.values())
        elif isinstance(x, Opq):
            for p in x.data:
                vals.extend(p if isinstance(p, list) else [p])
        for v in vals:
            if isinstance(v, (Ref, Struct, Enum, Opq)) and not self.same_val(a, b, v, v, ren):
                return False
        return True

    def push(self, st, fn, args, dest, ret, cont):
        self.used_fns[fn.crate + '::' + fn.name] = fn
        f = Frame()
        f.fn, f.locals, f.bb, f.dest, f.ret, f.cont = fn, {}, 0, dest, ret, cont
        f.visits, f.inv = {}, {}
        f.gen, f.joins = next(_cells), frozenset()
        if len(args) != len(fn.args):
            raise Unsupported('arity of %s: %d vs %d' % (fn.name, len(args), len(fn.args)))
        for l, a in zip(fn.args, args):
            f.locals[l] = st.new_cell(a)
        st.frames.append(f)
        if len(st.frames) > 60:
            raise Unsupported('recursion in ' + fn.name)

    def advance(self, st, work, base):
        """run st until it ends or forks (forks pushed to work)"""
        skip = False
        while True:
            fr = st.frames[-1]
            if self.stopper is not None and len(st.frames) == self.stopper[0] and fr.gen == self.stopper[1]:
                if fr.bb == self.stopper[2]:
                    if st.ghost.pop('first', None) is None:
                        self.backs.append(st)
                        return None
                    skip = True
                elif fr.bb not in self.stopper[3]:
                    self.exits.append(st)
                    return None
            if fr.bb in fr.joins:
                if not st.wait:
                    st.wait = True
                    work.append(st)
                    return None
                st.wait = False
                fr.joins = fr.joins - {fr.bb}
            bb = fr.fn.blocks[fr.bb]
            r = None if skip else self.enter_block(st, work)
            skip = False
            if r == 'stop':
                return None
            for s in bb[:-1]:
                self.step_stmt(st, fr, mir.stmt(s))
            t = mir.stmt(bb[-1])
            self.steps += len(bb)
            if self.steps > self.max_steps:
                raise Budget('too many steps')
            k = t[0]
            if k == 'goto':
                fr.bb = t[1]
            elif k == 'switch':
                v = self.operand(st, fr, t[1])
                tg = t[2]
                if any(x >= 128 for x, _ in tg):
                    # targets are printed as the bits of the value
                    ty = self.operand_type(fr, t[1])
                    if ty is None:
                        raise Unsupported('type of a switch operand')
                    b = re.match(r'i(8|16|32|64|128|size)$', base_type(ty))
                    if b:
                        n = {'size': 32}.get(b.group(1)) or int(b.group(1))
                        tg = [(x - (1 << n) if x >= 1 << (n - 1) else x, y) for x, y in tg]
                if not self.switch(st, fr, v, tg, t[3], work):
                    return None
            elif k == 'assert':
                c = self.operand(st, fr, t[1])
                c = c if t[2] else not_(c)
                if c is FALSE:
                    return PathEnd('panic', st, None, t[3])
                if c is not TRUE:
                    if self.keep_panics and c not in st.pcset:
                        p = st.clone()
                        p.assume(not_(c))
                        if self.feasible(p):
                            self.ends_panic(p, t[3], work)
                    st.assume(c)
                fr.bb = t[4]
            elif k == 'return':
                cell = fr.locals.get(0)
                v = st.mem[cell] if cell is not None else UNIT
                st.frames.pop()
                if fr.cont is not None:
                    v = fr.cont(self, st, v)
                if len(st.frames) == base:
                    if isinstance(v, (Branches, Panic, Inline)):
                        raise Unsupported('cont at base')
                    return PathEnd('return', st, v)
                e = self.deliver(st, v, fr.dest, fr.ret, work)
                if e is not None:
                    return e if isinstance(e, PathEnd) else None
            elif k == 'call':
                e = self.call(st, fr, t, work)
                if e is not None:
                    return e if isinstance(e, PathEnd) else None
            elif k == 'unreachable':
                return PathEnd('unreachable', st) if self.keep_panics else None
            else:
                raise Unsupported('terminator %r' % (t,))

    def ends_panic(self, st, msg, work):
        self.ends.append(PathEnd('panic', st, None, msg))

    # deliver a call result to dest in the top frame
    def deliver(self, st, v, dest, ret, work):
        if isinstance(v, Panic):
            return PathEnd('panic', st, None, v.msg)
        if isinstance(v, Inline):
            self.push(st, v.fn, v.args, dest, ret, v.cont)
            return None
        if isinstance(v, Branches):
            alive = []
            for c, val in v.items:
                c = lift(c)
                if c is FALSE:
                    continue
                if isinstance(val, Panic) and not self.keep_panics:
                    continue
                alive.append((c, val))
            # exhaustive by construction
            outs = []
            for c, val in alive:
                s = st if len(alive) == 1 and len(v.items) >= 1 else st.clone()
                s.assume(c)
                if c is not TRUE and not self.feasible(s):
                    continue
                outs.append((s, val))
            if not outs:
                return 'dead'
            if len(outs) == 1 and outs[0][0] is st:
                s, val = outs[0]
                if callable(val):
                    val = val(self, s)
                return self.deliver(s, val, dest, ret, work)
            for s, val in outs:
                if callable(val):
                    val = val(self, s)
                e = self.deliver(s, val, dest, ret, work)
                if e is None:
                    work.append(s)
                elif isinstance(e, PathEnd):
                    self.ends.append(e)
            return 'forked'
        fr = st.frames[-1]
        if isinstance(v, Retry):
            fr.bb = self.header_of_call(st)
            if fr.bb is None:
                raise Unsupported('retry outside a loop')
            return None
        if dest is not None:
            self.write(st, fr, dest, v)
        if ret is None:
            return 'dead'
        fr.bb = ret
        return None

    def known(self, st, c):
        """does the path condition imply c (cheap linear check)"""
        if c is TRUE or c in st.pcset:
            return True
        if c is FALSE:
            return False
        if c.op == 'and' and all(x in st.pcset for x in c.args):
            return True
        if not self.feas:
            return False
        return not Feas.feasible(st.pc + [not_(c)], 150)

    def feasible(self, st):
        if not self.feas:
            return True
        return Feas.feasible(st.pc)

    def switch(self, st, fr, v, targets, otherwise, work):
        if v.sort == BOOL:
            conds = [(not_(v) if k == 0 else v, b) for k, b in targets]
        else:
            conds = [(eq(v, k), b) for k, b in targets]
        rest = and_(*[not_(c) for c, _ in conds])
        alts = list(conds)
        if otherwise is not None:
            alts.append((rest, otherwise))
        live = []
        for c, b in alts:
            if c is FALSE or (c is not TRUE and not_(c) in st.pcset):
                continue
            if c is TRUE or c in st.pcset:
                live = [(TRUE, b)]
                break
            live.append((c, b))
        if len(live) == 1:
            st.assume(live[0][0])
            fr.bb = live[0][1]
            return True
        outs = []
        j = self.flow(fr.fn).ipdom.get(fr.bb)
        if j is not None and self.merge:
            fr.joins = fr.joins | {j}
        for c, b in live:
            if self._unreachable_block(fr.fn, b):
                continue
            s = st.clone()
            s.assume(c)
            s.frames[-1].bb = b
            outs.append(s)
        if len(outs) > 1:
            outs = [s for s in outs if self.feasible(s)]
        for s in outs:
            work.append(s)
        return False

    def _unreachable_block(self, fn, b):
        bb = fn.blocks[b]
        return len(bb) == 1 and bb[0] == 'unreachable'

    # ------------------------------------------------------------ loops
    def loops_of(self, fn):
        if fn.loops is None:
            succ = {}
            for b, ss in fn.blocks.items():
                t = mir.stmt(ss[-1])
                k = t[0]
                o = []
                if k == 'goto':
                    o = [t[1]]
                elif k == 'switch':
                    o = [b2 for _, b2 in t[2]] + ([t[3]] if t[3] is not None else [])
                elif k == 'assert':
                    o = [t[4]]
                elif k == 'call':
                    o = [t[4]] if t[4] is not None else []
                succ[b] = o
            heads = {}
            color = {}
            # iterative DFS for back edges
            stack = [(0, iter(succ.get(0, [])))]
            color[0] = 1
            pred = {}
            for b, o in succ.items():
                for x in o:
                    pred.setdefault(x, []).append(b)
            while stack:
                b, it = stack[-1]
                nx = next(it, None)
                if nx is None:
                    color[b] = 2
                    stack.pop()
                    continue
                if color.get(nx) == 1:
                    heads.setdefault(nx, set()).add(b)
                elif nx not in color:
                    color[nx] = 1
                    stack.append((nx, iter(succ.get(nx, []))))
            loops = {}
            for h, tails in heads.items():
                body = {h}
                w = [t for t in tails if t != h]
                while w:
                    x = w.pop()
                    if x in body:
                        continue
                    body.add(x)
                    w.extend(pred.get(x, []))
                loops[h] = body
            order = sorted(loops)
            fn.loops = {h: (i, loops[h]) for i, h in enumerate(order)}
        return fn.loops

    def enter_block(self, st, work):
        fr = st.frames[-1]
        lp = self.loops_of(fr.fn)
        if fr.bb not in lp:
            return None
        h = fr.bb
        ordinal, body = lp[h]
        spec = self.loops
        if spec is None:
            n = fr.visits.get(h, 0)
            fr.visits[h] = n + 1
            cn = len(st.pc)
            last = fr.visits.get((h, 'pc'))
            # iterations that did not add symbolic decisions are concrete and not counted
            if last is not None and last == cn:
                fr.visits[h] = n
            fr.visits[(h, 'pc')] = cn
            if fr.visits[h] > self.unroll + 1:
                self.cuts += 1
                st.bounded = True
                return 'stop'
            # inner loops start afresh with each outer iteration
            for h2, (o2, b2) in lp.items():
                if h2 != h and h2 in body:
                    fr.visits.pop(h2, None)
                    fr.visits.pop((h2, 'pc'), None)
                    fr.inv.pop(h2, None)
            return None
        return spec.at_header(self, st, fr, h, body, work)

    def header_of_call(self, st):
        """header of the innermost loop around the current call, when nothing but taking references lies between them"""
        fr = st.frames[-1]
        inner = [(len(body), h) for h, (o, body) in self.loops_of(fr.fn).items() if fr.bb in body]
        if not inner:
            return None
        h = b = min(inner)[1]
        for _ in range(6):
            ss = fr.fn.blocks[b]
            if any(not re.match(r'_\d+ = &(mut )?|(nop|Storage\w+)\b', x.strip()) for x in ss[:-1]):
                return None
            if b == fr.bb:
                return h
            t = mir.stmt(ss[-1])
            if t[0] != 'goto':
                return None
            b = t[1]
        return None

    def child(self):
        c = Exec(self.W, self.contracts, False if self.loops is None else self.loops, self.max_paths, self.max_steps, False, self.unroll, self.feas)
        c.const_mem = self.const_mem
        c.st_types = self.st_types
        c.calls_made, c.answers = self.calls_made, self.answers
        return c

    def absorb(self, c):
        self.used_fns.update(c.used_fns)
        self.cuts += c.cuts
        self.steps += c.steps

    def run_loop(self, st, h, body):
        """one iteration from the loop header: (states back at the header, states leaving the loop)"""
        fr = st.frames[-1]
        self.stopper = (len(st.frames), fr.gen, h, body)
        self.backs, self.exits = [], []
        s = st.clone()
        s.frames[-1].joins = frozenset(j for j in s.frames[-1].joins if j in body and j != h)
        s.ghost['first'] = True
        work = [s]
        while work:
            x = self.pick(work)
            self.advance(x, work, 0)
            if len(self.backs) + len(self.exits) > self.max_paths:
                raise Budget('too many paths in loop of ' + fr.fn.name)
        return self.backs, self.exits

    # ------------------------------------------------------------ statements
    def step_stmt(self, st, fr, s):
        k = s[0]
        if k == 'nop':
            return
        if k == 'assign':
            v = self.rvalue(st, fr, s[2], s[1])
            self.write(st, fr, s[1], v)
            return
        if k == 'setdiscr':
            raise Unsupported('SetDiscriminant')
        raise Unsupported('stmt %r' % (s,))

    def locate(self, st, fr, place):
        """place -> (cell, projs) following derefs"""
        l, projs = place
        cell = fr.locals.get(l)
        if cell is None:
            cell = fr.locals[l] = st.new_cell(None)
        cur = []
        for p in projs:
            if p[0] == '*':
                v = self.load_at(st, cell, tuple(cur))
                if isinstance(v, Ref):
                    cell, cur = v.cell, list(v.projs)
                else:
                    # deref of a by-value modelled reference (e.g. &str, &[..])
                    cur = cur
                continue
            if p[0] == 'i':
                iv = self.load_at(st, fr.locals[p[1]], ())
                cur.append(('i', iv))
            else:
                cur.append(p)
        return cell, tuple(cur)

    def load_at(self, st, cell, projs):
        v = st.mem.get(cell)
        if v is None:
            v = self.const_mem.get(cell)
        if v is None:
            raise Unsupported('read of unset cell')
        variant = None
        for p in projs:
            v, variant = self.proj(st, v, variant, p)
        return v

    def proj(self, st, v, variant, p):
        k = p[0]
        if k == 'f':
            if isinstance(v, Ref):
                v = self.deref(st, v)
            if variant is not None:
                return v.get(variant, p[1], p[2]), None
            if isinstance(v, Struct):
                return v.get(p[1], p[2]), None
            if isinstance(v, Opq) and v.kind == 'closure':
                return v.data[1][p[1]], None
            raise Unsupported('field of %r' % (v,))
        if k == 'v':
            return v, p[1]
        if k == 'i':
            if isinstance(v, Struct) and is_int(p[1]):
                return v.get(ival(p[1])), None
            if isinstance(v, Struct) and v.n is not None:
                r = v.get(v.n - 1)
                for q in range(v.n - 2, -1, -1):
                    r = vite(eq(p[1], q), v.get(q), r)
                return r, None
        if k == 'c' and isinstance(v, Struct):
            return v.get(v.n - p[1] if p[2] else p[1]), None
        if k == 's' and isinstance(v, Struct) and v.ty == 'array' and v.n is not None:
            j = v.n - p[3] if p[2] or not p[3] else p[3]
            return Struct('array', {x - p[1]: v.get(x) for x in range(p[1], j)}, None, j - p[1]), None
        raise Unsupported('proj %r of %r' % (p, v))

    def deref(self, st, r):
        n = 0
        while isinstance(r, Ref):
            r = self.load_at(st, r.cell, r.projs)
            n += 1
        return r

    def read(self, st, fr, place):
        cell, projs = self.locate(st, fr, place)
        return self.load_at(st, cell, projs)

    def write(self, st, fr, place, v):
        cell, projs = self.locate(st, fr, place)
        self.store_at(st, cell, projs, v)

    def store_at(self, st, cell, projs, v):
        if not projs:
            st.mem[cell] = v
            return
        old = st.mem.get(cell)
        st.mem[cell] = self.upd(st, old, projs, v, None)

    def upd(self, st, old, projs, v, variant):
        if not projs:
            return v
        p = projs[0]
        if p[0] == 'v':
            return self.upd(st, old, projs[1:], v, p[1])
        if p[0] == 'f':
            if variant is not None:
                inner = None
                if len(projs) > 1:
                    inner = old.get(variant, p[1], p[2])
                return old.set(variant, p[1], self.upd(st, inner, projs[1:], v, None))
            if old is None:
                old = Struct('partial', {})
            inner = old.get(p[1], p[2]) if len(projs) > 1 else None
            return old.set(p[1], self.upd(st, inner, projs[1:], v, None))
        if p[0] in ('i', 'c'):
            if p[0] == 'i':
                ix = p[1]
            else:
                ix = I(old.n - p[1] if p[2] else p[1])
            if is_int(ix):
                k = ival(ix)
                inner = old.get(k) if len(projs) > 1 else None
                return old.set(k, self.upd(st, inner, projs[1:], v, None))
            out = {}
            for k in range(old.n):
                out[k] = vite(eq(ix, k), self.upd(st, old.get(k), projs[1:], v, None), old.get(k))
            return Struct(old.ty, out, None, old.n)
        raise Unsupported('write proj %r' % (p,))

    def operand(self, st, fr, op):
        if op[0] == 'const':
            return self.const(st, op[1], fr)
        return self.read(st, fr, op[1])

    def place_type(self, fr, place):
        for p in reversed(place[1]):
            if p[0] == 'f':
                return p[2]
            if p[0] in ('*',):
                continue
            break
        if not place[1]:
            return fr.fn.locals.get(place[0])
        return None

    def operand_type(self, fr, op):
        if op[0] == 'const':
            m = re.match(r'-?\d+_(\w+)$', op[1])
            if m:
                return m.group(1)
            if op[1] in ('true', 'false'):
                return 'bool'
            m = re.match(r'^(?:core::)?(?:num::)?(?:<impl )?([iu]\d+|[iu]size)>?::(MAX|MIN|BITS)$', norm(op[1]))
            if m:
                return m.group(1)
            f = self.find_const(op[1], fr.fn.crate)
            return f.ret if f is not None else None
        l, projs = op[1]
        if not projs:
            return fr.fn.locals.get(l)
        last = projs[-1]
        if last[0] == 'f':
            return last[2]
        if last[0] == '*' and len(projs) == 1:
            return base_type(fr.fn.locals[l])
        if last[0] == '*' and projs[-2][0] == 'f':
            return base_type(projs[-2][2])
        if last[0] in ('i', 'c'):
            base = fr.fn.locals[l] if len([p for p in projs if p[0] == 'f']) == 0 else None
            if base:
                m = re.match(r'\[(.*?)(;.*)?\]$', base_type(base))
                if m:
                    return m.group(1)
        return None

    # ------------------------------------------------------------ constants
    def const(self, st, c, fr):
        crate = fr.fn.crate
        m = re.match(r'^(-?\d+)_(\w+)$', c)
        if m:
            return I(int(m.group(1)))
        if c == 'true':
            return TRUE
        if c == 'false':
            return FALSE
        if c.startswith('"'):
            return strconst(c[1:-1])
        if c.startswith("'"):
            body = c[1:-1]
            if body.startswith('\\u{'):
                return I(int(body[3:-1], 16))
            if body.startswith('\\'):
                return I({'n': 10, 't': 9, 'r': 13, '0': 0, '\\': 92, "'": 39}[body[1]])
            return I(ord(body))
        if c == '()':
            return UNIT
        cn = norm(c)
        m = re.match(r'^(?:core::)?(?:num::)?(?:<impl )?([iu]\d+|[iu]size)>?::(MAX|MIN)$', cn)
        if m:
            lo, hi = RANGES[m.group(1)]
            return I(hi if m.group(2) == 'MAX' else lo)
        if cn.startswith('{0x') or cn.startswith('{alloc'):
            raise Unsupported('const ' + c)
        f = self.find_const(c, crate)
        if f is not None:
            key = (f.crate, f.name)
            if key in self.W.const_cache:
                v, mem = self.W.const_cache[key]
                self.const_mem.update(mem)
                return v
            sub_ = Exec(self.W, feas=True)
            ends = sub_.run(f, [])
            if len(ends) != 1:
                raise Unsupported('const eval ' + c)
            v = ends[0].ret
            mem = dict(ends[0].st.mem)
            mem.update(sub_.const_mem)
            self.W.const_cache[key] = (v, mem)
            self.const_mem.update(mem)
            return v
        if re.match(r'^[\w:<>]', c):
            return FnItem(norm(c))
        raise Unsupported('const ' + c)

    def find_const(self, c, crate):
        W = self.W
        m = W.mirs.get(crate)
        if m and c in m.items and m.items[c][0] != 'fn':
            return self._nodup(m, c)
        segs = c.split('::')
        if segs[0] in W.mirs:
            r = '::'.join(segs[1:])
            mm = W.mirs[segs[0]]
            if r in mm.items and mm.items[r][0] != 'fn':
                return self._nodup(mm, r)
        mm = re.match(r'^(.*)::(promoted\[\d+\]|[A-Z][A-Z_0-9]*)$', c)
        if mm:
            f = W.find_fn(norm(mm.group(1)), crate)
            if f is not None:
                nm = f.name + '::' + mm.group(2)
                if nm in W.mirs[f.crate].items:
                    return self._nodup(W.mirs[f.crate], nm)
        # associated const of a type
        if len(segs) >= 2 and re.match(r'^[A-Z_0-9]+$', segs[-1]):
            ty = strip_paths('::'.join(segs[:-1]))
            for cc in [crate] + list(W.mirs):
                for span, name in W._impl.get((cc, segs[-1]), []):
                    tr, t = W.header(span)
                    if tr is None and strip_paths(t).split('<')[0] == ty.split('<')[0] and W.mirs[cc].items[name][0] != 'fn':
                        return W.mirs[cc].get(name)
        return None

    def _nodup(self, m, c):
        if c in m.dups and len(set(r for _, r in m.dups[c])) > 1:
            raise Unsupported('ambiguous constant ' + c)
        return m.get(c)

    # ------------------------------------------------------------ rvalues
    def rvalue(self, st, fr, r, dest):
        k = r[0]
        if k == 'use':
            return self.operand(st, fr, r[1])
        if k == 'ref':
            cell, projs = self.locate(st, fr, r[2])
            # reference to a modelled by-value reference (deref of non-Ref) is that value itself
            if r[2][1] and r[2][1][-1][0] == '*':
                v = self.load_at(st, cell, projs)
            return Ref(cell, projs)
        if k == 'bin':
            return self.binop(st, fr, r[1], r[2], r[3])
        if k == 'un':
            v = self.operand(st, fr, r[2])
            if r[1] == 'Not':
                if v.sort == BOOL:
                    return not_(v)
                ty = self.operand_type(fr, r[2])
                if ty in RANGES:
                    lo, hi = RANGES[ty]
                    return sub(hi + lo, v)
                raise Unsupported('Not')
            ty = self.operand_type(fr, r[2])
            return wrap_if(neg(v), ty)
        if k == 'discr':
            v = self.read(st, fr, r[1])
            if isinstance(v, Enum):
                return v.discr
            raise Unsupported('discriminant of %r' % (v,))
        if k == 'len':
            v = self.read(st, fr, r[1])
            if isinstance(v, Struct) and v.n is not None:
                return I(v.n)
            raise Unsupported('Len of %r' % (v,))
        if k == 'cast':
            v = self.operand(st, fr, r[1])
            kind, ty = r[3], r[2]
            if kind == 'IntToInt':
                if v.sort == BOOL:
                    return ite(v, 1, 0)
                if ty == 'bool':
                    return eq(v, 1)
                f = self.operand_type(fr, r[1])
                if f in RANGES and ty in RANGES:
                    (l1, h1), (l2, h2) = RANGES[f], RANGES[ty]
                    if l2 <= l1 and h1 <= h2:
                        return v
                    if not is_int(v) and self.known(st, and_(ge(v, l2) if l1 < l2 else TRUE, le(v, h2) if h1 > h2 else TRUE)):
                        return v
                return wrap(v, ty)
            if kind.startswith('PointerCoercion') or kind == 'Transmute' or kind.startswith('PtrToPtr'):
                return v
            raise Unsupported('cast ' + kind)
        if k == 'repeat':
            v = self.operand(st, fr, r[1])
            n = int(re.match(r'(\d+)', r[2].replace('const ', '')).group(1))
            return Struct('array', {i: v for i in range(n)}, None, n)
        if k == 'agg':
            kind, path, names, ops = r[1], r[2], r[3], r[4]
            vs = [self.operand(st, fr, o) for o in ops]
            if kind == 'tuple':
                return tup(*vs) if vs else UNIT
            if kind == 'array':
                return Struct('array', dict(enumerate(vs)), None, len(vs))
            if kind == 'closure':
                # the MIR text lists one operand per captured variable, but a variable captured in parts has several:
                # the others are in the temporaries that follow, with the types the body gives its fields
                need = self.W.closure_fields(path) if path in self.W._clos else {}
                n = max(need, default=-1) + 1
                while len(vs) < n:
                    if not ops or ops[-1][0] == 'const' or ops[-1][1][1]:
                        raise Unsupported('captures of ' + path)
                    l = ops[-1][1][0] + len(vs) - len(ops) + 1
                    t = fr.fn.locals.get(l)
                    if l not in fr.locals or (len(vs) in need and need[len(vs)] != t):
                        raise Unsupported('captures of ' + path)
                    vs.append(self.read(st, fr, (l, ())))
                return Opq('closure', path, vs)
            return self.adt(path, names, vs, fr)
        raise Unsupported('rvalue %r' % (r,))

    def adt(self, path, names, vs, fr):
        p = norm(path)
        q = strip_turbofish(p)
        segs = q.split('::')
        last = segs[-1]
        if last in ('Some', 'None'):
            return some(vs[0]) if last == 'Some' else none()
        if last in ('Ok', 'Err'):
            return ok(vs[0]) if last == 'Ok' else err(vs[0])
        if len(segs) >= 2 and segs[-2] == 'Ordering':
            return Enum('Ordering', {'Less': -1, 'Equal': 0, 'Greater': 1}[last])
        if len(segs) >= 2 and segs[-2] == 'ControlFlow':
            return Enum('ControlFlow', {'Continue': 0, 'Break': 1}[last], {(last, 0): vs[0]} if vs else {})
        # enum variant?
        if len(segs) >= 2:
            d = self.W.typedef('::'.join(segs[:-1]))
            if d and d[0] == 'enum':
                for vn, dd, fl in d[1]:
                    if vn == last:
                        return Enum('::'.join(segs[:-1]), dd, {(vn, i): v for i, v in enumerate(vs)})
        d = self.W.typedef(q)
        if d and d[0] == 'struct':
            if names is not None and len(names) == len(d[1]) and names != [f for f, _ in d[1]]:
                # MIR lists fields in declaration order; keep by name to be safe
                ix = {f: i for i, (f, _) in enumerate(d[1])}
                if all(n in ix for n in names):
                    return Struct(q, {ix[n]: v for n, v in zip(names, vs)}, None, len(vs))
            return Struct(q, dict(enumerate(vs)), None, len(vs))
        if d is None and names is None and not vs and segs[-1][:1].islower():
            return FnItem(p)
        return Struct(q, dict(enumerate(vs)), None, len(vs))

    def binop(self, st, fr, o, a_, b_):
        a, b = self.operand(st, fr, a_), self.operand(st, fr, b_)
        if isinstance(a, Ref) or isinstance(b, Ref):
            raise Unsupported('binop on pointers')
        if isinstance(a, Enum):
            a = a.discr
        if isinstance(b, Enum):
            b = b.discr
        ty = self.operand_type(fr, a_) or self.operand_type(fr, b_)
        if o == 'Eq':
            return eq(a, b)
        if o == 'Ne':
            return ne(a, b)
        if o in ('Lt', 'Le', 'Gt', 'Ge'):
            if a.sort == BOOL:
                a, b = ite(a, 1, 0), ite(b, 1, 0)
            return {'Lt': lt, 'Le': le, 'Gt': gt, 'Ge': ge}[o](a, b)
        if o in ('BitAnd', 'BitOr', 'BitXor') and a.sort == BOOL:
            return and_(a, b) if o == 'BitAnd' else or_(a, b) if o == 'BitOr' else not_(eq(a, b))
        if o == 'Cmp':
            return Enum('Ordering', ite(lt(a, b), -1, ite(eq(a, b), 0, 1)))
        if ty not in RANGES:
            raise Unsupported('binop type %s for %s' % (ty, o))
        if o in ('CheckedAdd', 'CheckedSub', 'CheckedMul', 'AddWithOverflow', 'SubWithOverflow', 'MulWithOverflow'):
            f = {'A': add, 'S': sub, 'M': mul}[o.replace('Checked', '')[0]]
            x = f(a, b)
            return tup(x, not_(in_range(x, ty)))
        if o in ('Add', 'Sub', 'Mul', 'AddUnchecked', 'SubUnchecked', 'MulUnchecked'):
            f = {'A': add, 'S': sub, 'M': mul}[o[0]]
            return wrap_if(f(a, b), ty)
        if o == 'Div':
            return tdiv(a, b)
        if o == 'Rem':
            return trem(a, b)
        if o in ('Shl', 'ShlUnchecked') and is_int(b):
            return wrap_if(mul(a, I(2 ** ival(b))), ty)
        if o in ('Shr', 'ShrUnchecked') and is_int(b):
            k = 2 ** ival(b)
            lo, hi = RANGES[ty]
            if lo >= 0:
                return tdiv(a, I(k))
            # arithmetic shift = floor division
            return ite(ge(a, 0), tdiv(a, I(k)), neg(tdiv(add(neg(a), k - 1), I(k))))
        if o == 'BitAnd':
            for x, y in ((a, b), (b, a)):
                if is_int(y) and ival(y) >= 0 and (ival(y) + 1) & ival(y) == 0:
                    r = trem(x, I(ival(y) + 1))
                    return r if RANGES[ty][0] >= 0 else ite(lt(r, 0), add(r, ival(y) + 1), r)
        if is_int(a) and is_int(b):
            x, y = ival(a), ival(b)
            r = {'BitAnd': x & y, 'BitOr': x | y, 'BitXor': x ^ y}.get(o)
            if r is not None:
                return I(r)
        raise Unsupported('binop ' + o)

    # ------------------------------------------------------------ calls
    def call(self, st, fr, t, work):
        _, dest, callee, ops, ret = t
        args = [self.operand(st, fr, o) for o in ops]
        retty = self.place_type(fr, dest)
        if re.match(r'(move |copy )?\(*\**_\d+', callee):
            f = self.operand(st, fr, mir.parse_operand(callee if callee.startswith(('move', 'copy')) else 'copy ' + callee))
            return self.deliver(st, self.call_closure(f, args, None, st), dest, ret, work)
        v = self.apply(st, norm(callee), args, retty, fr.fn.crate, fr)
        return self.deliver(st, v, dest, ret, work)

    def apply(self, st, callee, args, retty, crate, fr=None):
        """result of calling `callee`: a value, Branches, Panic or Inline"""
        h = self.models.lookup(callee)
        if h is not None:
            return h[0](self, st, h[1], args, retty, callee, crate)
        fn = self.W.find_fn(callee, crate)
        if fn is not None and fn.kind == 'fn':
            c = self.find_contract(fn)
            if c is not None:
                r = c.apply(self, st, fn, args)
                if r is not NotImplemented:
                    return r
            return Inline(fn, args)
        h = self.models.fallback(self, callee, crate)
        if h is not None:
            return h(self, st, None, args, retty, callee, crate)
        raise Unsupported('call ' + callee)

    def find_contract(self, fn):
        for pat, c in self.contracts.items():
            if pat == '*':
                if c.wants(self, fn):
                    return c
                continue
            if fn.name == pat or fn.name.endswith('::' + pat):
                return c
        return None

    def call_closure(self, clo, args, cont=None, st=None):
        """Inline application of a closure / fn item value"""
        if isinstance(clo, Ref) and st is not None:
            clo = self.deref(st, clo)
        if isinstance(clo, FnItem):
            return self.then(st, self.apply(st, clo.path, args, None, self.W.crate), cont)
        if isinstance(clo, Opq) and clo.kind == 'closure':
            fn = self.W.closure_fn(clo.data[0])
            ty = fn.locals[1]
            self_ = clo
            if ty.startswith('&'):
                self_ = Ref(st.new_cell(clo))
            return Inline(fn, [self_] + list(args), cont)
        raise Unsupported('closure %r' % (clo,))

    def then(self, st, r, cont):
        """what cont makes of the outcome r of a modelled call"""
        if cont is None or isinstance(r, Panic):
            return r
        if isinstance(r, Inline):
            c0 = r.cont
            return Inline(r.fn, r.args, cont if c0 is None else (lambda ex, s, v: ex.then(s, c0(ex, s, v), cont)))
        if isinstance(r, Branches):
            def go(x):
                return x if isinstance(x, Panic) else lambda ex, s: ex.then(s, x(ex, s) if callable(x) else x, cont)
            return Branches([(c, go(x)) for c, x in r.items])
        return cont(self, st, r)

    def eval_pure(self, st, clo, args, what='closure'):
        """evaluate a side-effect free closure on symbolic args: (value, condition under which it panics)"""
        inl = self.call_closure(clo, args, None, st)
        if not isinstance(inl, Inline):
            if isinstance(inl, (Branches, Panic)):
                raise Unsupported('pure branches')
            return inl, FALSE
        sub_ = Exec(self.W, self.contracts, False if self.loops is None else self.loops, keep_panics=True, unroll=self.unroll)
        s = st.clone()
        n0 = len(s.pc)
        tr, sto = len(s.trace), s.wcount
        s.frames = []
        ends = sub_.run(inl.fn, inl.args, s) + sub_.ends
        self.used_fns.update(sub_.used_fns)
        self.const_mem.update(sub_.const_mem)
        val, pan = None, FALSE
        for e in ends:
            cond = and_(*e.st.pc[n0:])
            if e.kind == 'panic':
                pan = or_(pan, cond)
                continue
            if e.kind != 'return':
                continue
            if len(e.st.trace) != tr or e.st.wcount != sto:
                raise Unsupported('effect in ' + what)
            if e.st.bounded:
                raise Unsupported('loop in ' + what)
            v = e.ret
            if isinstance(v, Ref):
                v = sub_.deref(e.st, v)
            val = v if val is None else vite(cond, v, val)
        if val is None:
            return None, TRUE
        return val, pan


def wrap_if(x, ty):
    if ty in RANGES:
        if is_int(x):
            return wrap(x, ty)
        return wrap(x, ty)
    return x
