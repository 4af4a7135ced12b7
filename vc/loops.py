"""Loops: every loop is replaced by its havoc-ed state at an arbitrary iteration k, strengthened by invariants that
are proved (entry and preservation) before they are used.  Candidate invariants come from templates and from the
ghost variables a specification declares; candidates that are not inductive are dropped."""
import itertools, time, re
from . import terms as tm
from .terms import *
from .values import *
from . import smt, ground

_ids = itertools.count()


class LoopRec:
    """one loop reached on one path"""

    def __init__(self):
        self.paths = []        # states at the end of one arbitrary iteration (back edges)
        self.invs = []
        self.dropped = []
        self.ghosts = {}       # name -> term at iteration k
        self.leaves = []
        self.iters = []

    def at(self, t, j):
        """term of iteration k, at iteration j instead"""
        return subst(t, {self.k: lift(j)})


class Ghost:
    def __init__(self, name, init, step, ty=None):
        self.name, self.init, self.step, self.ty = name, init, step, ty


def cell_types(ex, st):
    out = {}
    for f in st.frames:
        for l, c in f.locals.items():
            out[c] = f.fn.locals.get(l)
    return out


def havoc(W, v, ty, name, args):
    """a value of the same shape with arbitrary contents at iteration k"""
    from .exec import sym, base_type, lastseg, type_args
    from . import mir
    if v is None:
        return None
    if isinstance(v, T):
        if v.sort == BOOL:
            return bapp(name, args)
        t = None
        if ty:
            b = base_type(ty)
            if b in RANGES:
                t = b
            elif lastseg(b) == 'U256':
                t = 'u256'
            elif lastseg(b) == 'I256':
                t = 'i256'
        return app(name, args, t)
    if isinstance(v, Iter):
        return Iter(v.src, v.n, app(name + '.pos', args, 'u32'), v.ety, v.maps, v.info)
    if isinstance(v, SVec):
        et = v.ety
        if v.items == [] or v.items is None or True:
            return SVec(et, app(name + '.len', args, 'u32'), lambda j: elem_like(W, v, et, name, args, j), None, ('havoc', name, tuple(args)))
    if isinstance(v, SMap):
        return SMap(v.kty, v.vty, lambda j: bapp(name + '.has', tuple(args) + (j,)), lambda j: sym(W, v.vty, name + '.val', tuple(args) + (j,)), (name, tuple(args)))
    if isinstance(v, Struct):
        d = W.typedef(v.ty) if v.ty not in ('tuple', 'array', '()', 'partial') else None
        parts = None
        if v.ty == 'tuple' and ty and base_type(ty).startswith('('):
            parts = mir.split_top(base_type(ty)[1:-1])
        if v.getter is not None:
            if d is not None:
                return sym(W, v.ty, name, args)
            raise Unsupported('havoc of lazy ' + v.ty)
        out = {}
        for i, x in v.fields.items():
            ft = None
            if parts and i < len(parts):
                ft = parts[i]
            elif d and d[0] == 'struct' and i < len(d[1]):
                ft = d[1][i][1]
            out[i] = havoc(W, x, ft, '%s.%s' % (name, i), args)
        return Struct(v.ty, out, None, v.n)
    if isinstance(v, Enum):
        t = ty if ty and ('Option' in ty or W.typedef(ty)) else v.ty
        if lastseg(t) == 'Option' and not type_args(t):
            raise Unsupported('havoc of untyped option')
        return sym(W, t, name, args)
    if isinstance(v, Opq):
        return v
    if isinstance(v, Ref):
        raise Unsupported('havoc of a reference')
    raise Unsupported('havoc %r' % (v,))


def elem_like(W, v, et, name, args, j):
    from .exec import sym
    if et == 'Val' or et is None:
        raise Unsupported('havoc of untyped vec')
    return sym(W, et, name + '[]', tuple(args) + (lift(j),))


def leaves_of(W, v, prefix, out, get):
    """scalar leaves of a value: (name, extractor(value) -> term, kind)"""
    if isinstance(v, T):
        out.append((prefix, get, 'bool' if v.sort == BOOL else 'int'))
    elif isinstance(v, Iter):
        out.append((prefix + '.pos', lambda s, g=get: g(s).pos, 'pos'))
    elif isinstance(v, SVec):
        out.append((prefix + '.len', lambda s, g=get: g(s).len, 'int'))
        out.append((prefix, get, 'vec'))
    elif isinstance(v, Struct) and v.getter is None:
        for i in v.fields:
            leaves_of(W, v.fields[i], '%s.%s' % (prefix, i), out, lambda s, g=get, i=i: g(s).get(i))
    elif isinstance(v, Struct):
        d = W.typedef(v.ty)
        if d and d[0] == 'struct':
            for i, (fn, ft) in enumerate(d[1]):
                try:
                    leaves_of(W, v.get(i, ft), '%s.%s' % (prefix, fn), out, lambda s, g=get, i=i, ft=ft: g(s).get(i, ft))
                except Unsupported:
                    pass
    elif isinstance(v, Enum):
        out.append((prefix + '#', lambda s, g=get: g(s).discr, 'discr'))
        try:
            from .exec import lastseg
            if lastseg(v.ty) == 'Option':
                leaves_of(W, v.get('Some', 0), prefix + '.some', out, lambda s, g=get: g(s).get('Some', 0))
        except Unsupported:
            pass


def few(info):
    """up to how many elements are taken one by one"""
    if not info:
        return -1
    if info[0] in ('enum', 'rev', 'zip', 'chain', 'step'):
        return max(few(x) for x in info[1:])
    return {'array': 8, 'option': 8, 'range': 4}.get(info[0], -1)


class AutoLoop:
    """at_header implements the rule for every loop"""

    def __init__(self, ghosts=None, cands=None, inv_timeout=1500, facts=None):
        self.ghosts = ghosts or []          # list of functions (ex, rec, st) -> [Ghost]
        self.cands = cands or []            # list of functions (ex, rec) -> [(name, fn(rec, leafvals, k) -> T)]
        self.inv_timeout = inv_timeout
        self.rules = []
        self.facts = facts or []            # list of functions (ex, rec) -> [T]: instances of definitions and proved lemmas

    def at_header(self, ex, st, fr, h, body, work):
        r = fr.inv.get(h)
        if r is not None:
            rec, = r
            rec.paths.append(st)
            return 'stop'
        c = self.concrete(st, fr, h, body)
        if c is not None and fr.inv.get(('concrete', h)) != c:      # a few iterations over an array: all of them are executed
            fr.inv[('concrete', h)] = c
            for h2 in [x for x in fr.inv if x != h and x in body]:
                del fr.inv[h2]
            return None
        rec = self.analyse(ex, st, fr, h, body)
        fr.inv[h] = (rec,)
        # leaving and re-entering an inner loop starts it afresh
        for h2 in [x for x in fr.inv if x != h and x in body]:
            del fr.inv[h2]
        return None

    def concrete(self, st, fr, h, body):
        """position in the array or option (of at most 8 elements) the loop iterates over"""
        found = None
        for b in body:
            for s in fr.fn.blocks[b]:
                m = re.match(r'_\d+ = (?:&mut|copy|move) _(\d+);?$', s.strip())
                v = st.mem.get(fr.locals.get(int(m.group(1)))) if m else None
                if isinstance(v, Ref):
                    v = st.mem.get(v.cell) if not v.projs else None
                if not isinstance(v, Iter):
                    continue
                if not (is_int(v.n) and is_int(v.pos) and 0 <= ival(v.n) <= few(v.info)):
                    return None
                found = (found or ()) + (ival(v.pos),)
        return found

    # -------------------------------------------------------------
    def analyse(self, ex, st, fr, h, body):
        W = ex.W
        lid = next(_ids)
        rec = LoopRec()
        rec.id, rec.header, rec.fn = lid, h, fr.fn
        ks = tuple(st.ghost.get('ks', ()))
        rec.depth = len(ks)
        rec.outer = ks
        rec.W = W
        rec.k = app('k!%d' % lid, (), 'nat')
        rec.entry = st.clone()
        rec.entry_pc = list(st.pc)
        flow = ex.flow(fr.fn)
        live = flow.live_in(h)
        cells = set()
        for b in body:
            for s in fr.fn.blocks[b]:
                import re
                m = re.match(r'\(*\**_(\d+)', s) if ' = ' in s else None
                if m:
                    l = int(m.group(1))
                    if l in live and l in fr.locals:
                        cells.add(fr.locals[l])
                m2 = None
        types = cell_types(ex, st)
        stores, toks, auths, traces = set(), False, False, False
        gen, count = None, {}
        for _ in range(8):
            gen = self.generic(ex, st, rec, cells, types, stores, toks, count)
            sub_ = ex.child()
            backs, exits = sub_.run_loop(gen, h, body)
            ex.absorb(sub_)
            changed = False
            for b in backs:
                for c, v in st.mem.items():
                    if c in cells:
                        continue
                    nv = b.mem.get(c)
                    if nv is not gen.mem.get(c):
                        # a changed cell
                        l = [x for x, cc in fr.locals.items() if cc == c]
                        if l and l[0] not in live:
                            continue
                        cells.add(c)
                        changed = True
                for kk, log in b.store.items():
                    if len(log) > len(gen.store.get(kk, ())) and kk not in stores:
                        stores.add(kk)
                        changed = True
                if len(b.tok) > len(gen.tok) and not toks:
                    toks = True
                    changed = True
            if not changed and not count and backs:
                # counters: one more at the end of every iteration, so at iteration k they are their first value plus k
                for c in cells:
                    x, x0, bs = gen.mem.get(c), st.mem.get(c), [b.mem.get(c) for b in backs]
                    if isinstance(x, Iter) and isinstance(x0, Iter) and all(isinstance(b, Iter) and b.pos is add(x.pos, 1) and b.n is x.n for b in bs):
                        count[c] = add(x0.pos, rec.k)
                    elif isinstance(x, T) and x.op == 'app' and isinstance(x0, T) and all(b is add(x, 1) for b in bs):
                        count[c] = add(x0, rec.k)
                changed = bool(count)
            if not changed:
                break
        else:
            raise Unsupported('loop effects do not stabilise')
        for c in cells:
            if isinstance(gen.mem.get(c), Iter) and any(not isinstance(b.mem.get(c), Iter) or b.mem[c].n is not gen.mem[c].n for b in backs):
                raise Unsupported('loop from the back')
        # ---------------- invariants
        base = len(gen.pc)
        rec.gen = gen
        rec.backs = backs
        lv = []
        for c in sorted(cells):
            if st.mem.get(c) is None:
                continue
            leaves_of(W, gen.mem[c], 'c%d' % c, lv, lambda s, c=c: s.mem[c])
        rec.leaves = lv
        for c in sorted(cells):
            if isinstance(gen.mem.get(c), Iter):
                rec.iters.append(gen.mem[c])
        rec.cells = cells
        ghosts = []
        for gf in self.ghosts:
            for g in gf(ex, rec, st):
                nm = 'G%d.%s' % (lid, g.name)
                term = app(nm, ks + (rec.k,), g.ty)
                rec.ghosts[g.name] = term
                ghosts.append((g, term))
        rec.ghostdefs = ghosts
        g0 = {}
        for g, term in ghosts:
            g0[g.name] = lift(g.init(rec, st))
        rec.ghost0 = g0
        cand = []
        for name, get, kind in lv:
            try:
                x, x0 = get(gen), get(st)
            except Exception:
                continue
            if kind in ('int', 'pos', 'discr'):
                if not (isinstance(x, T) and isinstance(x0, T) and x.sort == INT):
                    continue
                cand.append((name + '=entry', lambda s, k, gh, get=get, x0=x0: eq(get(s), x0)))
                if kind != 'discr':
                    cand.append((name + '=entry+k', lambda s, k, gh, get=get, x0=x0: eq(get(s), add(x0, k))))
                    cand.append((name + '=entry-k', lambda s, k, gh, get=get, x0=x0: eq(get(s), sub(x0, k))))
                    cand.append((name + '>=entry', lambda s, k, gh, get=get, x0=x0: ge(get(s), x0)))
                    cand.append((name + '>=entry+k', lambda s, k, gh, get=get, x0=x0: ge(get(s), add(x0, k))))
                    cand.append((name + '<=entry', lambda s, k, gh, get=get, x0=x0: le(get(s), x0)))
                    if not (is_int(x0) and ival(x0) == 0):
                        cand.append((name + '>=0', lambda s, k, gh, get=get: ge(get(s), 0)))
                        cand.append((name + '>=1', lambda s, k, gh, get=get: ge(get(s), 1)))
                for g, term in ghosts:
                    cand.append(('%s=ghost.%s' % (name, g.name), lambda s, k, gh, get=get, n=g.name: eq(get(s), gh[n])))
            elif kind == 'bool':
                cand.append((name + '=entry', lambda s, k, gh, get=get, x0=x0: eq(get(s), x0)))
            elif kind == 'vec':
                if isinstance(x0, SVec):
                    def pre(s, k, gh, get=get, x0=x0):
                        from .exec import veq
                        v = get(s)
                        j = bvar('p%d' % next(_ids))
                        if is_int(x0.len) and ival(x0.len) == 0:
                            return TRUE
                        return and_(ge(v.len, x0.len), forall([j.args[0]], implies(and_(le(0, j), lt(j, x0.len)), veq(W, v.at(j), x0.at(j)))))
                    if x0.items is None and len(x0.items or ()) == 0:
                        cand.append((name + ' keeps entry prefix', pre))
            if kind == 'pos':
                it = [s for s in rec.iters if s.pos is x]
                if it:
                    n = it[0].n
                    p0 = x0
                    cand.append((name + '<=n', lambda s, k, gh, get=get, n=n, p0=p0: or_(le(get(s), n), eq(get(s), p0))))
        self.flow(rec, gen, lv)
        cand += self.lasts
        cand += self.visited(rec, gen, lv)
        cand += self.mapped(rec, gen, lv)
        for cf in self.cands:
            cand += cf(ex, rec)
        gterms = {g.name: t for g, t in ghosts}
        facts = []
        self.rules = []
        for ff in self.facts:
            for t in ff(ex, rec):
                if isinstance(t, tuple):        # a definition: under t[0], t[1] is t[2]
                    self.rules.append(t)
                    t = implies(t[0], eq(t[1], t[2]))
                if t is not TRUE:
                    facts.append(t)
        # entry
        keep = []
        for name, f in cand:
            try:
                c0 = f(st, I(0), g0)
                ck = f(gen, rec.k, gterms)
            except Unsupported:
                continue
            if ck is TRUE:
                continue
            if c0 is TRUE or (c0 is not FALSE and self.valid(st.pc + facts, c0, hard='ghost' in name or name.startswith('spec'))):
                keep.append((name, f, ck))
        # preservation
        steps = []
        for b in backs:
            gh = {}
            for g, t in ghosts:
                gh[g.name] = lift(g.step(rec, b, t))
            steps.append((b, gh))
        changed = True
        while changed:
            changed = False
            hyp = facts + [ck for _, _, ck in keep]
            nk = []
            for name, f, ck in keep:
                okk = True
                for b, gh in steps:
                    try:
                        c1 = f(b, add(rec.k, 1), gh)
                    except Unsupported:
                        okk = False
                        break
                    if c1 is TRUE:
                        continue
                    if c1 is FALSE or not self.valid(b.pc + hyp, c1, hard='ghost' in name or name.startswith('spec')):
                        okk = False
                        break
                if okk:
                    nk.append((name, f, ck))
                else:
                    changed = True
                    rec.dropped.append(name)
            keep = nk
        rec.invs = [(n, ck) for n, f, ck in keep] + [('fact', t) for t in facts]
        rec.ninv = len(keep)
        ex.loop_recs.append(rec)
        # ---------------- the state the caller continues with
        st.mem, st.store, st.tok, st.trace, st.ghost = gen.mem, gen.store, gen.tok, gen.trace, gen.ghost
        st.pc, st.pcset = list(gen.pc), set(gen.pcset)
        for _, ck in rec.invs:
            st.assume(ck)
        rec.start = st.clone()
        return rec

    def flow(self, rec, gen, lv):
        """what the values carried from one iteration to the next are, where that depends on the iteration number only:
        counters (one more every time) and values each iteration sets afresh"""
        self.counters, self.sets, self.lasts, self.counted = {}, {}, [], False
        rest = []
        for name, get, kind in lv:
            if kind == 'vec' or not rec.backs:
                continue
            try:
                x, bs = get(gen), [get(b) for b in rec.backs]
            except Exception:
                continue
            try:
                x0 = get(rec.entry)
            except Exception:
                x0 = None
            if not isinstance(x, T) or any(not isinstance(b, T) for b in bs):
                continue
            if isinstance(x0, T) and x is add(x0, rec.k) and all(b is add(x, 1) for b in bs):
                self.counted = True
                continue
            if not (x.op == "app" or x.sort == BOOL):
                continue
            if x.sort == INT and isinstance(x0, T) and all(b is add(x, 1) for b in bs):
                self.counters[x] = x0
            elif all(b is bs[0] for b in bs) and bs[0] is not x:
                rest.append((name, get, x, x0 if isinstance(x0, T) else None, bs[0]))
        J = app('some.iteration')
        for name, get, x, x0, f in rest:
            if not self.closed(self.at_iter(rec, f, J), rec):
                continue
            self.sets[x] = (x0, f)

            def g(s, k, gh, get=get, x0=x0, f=f):
                k = lift(k)
                if is_int(k) and ival(k) == 0:
                    return TRUE
                v = get(s)
                c = implies(gt(k, 0), (iff if v.sort == BOOL else eq)(v, self.at_iter(rec, f, sub(k, 1))))
                return c if x0 is None else and_(c, implies(le(k, 0), (iff if v.sort == BOOL else eq)(v, x0)))
            self.lasts.append(('spec %s is the last one' % name, g))

    def at_iter(self, rec, f, j):
        """a term of the arbitrary iteration, for iteration j"""
        J = app('some.other.iteration')
        f = subst(f, {x: add(x0, J) for x, x0 in self.counters.items()})
        return subst(subst(f, {rec.k: J}), {J: lift(j)})

    def closed(self, f, rec):
        """f says nothing about the havoc-ed state of this loop or of a loop within it"""
        own = ('k!%d' % rec.id, 'L%d.' % rec.id)
        for u in subterms([f]):
            if u.op == 'bvar':
                return False
            if u.op in ('app', 'bapp'):
                if u.args[0].startswith(own):
                    return False
                m = re.match(r'(?:L|k!)(\d+)', u.args[0])
                if m and int(m.group(1)) > rec.id:
                    return False
        return True

    def visited(self, rec, gen, lv):
        """what going on to the next iteration shows about the element at hand holds for every earlier one"""
        if not (self.counters or self.counted) or len(rec.backs) > 4:
            return []
        J = app('some.iteration')
        old = gen.pcset
        alts, guards, first = [], [], False
        firsts = []

        def says(b, given=None):
            """what path b shows about element J, and about J itself"""
            fs, gs = [], []
            for f in b.pc:
                if f in old or f.op == 'forall':
                    continue
                f1 = subst(f, given) if given else f
                if f1 is FALSE:
                    return FALSE, FALSE
                if self.nonlinear([f]):
                    continue
                for x, (x0, l) in self.sets.items():
                    if x in f_sub(f1):
                        firsts.append(x)
                        f1 = subst(f1, {x: subst(self.at_iter(rec, l, J), {J: sub(J, 1)})})
                f1 = self.at_iter(rec, f1, J)
                if J in f_sub(f1) and self.closed(f1, rec):
                    el = any(u.op in ('app', 'bapp') and u is not J and J in f_sub(u) for u in f_sub(f1))
                    (fs if el else gs).append(f1)
            return and_(*fs), and_(*gs)
        for b in rec.backs:
            fs, gs = says(b)
            alts.append(fs)
            guards.append(gs)
        first = bool(firsts)
        out = []

        def each(body, nm):
            def g(s, k, gh):
                j = bvar('v%d' % next(_ids))
                return forall([j.args[0]], implies(and_(le(1 if first else 0, j), lt(j, k)), subst(body, {J: j})))
            out.append((nm, g))

        def last(body, nm):
            def g(s, k, gh):
                k = lift(k)
                return TRUE if is_int(k) and ival(k) == 0 else implies(gt(k, 1 if first else 0), subst(body, {J: sub(k, 1)}))
            out.append((nm, g))
        if or_(*guards) is not TRUE:
            common = set(literals(guards[0])).intersection(*[literals(g) for g in guards[1:]])
            for f in sorted(common, key=lambda f: f.id):
                if f.op == 'le':
                    out.append(('guard', lambda s, k, gh, f=f: subst(f, {J: sub(k, 1)})))
            if not any(kind == 'pos' for n, get, kind in lv):
                last(or_(*guards), 'spec guard')
        if or_(*alts) is not TRUE:
            each(or_(*alts), 'spec visited')
        # flags and counters: unchanged as long as no element has been met that changes them
        discr = {n: g for n, g, kind in lv if kind == 'discr'}
        for name, get, kind in lv:
            if kind not in ('int', 'bool', 'discr'):
                continue
            try:
                x, bx = get(gen), [get(b) for b in rec.backs]
            except Exception:
                continue
            try:
                x0 = get(rec.entry)
            except Exception:
                x0 = None
            if not isinstance(x, T) or any(not isinstance(v, T) for v in bx):
                continue
            changed = [i for i, v in enumerate(bx) if v is not x]
            if not changed or len(changed) == len(bx):
                continue
            if isinstance(x0, T):
                keeps = [says(b, {x: x0})[0] for i, b in enumerate(rec.backs) if bx[i] is x]
                if or_(*keeps) is not TRUE:
                    def g(s, k, gh, get=get, x0=x0, body=or_(*keeps), way=0):
                        j = bvar('v%d' % next(_ids))
                        same = (iff if x0.sort == BOOL else eq)(get(s), x0)
                        none = forall([j.args[0]], implies(and_(le(1 if first else 0, j), lt(j, k)), subst(body, {J: j})))
                        return implies(same, none) if way else implies(none, same)
                    out.append(('spec %s unchanged' % name, g))
                    out.append(('spec %s unchanged only if' % name, lambda s, k, gh, g=g: g(s, k, gh, way=1)))
            # the number of an element that was met: it is one that makes the loop remember it
            if kind != 'int' or first:
                continue
            offs = set(sub(self.at_iter(rec, bx[i], J), J) for i in changed)
            off = offs.pop()
            pre = name[:-5] + '#' if name.endswith('.some') else None
            if offs or not is_int(off) or not (pre in discr or isinstance(x0, T)):
                continue

            def w(s, k, gh, get=get, x0=x0, off=off, pre=pre, body=or_(*[alts[i] for i in changed])):
                c = eq(discr[pre](s), 1) if pre in discr else ne(get(s), x0)
                if c is FALSE:
                    return TRUE
                n = sub(get(s), off)
                return implies(c, and_(le(0, n), lt(n, k), subst(body, {J: n})))
            out.append(('spec %s is one that was met' % name, w))
        return out

    def mapped(self, rec, gen, lv):
        """a list to which every iteration appends one element that depends on the iteration number only: what its elements are"""
        out = []
        if not rec.backs:
            return []
        J = app('some.iteration')
        for name, get, kind in lv:
            if kind != 'vec':
                continue
            v0, xs = get(rec.entry), []
            if not isinstance(v0, SVec):
                continue
            for b in rec.backs:
                v = get(b)
                if not (isinstance(v, SVec) and v.tag and v.tag[0] == 'push' and v.tag[1] is get(gen)):
                    break
                xs.append(v.tag[2])
            if len(xs) != len(rec.backs) or any(x is not xs[0] for x in xs[1:]):
                continue
            x = vmap(xs[0], lambda t: self.at_iter(rec, t, J))
            if x is None or not vall(rec.W, x, lambda t: self.closed(t, rec)):
                continue

            def g(s, k, gh, get=get, x=x, v0=v0):
                from .exec import veq
                v = get(s)
                if v.len is v0.len:
                    return TRUE
                j = bvar('p%d' % next(_ids))
                return and_(eq(v.len, add(v0.len, k)),
                            forall([j.args[0]], implies(and_(le(v0.len, j), lt(j, v.len)), veq(rec.W, v.at(j), vmap(x, lambda t: subst(t, {J: sub(j, v0.len)}))))))
            out.append(('spec %s mapped' % name, g))
        return out

    def valid(self, pc, goal, hard=False):
        if goal in pc:
            return True
        ts = list(pc) + [not_(goal)]
        r = smt.lin_check(ts, 300)
        if r == 'unsat':
            return True
        if not hard or r == 'sat' and not self.nonlinear(ts):
            return False
        from .smt import relevant
        us = set(subterms([goal]))
        if not self.rules or goal.op != 'eq0' or not any(u.op in ('ite', 'wrap') for u in us):
            rel = relevant(pc, goal)
            if smt.quick_check(rel + [not_(goal)], self.inv_timeout) == 'unsat':
                return True
            return any(u.op == 'forall' for u in subterms(list(pc) + [goal])) and ground.prove(list(pc), goal, 3 * self.inv_timeout / 1000)
        for g, l, r in self.rules:
            if l in us and smt.lin_check(list(pc) + [not_(g)], 300) == 'unsat':
                goal = replace(goal, {l: r})
        return self.by_cases(list(pc), goal, 0, [24])

    def by_cases(self, pc, goal, depth, left, lits=()):
        """validity by deciding the case distinctions of the goal one by one and dropping machine-integer reductions of
        values shown to be in range"""
        from .smt import relevant
        from .terms import RANGES
        if goal is TRUE:
            return True
        for _ in range(20):
            us = subterms([goal])
            conds, wraps = [], []
            for u in us:
                if u.op == 'ite':
                    for c in atoms(u.args[0]):
                        conds.append(c)
                if u.op == 'wrap' and not any(w.op in ('wrap', 'ite') for w in subterms([u.args[0]])):
                    wraps.append(u)
            m = {}
            for w in wraps:
                lo, hi = RANGES[w.args[1]]
                x = w.args[0]
                g = and_(ge(x, lo), le(x, hi))
                if smt.lin_check(list(pc) + [not_(g)], 300) == 'unsat' or smt.quick_check(relevant(pc, g) + [not_(g)], 1000) == 'unsat':
                    m[w] = x
            if not m:
                break
            goal = replace(goal, m)
            if goal is TRUE:
                return True
        if smt.lin_check(list(pc) + [not_(goal)], 300) == 'unsat':
            return True
        hard = lambda c: any(u.op in ('wrap', 'tdiv') for u in subterms([c]))
        conds = sorted(set(conds), key=lambda c: (hard(c), len(subterms([c]))))
        if not conds or left[0] <= 0:
            r = smt.quick_check(relevant(pc, goal) + [not_(goal)], self.inv_timeout)
            if r == 'unsat':
                return True
            return False
        c = conds[0]
        for lit, b in ((c, TRUE), (not_(c), FALSE)):
            left[0] -= 1
            pc2 = list(pc) + [lit]
            if smt.lin_check(pc2, 300) == 'unsat':
                continue
            ls = lits + (lit,)
            g2 = replace(goal, {c: b})
            fix = fixed(ls)
            if fix:
                g2 = replace(g2, fix)
                pc2 += [eq(a, v) for a, v in fix.items()]
            if not self.by_cases(pc2, g2, depth + 1, left, ls):
                return False
        return True

    def nonlinear(self, ts):
        for u in subterms(ts):
            if u.op in ('forall', 'isqrt', 'pow') or (u.op == 'tdiv' and not is_int(u.args[1])):
                return True
            if u.op == 'poly' and any(len(m) > 1 for m, c in u.args[0]):
                return True
        return False

    def generic(self, ex, st, rec, cells, types, stores, toks, count={}):
        W = ex.W
        ks = rec.outer + (rec.k,)
        s = st.clone()
        s.ghost['ks'] = ks
        for c in sorted(cells):
            v = st.mem.get(c)
            if v is None:
                continue
            s.mem[c] = x = havoc(W, v, types.get(c), 'L%d.c%d' % (rec.id, c), ks)
            if c in count:
                old = x.pos if isinstance(x, Iter) else x
                s.mem[c] = x.at(count[c]) if isinstance(x, Iter) else count[c]
                if tm.APP_TYPE.get(old.args[0]) in RANGES:
                    s.assume(in_range(count[c], tm.APP_TYPE[old.args[0]]))
        for kk in sorted(stores):
            nm = 'L%d.%s.%s' % (rec.id, kk[0], kk[1])
            from .exec import sym
            s.store[kk] = list(s.store.get(kk, [])) + [(None, lambda a, nm=nm: bapp(nm + '.has', ks + tuple(a)), lambda a, ty, nm=nm: sym(W, ty, nm, ks + tuple(a)))]
            s.wcount += 1
        if toks:
            s.tok = list(s.tok) + [('havoc', 'L%d' % rec.id, ks)]
        s.trace = list(s.trace) + [('loop', rec)]
        s.assume(ge(rec.k, 0))
        return s


def literals(c):
    return list(c.args) if c.op == 'and' else [c]


def atoms(c):
    if c.op in ('and', 'or', 'not'):
        return [a for x in c.args for a in atoms(x)]
    if c.op == 'ite':
        return [a for x in c.args for a in atoms(x)]
    return [] if c in (TRUE, FALSE) else [c]


def fixed(lits):
    """terms whose value the bounds among the literals determine"""
    b = {}
    for l in lits:
        if l.op != 'le':
            continue
        d = dict(tm._poly(l.args[0]))
        c = d.pop((), 0)
        if len(d) != 1:
            continue
        (m, k), = d.items()
        if len(m) != 1 or k not in (1, -1):
            continue
        lo, hi = b.get(m[0], (None, None))
        if k == 1:
            hi = -c if hi is None else min(hi, -c)
        else:
            lo = c if lo is None else max(lo, c)
        b[m[0]] = (lo, hi)
    return {a: I(lo) for a, (lo, hi) in b.items() if lo is not None and lo == hi}


def replace(t, m):
    """t with subterms replaced, simplified again"""
    memo = {}

    def go(x):
        if x in m:
            return m[x]
        if x not in memo:
            ch = children(x)
            if not ch:
                memo[x] = x
            else:
                nc = [go(c) for c in ch]
                memo[x] = x if all(a is b for a, b in zip(nc, ch)) else rebuild(x, nc)
        return memo[x]
    return go(t)


def f_sub(f):
    return set(subterms([f]))


def vmap(x, f):
    """apply f, a substitution, to the scalars of a value (None: not a plain value)"""
    if isinstance(x, T):
        return f(x)

    def must(v):
        v = vmap(v, f)
        if v is None:
            raise Unsupported('part of a value')
        return v
    try:
        if isinstance(x, Struct):
            return Struct(x.ty, {i: must(v) for i, v in x.fields.items()}, x.getter and (lambda i, ft: must(x.getter(i, ft))), x.n)
        if isinstance(x, Enum):
            return Enum(x.ty, f(x.discr), {i: must(v) for i, v in x.pay.items()}, x.getter and (lambda n, i, ft: must(x.getter(n, i, ft))))
        if isinstance(x, SVec):
            if x.items is not None:
                return SVec(x.ety, f(x.len), None, [must(v) for v in x.items])
            P_ = app('some.place')
            return SVec(x.ety, f(x.len), lambda j: vmap(vmap(x.at(P_), f), lambda t: subst(t, {P_: lift(j)})))
    except Unsupported:
        return None
    return None


def vall(W, x, p, depth=0):
    """p holds for every scalar of a value"""
    if isinstance(x, T):
        return p(x)
    if depth > 6:
        return False
    d = W.typedef(x.ty) if isinstance(x, (Struct, Enum)) and x.ty not in ('tuple', 'array', '()', 'partial') else None
    try:
        if isinstance(x, Struct):
            if d and d[0] == 'struct':
                vs = [x.get(i, ft) for i, (_, ft) in enumerate(d[1])]
            elif x.getter is None:
                vs = list(x.fields.values())
            else:
                vs = [x.get(i) for i in range(x.n)]
        elif isinstance(x, Enum):
            if not p(x.discr):
                return False
            if d and d[0] == 'enum':
                vs = [x.get(vn, i, ft) for vn, _, fl in d[1] for i, (_, ft) in enumerate(fl or ()) if (vn, i) in x.pay or x.getter]
            elif x.getter is None:
                vs = list(x.pay.values())
            elif x.ty.startswith('Option'):
                vs = [x.get('Some', 0)]
            else:
                return False
        elif isinstance(x, SVec):
            vs = [x.len] + (list(x.items) if x.items is not None else [x.at(app('some.place'))])
        else:
            return False
    except (Unsupported, TypeError):
        return False
    return all(vall(W, v, p, depth + 1) for v in vs)


AUTO = AutoLoop()


class PureLoops:
    """contract of a numeric function with loops, used at its calls: its result is a function of its arguments (it has no
    effects), or it fails.  The body is verified on its own where a property needs more."""

    NUM = re.compile(r'^(&?(?:\[(?:[iu](?:8|16|32|64|128|size))(?:; \d+)?\]|[iu](?:8|16|32|64|128|size)|bool|soroban_sdk::(?:U256|I256)|&?soroban_sdk::Env|&?Env))$')

    def __init__(self):
        self.cache = {}
        self.used = {}

    def calls_loops(self, ex, fn, seen=None):
        """does fn (transitively) call a function of its crate with loops"""
        from . import mir
        from .exec import norm
        seen = seen if seen is not None else set()
        for b, ss in fn.blocks.items():
            t = mir.stmt(ss[-1])
            if t[0] != 'call':
                continue
            try:
                g = ex.W.find_fn(norm(t[2]), fn.crate)
            except Exception:
                g = None
            if g is None or g.kind != 'fn' or g.name in seen or g.crate != fn.crate:
                continue
            seen.add(g.name)
            if ex.loops_of(g) or self.calls_loops(ex, g, seen):
                return True
        return False

    def wants(self, ex, fn):
        r = self.cache.get(fn.name)
        if r is None:
            tys = [norm_ty(fn.locals[a]) for a in fn.args]
            ret = norm_ty(fn.locals.get(0, '()'))
            r = bool(ex.loops_of(fn)) and not (getattr(self, 'abstract_loops', None) == 'inner' and self.calls_loops(ex, fn)) and all(self.NUM.match(t) for t in tys) and bool(self.NUM.match(ret)) and '[' not in ret and 'mut' not in ' '.join(tys)
            self.cache[fn.name] = r
        return r

    def apply(self, ex, st, fn, args):
        from .exec import flatten, sym
        flat = []
        for a in args:
            v = ex.deref(st, a) if isinstance(a, Ref) else a
            while isinstance(v, Ref):
                v = ex.deref(st, v)
            if isinstance(v, Opq):
                continue
            try:
                flat += flatten(ex.W, v)
            except Unsupported:
                return NotImplemented
        self.used[fn.name] = self.used.get(fn.name, 0) + 1
        return sym(ex.W, norm_ty(fn.locals[0]), 'fn:' + fn.name.split('::')[-1], tuple(flat))


class Pure(PureLoops):
    """effect-free functions with a scalar result are evaluated once and their outcomes joined into one value, so that
    case distinctions inside them do not multiply the paths of the caller; numeric functions with loops are kept as
    functions of their arguments when `abstract_loops` is set"""

    SCALAR = re.compile(r'^(?:[iu](?:8|16|32|64|128|size)|bool|soroban_sdk::(?:U256|I256))$')

    def __init__(self, abstract_loops=False):
        PureLoops.__init__(self)
        self.abstract_loops = abstract_loops
        self.bad = set()
        self.w2 = {}

    def wants(self, ex, fn):
        if self.abstract_loops and PureLoops.wants(self, ex, fn):
            return True
        if fn.name in self.bad:
            return False
        r = self.w2.get(fn.name)
        if r is None:
            tys = [norm_ty(fn.locals[a]) for a in fn.args]
            r = bool(self.SCALAR.match(norm_ty(fn.locals.get(0, '()')))) and not any('&mut' in t or 'closure' in t for t in tys) and not ex.loops_of(fn)
            self.w2[fn.name] = r
        return r

    def apply(self, ex, st, fn, args):
        if self.abstract_loops and PureLoops.wants(self, ex, fn):
            return PureLoops.apply(self, ex, st, fn, args)
        from .exec import vite
        if ex.keep_panics:
            return NotImplemented
        sub_ = ex.child()
        s = st.clone()
        n0 = len(s.pc)
        s.frames = []
        s.wait = False
        ends = sub_.run(fn, args, s)
        ex.absorb(sub_)
        ends = [e for e in ends if e.kind == 'return']
        for e in ends:
            t = e.st
            if len(t.trace) != len(st.trace) or t.wcount != st.wcount or t.auth != st.auth or t.tok != st.tok or t.bounded or not isinstance(e.ret, T):
                self.bad.add(fn.name)
                return NotImplemented
        from .exec import Panic
        if not ends:
            return Panic('no return from ' + fn.name)
        deltas = [e.st.pc[n0:] for e in ends]
        common = [x for x in deltas[0] if all(x in set(d) for d in deltas[1:])]
        for x in common:
            st.assume(x)
        cs = set(common)
        val, cond = join([([x for x in d if x not in cs], e.ret) for d, e in zip(deltas, ends)])
        st.assume(cond)
        return val


def join(ends):
    """[(facts, value)] of the outcomes of one deterministic evaluation -> (joined value, condition that one of them
    happens); branches on the first fact by which outcomes are told apart"""
    if len(ends) == 1:
        return ends[0][1], and_(*ends[0][0])
    if all(v is ends[0][1] for _, v in ends):
        return ends[0][1], or_(*[and_(*d) for d, _ in ends])
    common = [x for x in ends[0][0] if all(x in set(d) for d, _ in ends[1:])]
    cs = set(common)
    ends = [([x for x in d if x not in cs], v) for d, v in ends]
    lit = None
    for x in ends[0][0]:
        nx = not_(x)
        ns = set(nx.args) if nx.op == 'and' else {nx}
        yes = [(d, v) for d, v in ends if x in d]
        no = [(d, v) for d, v in ends if x not in d and all(y in d for y in ns)]
        if no and len(yes) + len(no) == len(ends):
            v1, c1 = join([([y for y in d if y is not x], v) for d, v in yes])
            v2, c2 = join([([y for y in d if y not in ns], v) for d, v in no])
            return ite(x, v1, v2), and_(*common, ite(x, c1, c2) if c1 is not TRUE or c2 is not TRUE else TRUE)
    val, ors = None, []
    for d, v in ends:
        c = and_(*d)
        ors.append(c)
        val = v if val is None else ite(c, v, val)
    return val, and_(*common, or_(*ors))


def norm_ty(t):
    return t.replace("'_ ", '').strip()
