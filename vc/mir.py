"""Parser for rustc's textual MIR (1.79, -Zmir-opt-level=0, untrimmed paths)."""
import re


class MirError(Exception):
    pass


OPEN = {'(': ')', '[': ']', '{': '}', '<': '>'}


def scan_string(s, i):
    """s[i] == '"' ; returns index after closing quote"""
    i += 1
    while s[i] != '"':
        if s[i] == '\\':
            i += 1
        i += 1
    return i + 1


def split_top(s, sep=','):
    """split at top-level separators"""
    out, depth, cur, i, n = [], 0, 0, 0, len(s)
    while i < n:
        c = s[i]
        if c == '"':
            i = scan_string(s, i)
            continue
        if c == "'" and i + 2 < n and (s[i+2] == "'" or s[i+1] == '\\'):
            j = s.index("'", i + 2)
            i = j + 1
            continue
        if c in '([{<':
            depth += 1
        elif c in ')]}':
            depth -= 1
        elif c == '>':
            if i > 0 and s[i-1] in '-=':
                pass
            else:
                depth -= 1
        elif c == sep and depth == 0:
            out.append(s[cur:i].strip())
            cur = i + 1
        i += 1
    last = s[cur:].strip()
    if last or out:
        out.append(last)
    if out and out[-1] == '':
        out.pop()
    return out


def match_paren(s, i):
    """s[i] is an opening bracket; index of its closing partner (brackets () [] {} only, strings skipped)"""
    depth = 0
    n = len(s)
    while i < n:
        c = s[i]
        if c == '"':
            i = scan_string(s, i)
            continue
        if c in '([{':
            depth += 1
        elif c in ')]}':
            depth -= 1
            if depth == 0:
                return i
        i += 1
    raise MirError('unbalanced: ' + s)


# ---------------------------------------------------------------- places / operands
# place: (local:int, projs: tuple) ; proj: ('*',) | ('f', idx, ty) | ('v', variant) | ('i', local) | ('c', idx, from_end)
def parse_place(s):
    p, rest = _place(s.strip())
    if rest.strip():
        raise MirError('place rest %r in %r' % (rest, s))
    return p


def _place(s):
    if s.startswith('_'):
        m = re.match(r'_(\d+)', s)
        base = (int(m.group(1)), ())
        rest = s[m.end():]
    elif s.startswith('(*'):
        p, rest = _place(s[2:])
        if not rest.startswith(')'):
            raise MirError('deref ' + s)
        base = (p[0], p[1] + (('*',),))
        rest = rest[1:]
    elif s.startswith('('):
        p, rest = _place(s[1:])
        if rest.startswith('.'):
            m = re.match(r'\.(\d+): ', rest)
            j = match_paren('(' + rest, 0) - 1
            ty = rest[m.end():j]
            base = (p[0], p[1] + (('f', int(m.group(1)), ty),))
            rest = rest[j+1:]
        elif rest.startswith(' as '):
            j = rest.index(')')
            base = (p[0], p[1] + (('v', rest[4:j].strip()),))
            rest = rest[j+1:]
        else:
            raise MirError('place ' + s)
    else:
        raise MirError('place ' + s)
    while rest.startswith('['):
        j = rest.index(']')
        ix = rest[1:j]
        m = re.match(r'_(\d+)$', ix)
        if m:
            base = (base[0], base[1] + (('i', int(m.group(1))),))
        else:
            m = re.match(r'(-?)(\d+) of (\d+)$', ix)
            if m:
                base = (base[0], base[1] + (('c', int(m.group(2)), bool(m.group(1))),))
            else:
                m = re.match(r'(\d*):(-?)(\d*)$', ix) or re.match(r'(\d*)\.\.(-?)(\d*)$', ix)
                if not m:
                    raise MirError('index ' + ix)
                base = (base[0], base[1] + (('s', int(m.group(1) or 0), m.group(2), int(m.group(3) or 0)),))
        rest = rest[j+1:]
    return base, rest


# operand: ('move'|'copy', place) | ('const', text)
def parse_operand(s):
    s = s.strip()
    if s.startswith('move '):
        return ('move', parse_place(s[5:]))
    if s.startswith('copy '):
        return ('copy', parse_place(s[5:]))
    if s.startswith('const '):
        return ('const', s[6:].strip())
    if s.startswith('_') or s.startswith('('):
        return ('copy', parse_place(s))
    return ('const', s)      # e.g. a bare fn item


BINOPS = {'Add', 'Sub', 'Mul', 'Div', 'Rem', 'BitXor', 'BitAnd', 'BitOr', 'Shl', 'Shr', 'Eq', 'Lt', 'Le', 'Ne', 'Ge',
          'Gt', 'Cmp', 'CheckedAdd', 'CheckedSub', 'CheckedMul', 'AddUnchecked', 'SubUnchecked', 'MulUnchecked',
          'AddWithOverflow', 'SubWithOverflow', 'MulWithOverflow', 'CheckedShl', 'CheckedShr', 'ShlUnchecked', 'ShrUnchecked', 'Offset'}


def parse_rvalue(s):
    s = s.strip()
    if s.startswith('&'):
        m = re.match(r'&(raw const |raw mut |mut |fake shallow |fake )?', s)
        return ('ref', (m.group(1) or '').strip(), parse_place(s[m.end():]))
    m = re.match(r'(\w+)\(', s)
    if m and s.endswith(')'):
        nm = m.group(1)
        if nm in BINOPS:
            a, b = split_top(s[m.end():-1])
            return ('bin', nm, parse_operand(a), parse_operand(b))
        if nm in ('Not', 'Neg'):
            return ('un', nm, parse_operand(s[m.end():-1]))
        if nm == 'discriminant':
            return ('discr', parse_place(s[m.end():-1]))
        if nm == 'Len':
            return ('len', parse_place(s[m.end():-1]))
        if nm in ('CopyForDeref',):
            return ('use', ('copy', parse_place(s[m.end():-1])))
    if s.startswith('deref_copy '):
        return ('use', ('copy', parse_place(s[len('deref_copy '):])))
    if s.startswith('(') and _is_place(s):
        return ('use', ('copy', parse_place(s)))
    if s.startswith('('):
        # tuple or place-copy / cast
        j = match_paren(s, 0)
        if j == len(s) - 1:
            inner = s[1:-1]
            if inner.startswith('*') or re.match(r'[_(].*?(\.\d+: | as )', inner) and _is_place(s):
                return ('use', parse_operand(s))
            return ('agg', 'tuple', '', None, [parse_operand(x) for x in split_top(inner)])
    m = re.match(r'(.*) as (.*) \((\w+(?:\(.*\))?)\)$', s)
    if m and (s.startswith('move ') or s.startswith('copy ') or s.startswith('const ') or s.startswith('_') or s.startswith('(')
              or re.match(r'[\w:<{]', s)):
        try:
            return ('cast', parse_operand(m.group(1)), m.group(2), m.group(3))
        except MirError:
            pass
    if s.startswith('move ') or s.startswith('copy ') or s.startswith('const '):
        return ('use', parse_operand(s))
    if s.startswith('_') and _is_place(s):
        return ('use', ('copy', parse_place(s)))
    if s.startswith('['):
        inner = s[1:-1]
        parts = split_top(inner, ';')
        if len(parts) == 2:
            return ('repeat', parse_operand(parts[0]), parts[1].strip())
        return ('agg', 'array', '', None, [parse_operand(x) for x in split_top(inner)])
    if s.startswith('{closure@'):
        j = match_paren(s, 0)
        name = s[:j+1]
        rest = s[j+1:].strip()
        ops = []
        if rest.startswith('{'):
            for fld in split_top(rest[1:-1]):
                ops.append(parse_operand(fld.split(': ', 1)[1]))
        return ('agg', 'closure', name, None, ops)
    if s.endswith('}'):
        # struct literal  Path { a: op, .. }
        i = _struct_brace(s)
        path = s[:i].strip()
        inner = s[i+1:-1].strip()
        ops, names = [], []
        for fld in split_top(inner):
            nm, o = fld.split(': ', 1)
            names.append(nm)
            ops.append(parse_operand(o))
        return ('agg', 'adt', path, names, ops)
    if s.endswith(')'):
        # tuple struct / variant
        i = _call_paren(s)
        return ('agg', 'adt', s[:i].strip(), None, [parse_operand(x) for x in split_top(s[i+1:-1])])
    if re.match(r'^[<\w]', s):
        return ('agg', 'adt', s, None, [])
    raise MirError('rvalue ' + s)


def _is_place(s):
    try:
        parse_place(s)
        return True
    except (MirError, ValueError, AttributeError):
        return False


def _struct_brace(s):
    # index of the '{' matching the final '}'
    depth = 0
    for i in range(len(s) - 1, -1, -1):
        if s[i] == '}':
            depth += 1
        elif s[i] == '{':
            depth -= 1
            if depth == 0:
                return i
    raise MirError(s)


def _call_paren(s):
    """index of '(' matching the final ')' ; strings may contain parens, so scan forward"""
    stack = []
    i, n = 0, len(s)
    while i < n:
        c = s[i]
        if c == '"':
            i = scan_string(s, i)
            continue
        if c in '([{':
            stack.append((c, i))
        elif c in ')]}':
            o = stack.pop()
            if not stack and i == n - 1:
                return o[1]
        i += 1
    raise MirError('call ' + s)


def parse_targets(s):
    """'[return: bb1, unwind unreachable]' -> dict"""
    d = {}
    s = s.strip()
    if s.startswith('['):
        for part in split_top(s[1:-1]):
            if ': ' in part:
                k, v = part.split(': ', 1)
                d[k.strip()] = v.strip()
    return d


def bbnum(s):
    return int(s[2:])


def parse_line(s):
    """one statement or terminator (without trailing ;)"""
    if s in ('return', 'unreachable', 'resume', 'nop') or s.startswith('terminate'):
        return (s.split('(')[0],)
    if s.startswith(('StorageLive', 'StorageDead', 'Retag', 'FakeRead', 'PlaceMention', 'Coverage', 'ConstEvalCounter', 'Deinit',
                     'AscribeUserType', 'assume(')):
        return ('nop',)
    if s.startswith('goto -> '):
        return ('goto', bbnum(s[8:]))
    if s.startswith('switchInt('):
        j = match_paren(s, len('switchInt'))
        op = parse_operand(s[len('switchInt('):j])
        t = parse_targets(s[j+1:].strip()[3:])
        tg = [(int(k), bbnum(v)) for k, v in t.items() if k != 'otherwise']
        ow = bbnum(t['otherwise']) if 'otherwise' in t else None
        return ('switch', op, tg, ow)
    if s.startswith('drop('):
        j = match_paren(s, 4)
        t = parse_targets(s[j+1:].strip()[3:])
        return ('goto', bbnum(t['return']))
    if s.startswith('assert('):
        j = match_paren(s, 6)
        parts = split_top(s[7:j])
        c = parts[0]
        want = True
        if c.startswith('!'):
            want = False
            c = c[1:]
        t = parse_targets(s[j+1:].strip()[3:])
        return ('assert', parse_operand(c), want, parts[1] if len(parts) > 1 else '', bbnum(t['success']))
    if s.startswith('discriminant('):
        j = match_paren(s, len('discriminant'))
        return ('setdiscr', parse_place(s[len('discriminant('):j]), int(s.split('=')[1]))
    if s.startswith('falseEdge') or s.startswith('falseUnwind'):
        m = re.search(r'bb(\d+)', s)
        return ('goto', int(m.group(1)))
    # assignment / call
    i = _assign_pos(s)
    lhs, rhs = s[:i], s[i+3:]
    m = re.search(r'\) -> (\[.*\]|unwind .*|bb\d+)$', rhs)
    if m:
        callee_args = rhs[:m.start()+1]
        k = _call_paren(callee_args)
        callee = callee_args[:k].strip()
        args = [parse_operand(x) for x in split_top(callee_args[k+1:-1])]
        t = parse_targets(m.group(1))
        ret = bbnum(t['return']) if 'return' in t else None
        return ('call', parse_place(lhs), callee, args, ret)
    return ('assign', parse_place(lhs), parse_rvalue(rhs))


def _assign_pos(s):
    # first ' = ' outside of strings and brackets
    depth, i = 0, 0
    while i < len(s):
        c = s[i]
        if c == '"':
            i = scan_string(s, i)
            continue
        if c in '([{':
            depth += 1
        elif c in ')]}':
            depth -= 1
        elif c == ' ' and depth == 0 and s.startswith(' = ', i):
            return i
        i += 1
    raise MirError('statement ' + s)


class Fn:
    __slots__ = ('name', 'args', 'ret', 'locals', 'debug', 'blocks', 'kind', 'crate', 'loops', '_raw', 'debugall')

    def __repr__(self):
        return '<fn %s>' % self.name


def parse_fn(raw, kind):
    f = Fn()
    f.kind = kind
    f.loops = None
    lines = raw.split('\n')
    hd = lines[0]
    if kind == 'fn':
        i = hd.index('(', _name_end(hd))
        f.name = hd[3:i]
        j = match_paren(hd, i)
        f.args = []
        f.locals = {}
        for a in split_top(hd[i+1:j]):
            m = re.match(r'_(\d+): (.*)$', a)
            f.args.append(int(m.group(1)))
            f.locals[int(m.group(1))] = m.group(2)
        m = re.match(r' -> (.*) \{$', hd[j+1:])
        f.ret = m.group(1)
    else:
        m = re.match(r'(?:const|static(?: mut)?) (.*) = \{$', hd)
        nm = m.group(1)
        k = _colon(nm)
        f.name, f.ret = nm[:k], nm[k+2:]
        f.args = []
        f.locals = {}
    f.locals[0] = f.ret
    f.debug = {}
    f.debugall = []
    f.blocks = {}
    cur = None
    for ln in lines[1:]:
        s = ln.strip()
        if not s:
            continue
        if cur is None:
            m = re.match(r'bb(\d+)( \(cleanup\))?: \{$', s)
            if m:
                cur = []
                f.blocks[int(m.group(1))] = cur
                continue
            m = re.match(r'let (?:mut )?_(\d+): (.*);$', s)
            if m:
                f.locals[int(m.group(1))] = m.group(2)
                continue
            m = re.match(r'debug (\S+) => (.*);$', s)
            if m:
                f.debug.setdefault(m.group(1), m.group(2))
                f.debugall.append((m.group(1), m.group(2)))
                continue
            continue
        if s == '}':
            cur = None
            continue
        if s.endswith(';'):
            s = s[:-1]
        cur.append(s)
    return f


def _name_end(hd):
    # skip '<impl at file:1:2: 3:4>' etc; the argument list starts at '(' following the name
    i = hd.find('(_1: ')
    if i < 0:
        i = hd.find('() ->')
    return i


def _colon(nm):
    # ': ' separating const name from its type; names may contain '<impl at f:1:1: 2:2>'
    depth = 0
    for i, c in enumerate(nm):
        if c in '<{[(':
            depth += 1
        elif c in '>}])' and not (c == '>' and nm[i-1] == '-'):
            depth -= 1
        elif c == ':' and depth == 0 and nm[i+1] == ' ':
            return i
    raise MirError(nm)


class Mir:
    """all items of one crate"""

    def __init__(self, crate, path):
        self.crate = crate
        self.items = {}     # name -> (kind, raw)
        self.dups = {}
        self.cache = {}
        txt = open(path).read()
        pos = [m.start() for m in re.finditer(r'^(?:fn|const|static) ', txt, re.M)]
        pos.append(len(txt))
        for a, b in zip(pos, pos[1:]):
            raw = txt[a:b]
            e = raw.find('\n}\n')
            if e >= 0:
                raw = raw[:e+2]
            hd = raw[:raw.index('\n')] if '\n' in raw else raw
            kind = hd.split(' ', 1)[0]
            try:
                if kind == 'fn':
                    i = hd.index('(', _name_end(hd))
                    name = hd[3:i]
                else:
                    m = re.match(r'(?:const|static(?: mut)?) (.*) = \{$', hd)
                    if not m:
                        continue
                    name = m.group(1)
                    name = name[:_colon(name)]
            except (ValueError, MirError):
                continue
            if kind == 'fn' and hd.startswith('fn ') and name in self.items:
                if self.items[name][1] != raw:
                    self.dups.setdefault(name, [self.items[name]]).append((kind, raw))
                # keep the fn body over the ctfe 'const fn' duplicate
                continue
            if kind != 'fn' and name in self.items:
                self.dups.setdefault(name, [self.items[name]]).append((kind, raw))
                continue
            self.items[name] = (kind, raw)

    def get(self, name):
        f = self.cache.get(name)
        if f is None:
            it = self.items.get(name)
            if it is None:
                return None
            f = parse_fn(it[1], it[0])
            f.crate = self.crate
            self.cache[name] = f
        return f


_stmt_cache = {}


def stmt(s):
    r = _stmt_cache.get(s)
    if r is None:
        r = parse_line(s)
        _stmt_cache[s] = r
    return r
