"""What the verifier reads from Rust source text: struct/enum field names and impl headers (only to give
names and impl targets to MIR items; every computation is taken from MIR)."""
import os, re
from .mir import split_top


def strip_comments(s):
    out, i, n = [], 0, len(s)
    while i < n:
        if s.startswith('//', i):
            j = s.find('\n', i)
            j = n if j < 0 else j
            out.append(' ' * (j - i))
            i = j
        elif s.startswith('/*', i):
            j = s.find('*/', i)
            j = n if j < 0 else j + 2
            out.append(re.sub(r'[^\n]', ' ', s[i:j]))
            i = j
        elif s[i] == '"':
            j = i + 1
            while j < n and s[j] != '"':
                if s[j] == '\\':
                    j += 1
                j += 1
            out.append(s[i:j+1])
            i = j + 1
        else:
            out.append(s[i])
            i += 1
    return ''.join(out)


def _bal(s, i):
    o = s[i]
    c = {'{': '}', '(': ')'}[o]
    d = 0
    while True:
        if s[i] == o:
            d += 1
        elif s[i] == c:
            d -= 1
            if d == 0:
                return i
        i += 1


def _clean_attrs(s):
    return re.sub(r'#\s*\[[^\]]*\]', ' ', s)


class TypeDB:
    """per crate: name -> ('struct', [(field, ty)]) | ('enum', [(variant, discr, [(field, ty)])])"""

    def __init__(self):
        self.types = {}
        self.int_enums = set()

    def scan(self, path):
        s = strip_comments(open(path).read())
        for m in re.finditer(r'\b(struct|enum)\s+(\w+)\s*(<[^>{(]*>)?\s*([{(;])', s):
            kind, name, _, br = m.groups()
            if name in self.types and '/tests' in path:
                continue
            if kind == 'struct':
                if br == ';':
                    self.types[name] = ('struct', [])
                    continue
                j = _bal(s, m.end() - 1)
                body = _clean_attrs(s[m.end():j])
                fl = []
                for k, part in enumerate(split_top(body)):
                    part = re.sub(r'^\s*pub(\([^)]*\))?\s+', '', part.strip())
                    if br == '{':
                        a, b = part.split(':', 1)
                        fl.append((a.strip(), ' '.join(b.split())))
                    else:
                        fl.append((str(k), ' '.join(part.split())))
                self.types[name] = ('struct', fl)
            else:
                if br != '{':
                    continue
                j = _bal(s, m.end() - 1)
                body = _clean_attrs(s[m.end():j])
                vs, d = [], 0
                for part in split_top(body):
                    part = part.strip()
                    mm = re.match(r'(\w+)\s*', part)
                    vn = mm.group(1)
                    rest = part[mm.end():]
                    fl = []
                    if rest.startswith('('):
                        e = _bal(rest, 0)
                        for k, ft in enumerate(split_top(rest[1:e])):
                            fl.append((str(k), ' '.join(ft.split())))
                        rest = rest[e+1:].strip()
                    elif rest.startswith('{'):
                        e = _bal(rest, 0)
                        for ft in split_top(rest[1:e]):
                            a, b = ft.split(':', 1)
                            fl.append((a.strip(), ' '.join(b.split())))
                        rest = rest[e+1:].strip()
                    mm = re.match(r'=\s*(-?\d+)', rest)
                    if mm:
                        d = int(mm.group(1))
                        self.int_enums.add(name)
                    vs.append((vn, d, fl))
                    d += 1
                self.types[name] = ('enum', vs)


def rs_files(d, tests=False):
    out = []
    for r, ds, fs in os.walk(d):
        ds.sort()
        for f in sorted(fs):
            if f.endswith('.rs'):
                p = os.path.join(r, f)
                rel = os.path.relpath(p, d)
                if not tests and (rel.startswith('tests') or '/tests' in rel or rel in ('test.rs', 'testutils.rs')):
                    continue
                out.append(p)
    return out


def impl_header(root, span):
    """span 'contracts/pool/src/contract.rs:149:1: 149:42' -> (trait or None, type) as source text"""
    m = re.match(r'(.*?):(\d+):(\d+): (\d+):(\d+)$', span)
    f, l1, c1, l2, c2 = m.group(1), *(int(x) for x in m.groups()[1:])
    lines = open(os.path.join(root, f)).read().split('\n')
    if l1 == l2:
        t = lines[l1-1][c1-1:c2-1]
    else:
        t = '\n'.join([lines[l1-1][c1-1:]] + lines[l1:l2-1] + [lines[l2-1][:c2-1]])
    t = ' '.join(strip_comments(t).split())
    mm = re.match(r'(?:unsafe )?impl\s*(<.*?>)?\s*(.*)$', t)
    if mm and t.startswith('impl'):
        rest = mm.group(2)
        rest = re.split(r'\bwhere\b', rest)[0].strip()
        if ' for ' in rest:
            tr, ty = rest.rsplit(' for ', 1)
            return (tr.strip(), ty.strip())
        return (None, rest)
    # derive: word at span; type = next struct/enum after this line
    rest = '\n'.join(lines[l1-1:])
    rest = rest[c1-1:]
    mt = re.search(r'\b(struct|enum)\s+(\w+)', rest)
    return ('derive:' + t, mt.group(2) if mt else '?')
