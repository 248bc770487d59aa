"""Reader of the contract files in /verif/contracts (format: DESIGN.md)."""
import glob
import os
import re

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))


class Loop:
    def __init__(self):
        self.clauses = []
        self.locals = {}


class Contract:
    def __init__(self, key):
        self.key = key
        self.name = None
        self.params = []
        self.props = []
        self.clauses = []
        self.loops = []
        self.hints = []       # (callee, Loop): facts asserted before each call
        self.inline = self.pure = self.mutating = self.wp = False
        self.without = []
        self.trusted = None
        self.ghost_exit = None
        self.where = None


class Book:
    """Everything read from the contract files."""

    def __init__(self):
        self.fns = {}
        self.specs = []       # (name, text, file, uses)
        self.macros = {}      # name -> (params, text)
        self.sorts = []

    def expand(self, txt, lits, depth=0):
        if depth > 20:
            raise ValueError('macro recursion')

        def lit(m):
            return lits.get(m.group(1).encode().decode('unicode_escape').encode('latin-1'))
        out = []
        i = 0
        while True:
            m = re.compile(r'@([A-Za-z_]\w*)').search(txt, i)
            if not m:
                out.append(txt[i:])
                break
            nm = m.group(1)
            if nm not in self.macros or txt[m.end():m.end() + 1] == ':':
                out.append(txt[i:m.end()])
                i = m.end()
                continue
            out.append(txt[i:m.start()])
            ps, body = self.macros[nm]
            j = m.end()
            if ps:
                if j >= len(txt) or txt[j] != '(':
                    raise ValueError('macro %s needs arguments' % nm)
                depth2, k, args, cur = 0, j, [], ''
                while True:
                    c = txt[k]
                    if c in '([':
                        depth2 += 1
                        if depth2 > 1:
                            cur += c
                    elif c in ')]':
                        depth2 -= 1
                        if depth2 == 0:
                            args.append(cur)
                            break
                        cur += c
                    elif c == ',' and depth2 == 1:
                        args.append(cur)
                        cur = ''
                    else:
                        cur += c
                    k += 1
                if len(args) != len(ps):
                    raise ValueError('macro %s: %d arguments' % (nm, len(args)))
                for p, a in zip(ps, args):
                    body = re.sub(r'(?<![\w.])%s(?!\w)' % re.escape(p), lambda _: '(%s)' % a.strip(), body)
                j = k + 1
            out.append(body if nm[0].isupper() else '(' + body + ')')
            i = j
        r = ''.join(out)
        if re.search('|'.join(r'@%s(?!\w)' % x for x in self.macros) or '$^', r):
            return self.expand(r, lits, depth + 1)
        return re.sub(r'L"((?:[^"\\]|\\.)*)"', lit, r)


def balanced(lines, i):
    """Text of a { } group starting on lines[i]; returns text and next index."""
    txt = lines[i][lines[i].index('{'):]
    d = txt.count('{') - txt.count('}')
    while d > 0:
        i += 1
        if i >= len(lines):
            raise ValueError('unbalanced braces')
        txt += '\n' + lines[i]
        d += lines[i].count('{') - lines[i].count('}')
    txt = txt.strip()
    return txt[1:txt.rindex('}')].strip(), i + 1


DECL = re.compile(r'^  (?:opaque |predicate |function |lemma |axiom |val |let |constant |type |exception |\(\*)', re.M)


def opaque(text):
    """Expand `opaque predicate p (x: t) = body` into a declaration and its
    defining axiom, so that SMT solvers see p itself and may match on it."""
    out, i = [], 0
    while True:
        m = re.compile(r'^  opaque (predicate|function) (\w+) ', re.M).search(text, i)
        if not m:
            out.append(text[i:])
            return ''.join(out)
        out.append(text[i:m.start()])
        e = DECL.search(text, m.end())
        end = e.start() if e else len(text)
        rest = text[m.end():end]
        hd, bd = re.match(r'((?:\s*\([^()]*\))*\s*(?::\s*\w+\s*)?)=(.*)$', rest, re.S).groups()
        groups = re.findall(r'\(([^()]*)\)', hd)
        names = [n for g in groups for n in g.split(':')[0].split()]
        app = '%s %s' % (m.group(2), ' '.join(names))
        op = '<->' if m.group(1) == 'predicate' else '='
        out.append('  %s %s %s\n' % (m.group(1), m.group(2), hd.rstrip()))
        out.append('  axiom %s_def: forall %s [%s]. %s %s (%s)\n' % (
            m.group(2), ', '.join(groups), app, app, op, bd.strip()))
        i = end


def mark(kw, txt, labels):
    """A clause with the properties it states ("ensures C14 { ... }"): a true
    constant pm_C14 before it, which vcsplit takes off and keeps as the label of
    the goals. pm_safe marks what a call needs, vr() the measure of a loop."""
    if kw == 'variant':
        return 'vr (%s)' % txt
    if kw == 'requires' and not labels and '@wf' not in txt:
        labels = ['safe']
    if not labels:
        return txt
    pm = 'pm_' + '_'.join(labels)
    if kw == 'raises':
        m = re.match(r'^(\s*\w+(?:\s+\w+)?\s*->)(.*)$', txt, re.S)
        return '%s %s -> (%s)' % (m.group(1), pm, m.group(2))
    return '%s -> (%s)' % (pm, txt)


def foreach(lines):
    """Textual repetition: "foreach A,B in x,y u,v" ... "endforeach" repeats its
    lines with %A% and %B% replaced. "~" in a value stands for a space."""
    out, i = [], 0
    while i < len(lines):
        m = re.match(r'^\s*foreach (\S+) in (.*)$', lines[i])
        if not m:
            out.append(lines[i])
            i += 1
            continue
        j = i + 1
        while lines[j].strip() != 'endforeach':
            j += 1
        names = m.group(1).split(',')
        for vals in m.group(2).split():
            vals = [v.replace('~', ' ') for v in vals.split(',')]
            if len(vals) != len(names):
                raise ValueError('foreach: ' + lines[i])
            for l in lines[i + 1:j]:
                for a, v in zip(names, vals):
                    l = l.replace('%' + a + '%', v)
                out.append(l)
        i = j + 1
    return out


def read(files=None):
    b = Book()
    for path in sorted(files or glob.glob(HERE + '/contracts/*.ct')):
        lines = [re.sub(r'^\s*#.*$', '', l.rstrip('\n')) for l in open(path)]
        lines = foreach(lines)
        i = 0
        fn = loop = None
        while i < len(lines):
            l = lines[i].strip()
            if not l:
                i += 1
                continue
            w = l.split(None, 1)
            kw, rest = w[0], (w[1] if len(w) > 1 else '')
            if kw == 'spec':
                j = i + 1
                while lines[j].strip() != 'endspec':
                    j += 1
                hd = rest.split()
                b.specs.append((hd[0], opaque('\n'.join(lines[i + 1:j])), os.path.basename(path), hd[1:]))
                i = j + 1
            elif kw == 'macro':
                m = re.match(r'^(\w+)(\(([^)]*)\))?\s*=\s*(.*)$', rest)
                txt = m.group(4)
                i += 1
                while txt.endswith('\\'):
                    txt = txt[:-1] + ' ' + lines[i].strip()
                    i += 1
                b.macros[m.group(1)] = ([p.strip() for p in m.group(3).split(',')] if m.group(3) else [], txt)
            elif kw == 'fn':
                fn = Contract(rest.strip())
                fn.where = '%s:%d' % (os.path.basename(path), i + 1)
                b.fns[fn.key] = fn
                also = []
                i += 1
            elif kw == 'endfn':
                for key, nm in also:
                    c = Contract(key)
                    c.__dict__.update(fn.__dict__)
                    c.key, c.name = key, nm
                    b.fns[key] = c
                fn = None
                i += 1
            elif kw == 'loop':
                loop = Loop()
                fn.loops.append(loop)
                i += 1
            elif kw == 'before':
                loop = Loop()
                fn.hints.append((rest.strip(), loop))
                i += 1
            elif kw in ('endloop', 'endbefore'):
                loop = None
                i += 1
            elif kw == 'locals':
                for x in rest.split():
                    n, t = x.split(':')
                    loop.locals[n] = t
                i += 1
            elif kw == 'also':
                # the same contract for another function: "also NAME KEY"
                nm, key = rest.split(None, 1)
                also.append((key.strip(), nm))
                i += 1
            elif kw == 'name':
                fn.name = rest.strip()
                i += 1
            elif kw == 'params':
                fn.params = rest.split()
                i += 1
            elif kw == 'props':
                fn.props = rest.split()
                i += 1
            elif kw == 'without':
                fn.without += rest.split()
                i += 1
            elif kw in ('inline', 'pure', 'mutating', 'wp'):
                setattr(fn, kw, True)
                i += 1
            elif kw == 'ghost_exit':
                fn.ghost_exit, i = balanced(lines, i)
            elif kw in ('requires', 'ensures', 'raises', 'reads', 'writes', 'invariant', 'variant', 'alias', 'assert'):
                labels = rest.split('{')[0].split()
                txt, i = balanced(lines, i)
                (loop or fn).clauses.append((kw, mark(kw, txt, labels)))
            else:
                raise ValueError('%s:%d: %s' % (path, i + 1, l))
    return b
