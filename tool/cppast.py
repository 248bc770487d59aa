"""Load the clang JSON AST of /repo translation units and index its functions.

Nothing here looks at source text: the AST of the code that is compiled is the
only input, so comments, layout and local naming play no part.
"""
import json
import os
import re
import subprocess

REPO = os.environ.get('VERIF_REPO', '/repo')
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))

FUNC_KINDS = ('FunctionDecl', 'CXXMethodDecl', 'CXXConstructorDecl',
              'CXXDestructorDecl', 'CXXConversionDecl')


class Unsupported(Exception):
    """The extraction met a construct outside its C++ subset."""


def norm_type(t):
    """Normalise a clang qualType string."""
    t = re.sub(r'\*\s*const\s*\(&\)\[', '*(&)c[', t)
    t = re.sub(r'\b(const|volatile|enum|struct|class|typename|__restrict)\b', ' ', t)
    t = t.replace('blet::args::', '').replace('std::__cxx11::', '').replace('std::', '')
    t = re.sub(r'(?<![\w:])args::', '', t)
    t = re.sub(r', *char_traits<char>', '', t)
    t = re.sub(r', *allocator<[^<>]*(<[^<>]*(<[^<>]*>)?[^<>]*>)? *>', '', t)
    t = re.sub(r'basic_string<char>', 'string', t)
    t = re.sub(r'\s+', ' ', t).strip()
    t = re.sub(r' ?([*&<>,()\[\]]) ?', r'\1', t)
    t = re.sub(r'\b(string),allocator<string>', r'\1', t)
    return t


def qt(node):
    t = node.get('type', {})
    return norm_type(t.get('desugaredQualType') or t.get('qualType', ''))


class TU:
    def __init__(self, path, flags, label):
        self.path = path
        self.label = label
        cmd = ['clang++', '-std=c++11', '-fsyntax-only', '-w'] + flags + [
            '-Xclang', '-ast-dump=json', '-Xclang', '-ast-dump-filter=blet', path]
        p = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.PIPE, timeout=120)
        if p.returncode != 0:
            raise Unsupported('clang rejects %s: %s' % (path, p.stderr.decode()[-2000:]))
        self.cmd = cmd
        text = p.stdout.decode()
        dec = json.JSONDecoder()
        i = 0
        self.roots = []
        while True:
            while i < len(text) and text[i] != '{':
                i += 1
            if i >= len(text):
                break
            o, i = dec.raw_decode(text, i)
            self.roots.append(o)
        self.byid = {}
        self.owner = {}      # decl id -> class name
        self.funcs = {}      # key -> node with body
        self.decls = {}      # id -> key
        self.enums = {}      # enum constant name (qualified by class) -> value
        self.bases = {}      # class -> base class name
        self.fields = {}     # class -> list of fields
        self._cur = [None, 0]
        for r in self.roots:
            self._lines(r)
        for r in self.roots:
            self._index(r, None)
        for r in self.roots:
            self._collect(r)

    def _loc(self, l):
        if 'expansionLoc' in l:
            self._loc(l.get('spellingLoc', {}))
            self._loc(l['expansionLoc'])
            return
        if 'file' in l:
            self._cur[0] = l['file']
        if 'line' in l:
            self._cur[1] = l['line']

    def _lines(self, n):
        # clang prints a position only where it differs from the last one printed
        if 'loc' in n:
            self._loc(n['loc'])
        r = n.get('range', {})
        if 'begin' in r:
            self._loc(r['begin'])
        n['_line'] = (self._cur[0], self._cur[1])
        if 'end' in r:
            self._loc(r['end'])
        for c in n.get('inner', []):
            if c:
                self._lines(c)

    def _index(self, n, cls):
        if not isinstance(n, dict):
            return
        if 'id' in n and n.get('kind'):
            if n['id'] not in self.byid or n.get('inner'):
                self.byid[n['id']] = n
            if cls is not None and n['id'] not in self.owner:
                self.owner[n['id']] = cls
        k = n.get('kind')
        c2 = cls
        if k in ('CXXRecordDecl', 'ClassTemplateSpecializationDecl'):
            nm = n.get('name')
            if k == 'ClassTemplateSpecializationDecl':
                args = []
                for a in n.get('inner', []):
                    if a.get('kind') == 'TemplateArgument' and 'type' in a:
                        args.append(norm_type(a['type'].get('desugaredQualType') or a['type']['qualType']))
                nm = '%s<%s>' % (nm, ','.join(args))
            c2 = nm
            if n.get('bases'):
                b = n['bases'][0]['type']
                self.bases[nm] = norm_type(b.get('desugaredQualType') or b['qualType'])
            flds = [(f.get('name'), qt(f)) for f in n.get('inner', []) if f.get('kind') == 'FieldDecl']
            if flds:
                self.fields[nm] = flds
        if k == 'EnumDecl':
            v = -1
            for c in n.get('inner', []):
                if c.get('kind') != 'EnumConstantDecl':
                    continue
                val = None
                for x in c.get('inner', []):
                    if 'value' in x:
                        val = int(x['value'])
                v = val if val is not None else v + 1
                self.enums[c['id']] = (c['name'], v, cls, n.get('name'))
        if k in FUNC_KINDS:
            c2 = cls
        for x in n.get('inner', []):
            self._index(x, c2)

    def fkey(self, n):
        cls = None
        m = n
        seen = set()
        while True:
            if m['id'] in self.owner and self.owner[m['id']]:
                cls = self.owner[m['id']]
            if cls or not m.get('previousDecl') or m['previousDecl'] in seen:
                break
            seen.add(m['previousDecl'])
            nxt = self.byid.get(m['previousDecl'])
            if nxt is None:
                break
            m = nxt
        if cls is None and n.get('parentDeclContextId'):
            p = self.byid.get(n['parentDeclContextId'])
            if p is not None and p.get('kind') in ('CXXRecordDecl', 'ClassTemplateSpecializationDecl'):
                cls = p.get('name')
        ps = ','.join(qt(c) for c in n.get('inner', []) if c.get('kind') == 'ParmVarDecl')
        nm = n.get('name', '?')
        if n.get('kind') == 'CXXConversionDecl':
            nm = 'operator ' + qt(n).split('(')[0]
        return ('%s::' % cls if cls else '') + nm + '(' + ps + ')'

    def _collect(self, n, in_template=False):
        if not isinstance(n, dict):
            return
        k = n.get('kind')
        if k in FUNC_KINDS and not in_template:
            key = self.fkey(n)
            self.decls[n['id']] = key
            if body(n) is not None:
                self.funcs[key] = n
        if k in ('FunctionTemplateDecl', 'ClassTemplateDecl'):
            # the first function/record child is the pattern; specialisations follow
            first = True
            for c in n.get('inner', []):
                kk = c.get('kind')
                if kk in FUNC_KINDS or kk == 'CXXRecordDecl':
                    if first:
                        first = False
                        self._collect(c, True)
                        continue
                self._collect(c, in_template)
            return
        for c in n.get('inner', []):
            self._collect(c, in_template)

    def subclass(self, a, b):
        while a is not None:
            if a == b:
                return True
            a = self.bases.get(a)
        return False


def body(fn):
    for c in fn.get('inner', []):
        if c and c.get('kind') == 'CompoundStmt':
            return c
    return None


def params(fn):
    return [c for c in fn.get('inner', []) if c and c.get('kind') == 'ParmVarDecl']


def inner(n):
    return n.get('inner', [])


def load(label):
    """The translation units verified for a given product ('src' or 'single')."""
    tus = []
    if label == 'src':
        inc = ['-I' + REPO + '/include']
        for f in sorted(os.listdir(REPO + '/src')):
            if f.endswith('.cpp'):
                tus.append(TU('%s/src/%s' % (REPO, f), inc, f[:-4]))
        tus.append(TU(HERE + '/tu/inst.cpp', inc + ['-DVERIF_SPLIT'], 'inst'))
    else:
        tus.append(TU(HERE + '/tu/inst.cpp', ['-I' + REPO + '/single_include', '-DVERIF_SINGLE'], 'inst'))
    return tus
