"""Mechanical translation of the C++ AST of /repo into WhyML.

Contracted functions become WhyML functions carrying the contract from
/verif/contracts; functions without a contract are inlined at their calls;
loops take their invariants from the contract of the function under
translation, in order of appearance.  Anything outside the subset raises
Unsupported, so nothing is dropped silently.
"""
import re
from cppast import Unsupported, norm_type, qt, body, params, inner
import prelude

IRANGE = prelude.INTS
ITYPES = {'bool': 'bool', 'char': 'i8', 'signed char': 'i8', 'unsigned char': 'u8', 'short': 'i16',
          'unsigned short': 'u16', 'int': 'i32', 'unsigned int': 'u32', 'unsigned': 'u32', 'long': 'i64',
          'unsigned long': 'u64', 'long long': 'i64', 'unsigned long long': 'u64', 'size_t': 'u64',
          'difference_type': 'i64', 'ptrdiff_t': 'i64', 'size_type': 'u64', 'mode_t': 'u32', '__mode_t': 'u32',
          'float': 'dbl', 'double': 'dbl', 'long double': 'dbl'}
WTY = {'bool': 'bool', 'dbl': 'dbl', 'str': 'str', 'strs': 'strs', 'strss': 'strss', 'elem': 'elem', 'elems': 'elems',
       'cptr': 'cptr', 'loc': 'int', 'node': 'int', 'vloc': 'int', 'mit': 'mit', 'ints': 'ints', 'intss': 'intss',
       'mits': 'mits', 'oss': 'oss', 'iss': 'str', 'ss': 'sstream', 'exn': 'exn', 'argv': 'strs', 'void': 'unit',
       'fptr': 'int', 'nodes': 'ints', 'cptrs': 'cptrs', 'stat': 'int', 'chars': 'str', 'dbls': 'dbls', 'dblss': 'dblss', 'cptrss': 'cptrss', 'bools': 'bools', 'boolss': 'boolss'}
SEQOF = dict(prelude.SEQS)
SEQ_ELT = {'str': 'i8', 'strs': 'str', 'strss': 'strs', 'ints': 'i32', 'intss': 'ints', 'elems': 'elem', 'mits': 'mit',
           'nodes': 'node', 'cptrs': 'cptr', 'argv': 'str', 'chars': 'i8'}


SEQ_ELT.update({'dbls': 'dbl', 'dblss': 'dbls', 'cptrss': 'cptrs', 'bools': 'bool', 'boolss': 'bools'})
# vectors of the other integer types are sequences of integers as well
VEC = {'int': 'ints', 'double': 'dbls', 'float': 'dbls', 'long double': 'dbls', 'char*': 'cptrs', 'bool': 'bools'}
SEQNAME = {'nodes': 'ints', 'argv': 'strs', 'chars': 'str'}
for _c, _t in ITYPES.items():
    if _c not in VEC:
        VEC[_c] = _t + 's'
        WTY[_t + 's'] = SEQNAME[_t + 's'] = 'ints'
        WTY[_t + 'ss'] = SEQNAME[_t + 'ss'] = 'intss'
        SEQ_ELT[_t + 's'], SEQ_ELT[_t + 'ss'] = _t, _t + 's'


def seqname(ty):
    return SEQNAME.get(ty, ty)


def wty(ty):
    if ty in IRANGE:
        return 'int'
    if ty.endswith('_it'):
        return seqname(ty[:-3]) + '_it'
    if ty in WTY:
        return WTY[ty]
    raise Unsupported('no model of type %s' % ty)


def mty(t):
    """C++ (normalised) type -> model type."""
    if t == 'char*(&)':
        return 'cptr'
    if re.match(r'^char\*(\(&\)c?)?\[\d+\]$', t):
        return 'argv'
    if re.match(r'^string(\(&\))?\[\d+\]$', t):
        return 'strs'
    t = t.rstrip('&').strip()
    m = re.match(r'^char(\(&\))?\[(\d+)\]$', t) or re.match(r'^char\(&?\)\[(\d+)\]$', t) or re.match(r'^char\((?:&)\[(\d+)\]\)$', t)
    if m or re.match(r'^char.*\[\d+\]', t):
        return 'chars'
    if t in ITYPES:
        return ITYPES[t]
    if t.startswith('__gnu_cxx::'):
        t = t[len('__gnu_cxx::'):]
    if t in ('string', 'basic_string<char>', '__string_type', 'String'):
        return 'str'
    if t in ('vector<string>', 'list<string>', 'Vector', 'initializer_list<string>'):
        return 'strs'
    if t in ('vector<vector<string>>',):
        return 'strss'
    if t == 'ArgumentElement':
        return 'elem'
    if t == 'vector<ArgumentElement>':
        return 'elems'
    m = re.match(r'^vector<(vector<)?([\w ]+\*?)>(>?)$', t)
    if m and bool(m.group(1)) == bool(m.group(3)) and m.group(2) in VEC:
        return VEC[m.group(2)] + ('s' if m.group(1) else '')
    if t in ('char*',):
        return 'cptr'
    if t in ('char**', 'char*[]'):
        return 'argv'
    if t in ('Argument*', 'Argument'):
        return 'loc'
    if t == 'Argument**':
        return 'node'
    if t in ('IValid*',):
        return 'vloc'
    if t in ('list<Argument*>',):
        return 'nodes'
    if t.startswith('map<string,Argument**>'):
        return 'map'
    if t.startswith('_Rb_tree_iterator<pair<string,Argument**>') or t.startswith('_Rb_tree_const_iterator<pair<string,Argument**>'):
        return 'mit'
    if t.startswith('vector<_Rb_tree_iterator<') or t.startswith('vector<_Rb_tree_const_iterator<'):
        return 'mits'
    if re.match(r'^_List_(const_)?iterator<Argument\*>$', t):
        return 'nodes_it'
    if re.match(r'^_List_(const_)?iterator<string>$', t):
        return 'strs_it'
    m = re.match(r'^__normal_iterator<(.*)>$', t)
    if m:
        c = m.group(1)
        if c.startswith('string*'):
            return 'strs_it'
        if c.startswith('_Rb_tree_'):
            return 'mits_it'
        if c.startswith('char*'):
            return 'str_it'
        if c.startswith('ArgumentElement*'):
            return 'elems_it'
    if t.startswith('pair<string,Argument**>'):
        return 'pair'
    if t in ('basic_ostringstream<char>', 'ostringstream', 'ostream', 'basic_ostream<char>'):
        return 'oss'
    if t in ('basic_istringstream<char>', 'istringstream'):
        return 'iss'
    if t in ('basic_stringstream<char>', 'stringstream'):
        return 'ss'
    if t in ('Args', 'Args*', 'Usage', 'Usage*'):
        return 'args'
    if t == 'stat':
        return 'stat'
    if t == 'void':
        return 'void'
    if '(*)' in t:
        return 'fptr'
    if t.endswith('Exception'):
        return 'exn'
    if t.endswith('*') and mty(t[:-1]) in ('i32', 'str'):
        return 'p:' + mty(t[:-1])
    if re.match(r'^(Action::eAction|Argument::Type|ValidPath::eMode|eAction|Type|eMode|Action::.*|_Ios_Fmtflags|fmtflags|_Ios_Openmode)$', t):
        return 'i32'
    return '?' + t


class LV:
    """An lvalue. kind: var (whyml ref) | val (immutable value) | glob | fld |
    efld | idx | chr | node | obj | ael | args | this-like."""

    def __init__(self, kind, ty, **kw):
        self.kind, self.ty = kind, ty
        self.__dict__.update(kw)


class E:
    def __init__(self, code, ty, lv=None, raw=None):
        self.code, self.ty, self.lv, self.raw = code, ty, lv, raw


def atomic(c):
    return re.match(r"^!?[A-Za-z_][A-Za-z0-9_']*$", c) or re.match(r'^-?\d+$', c) or re.match(r'^\(-\d+\)$', c)


class Block:
    def __init__(self):
        self.items = []
        self.effects = 0

    def render(self, final, ind):
        out = []
        for it in self.items:
            if it[0] == 'let':
                out.append('%slet %s = %s in' % (ind, it[1], it[2]))
            elif it[0] == 'do':
                out.append('%s%s;' % (ind, it[1]))
            elif it[0] == 'raw':
                out.append(it[1])
        out.append(ind + final)
        return '\n'.join(out)


class Lits:
    def __init__(self):
        self.d = {}

    def get(self, bs):
        if bs not in self.d:
            self.d[bs] = 'lit_%d' % len(self.d)
        return self.d[bs]

    def render(self):
        out = []
        for bs, n in self.d.items():
            conj = ['str_len %s = %d' % (n, len(bs))] if bs else ['%s = str_empty' % n]
            for i, c in enumerate(bs):
                conj.append('str_get %s %d = %s' % (n, i, prelude.lit(c if c < 128 else c - 256)))
            out.append('  val constant %s : str\n  axiom %s_def: %s' % (n, n, ' /\\ '.join(conj)))
        return '\n'.join(out) + '\n'


def c_unescape(v):
    """The bytes of a clang JSON string literal (quoted source spelling)."""
    v = v[1:-1] if v.startswith('"') else v
    return v.encode('latin-1', 'backslashreplace').decode('unicode_escape').encode('latin-1')


def skip(n):
    while n.get('kind') in ('ParenExpr', 'ExprWithCleanups', 'CXXBindTemporaryExpr', 'MaterializeTemporaryExpr',
                            'ConstantExpr', 'FullExpr') or (
            n.get('kind') == 'ImplicitCastExpr' and n.get('castKind') in ('NoOp',)):
        n = [c for c in n['inner'] if c and c.get('kind') != 'NonTypeTemplateParmDecl'][-1]
    return n


MUTATORS = {'push_back', 'clear', 'erase', 'insert', 'resize', 'pop_back', 'append', 'assign', 'swap', 'reserve',
            'width', 'flags', 'sort', 'replace', 'emplace_back'}


class World:
    """All translation units + contracts + the shared output state."""

    def __init__(self, tus, contracts):
        self.tus = tus
        self.contracts = contracts       # key -> Contract
        self.lits = Lits()
        self.funcs = {}
        for tu in tus:
            for k, f in tu.funcs.items():
                if k not in self.funcs:
                    self.funcs[k] = (tu, f)
        self.globals = {}                # name -> whyml type text
        self.inlined = {}                # function key -> set of inlined keys
        self.calls = {}
        self.maps = {}
        self.externs = {}
        self._class_state()
        self.const_decls()

    def _class_state(self):
        self.fields = {}
        for tu in self.tus:
            for c, f in tu.fields.items():
                self.fields.setdefault(c, f)
        self.bases = {}
        for tu in self.tus:
            self.bases.update(tu.bases)
        self.maps = {'h_kids': 'elems'}
        for c in ('ArgumentElement', 'Argument'):
            for n, t in self.fields.get(c, []):
                ty = mty(t)
                if ty == 'args':
                    continue
                self.maps['h_' + n.rstrip('_')] = ty
        for c in ('Usage', 'Args'):
            for n, t in self.fields.get(c, []):
                ty = mty(t)
                if ty in ('args', 'map'):
                    continue
                self.globals['g_' + n.rstrip('_')] = ty

    def state_decls(self):
        out = []
        for n, ty in self.maps.items():
            out.append('  val %s : ref (map int %s)' % (n, wty(ty)))
        for n, ty in self.globals.items():
            out.append('  val %s : ref %s' % (n, wty(ty)))
        return '\n'.join(out) + '\n'

    def extern_decls(self):
        """User callbacks: the destination becomes a function (declared by the
        specification) of its old value and the arguments; calls are counted."""
        out = []
        for nm, (g, ty, tys) in sorted(self.externs.items()):
            out.append('  val %s %s : unit\n    writes { cb_calls, %s }\n'
                       '    ensures { !cb_calls = old !cb_calls + 1 /\\ !%s = %s_res (old !%s) %s }'
                       % (nm, ' '.join('(a%d: %s)' % (i, wty(t)) for i, t in enumerate(tys)), g, g, nm, g,
                          ' '.join('a%d' % i for i in range(len(tys)))))
        return '\n'.join(out) + '\n'

    def const_decls(self):
        """Exception kinds and enum constants, from the AST."""
        kinds = sorted(set(c for c in self.bases if c.endswith('Exception')) | {'Exception'})
        out = []
        for i, c in enumerate(kinds):
            out.append('  constant k_%s : int = %d' % (c, i + 1))

        def sub(a, b):
            while a is not None:
                if a == b:
                    return True
                a = self.bases.get(a)
            return False
        for c in kinds:
            ks = [k for k in kinds if sub(k, c)]
            out.append('  predicate is_%s (k: int) = %s' % (c, ' \\/ '.join('k = k_%s' % k for k in ks)))
            out.append('  let isb_%s (k: int) : bool ensures { result <-> is_%s k } = %s' % (
                c, c, ' || '.join('k = %d' % (kinds.index(k) + 1) for k in ks)))
        self.kinds = kinds
        seen = set()
        for tu in self.tus:
            for i, (n, v, cls, en) in tu.enums.items():
                nm = 'en_%s_%s' % (cls or en, n)
                if nm not in seen and v is not None:
                    seen.add(nm)
                    out.append('  constant %s : int = %d' % (nm, v))
        return '\n'.join(out) + '\n'

    def kindno(self, c):
        return self.kinds.index(c) + 1


class Fn:
    def __init__(self, world, key, contract):
        self.w = world
        self.key = key
        self.ct = contract
        self.tu, self.node = world.funcs[key]
        self.n = 0
        self.env = {}        # (tu, decl id) -> LV
        self.scope = []      # (cpp name, LV)
        self.blk = None
        self.this = None
        self.thiscls = None
        self.retstack = []
        self.brk = []
        self.loopno = 0
        self.lbls = []
        self.inl = []
        self.extra_globals = {}
        self.attach_errors = []
        self.usedctr = set()

    # ---------------------------------------------------------------- util
    def fresh(self, base='t'):
        self.n += 1
        base = re.sub(r'[^A-Za-z0-9]', '', base) or 't'
        return '%s_%d' % (base[0].lower() + base[1:], self.n)

    def let(self, code, base='t'):
        v = self.fresh(base)
        self.blk.items.append(('let', v, code))
        return v

    def atom(self, code, base='t'):
        return code if atomic(code) and not code.startswith('!') else self.let(code, base)

    def do(self, code):
        self.blk.items.append(('do', code))
        self.blk.effects += 1

    def sub(self, f):
        """Run f in a new block; return the block and its result."""
        save = self.blk
        b = Block()
        self.blk = b
        try:
            r = f()
        finally:
            self.blk = save
        return b, r

    def unsupported(self, n, why=''):
        raise Unsupported('%s: %s %s %s at %s' % (self.key, n.get('kind'), n.get('name') or n.get('opcode') or '', why,
                                                  n.get('_line')))

    # -------------------------------------------------------------- lvalues
    def rd(self, code, ty):
        if ty in IRANGE:
            return '(rd_%s %s)' % (ty, code)
        return code

    def read(self, lv):
        k = lv.kind
        if k == 'val':
            return lv.name
        if k == 'var':
            return self.rd('!' + lv.name, lv.ty)
        if k == 'glob':
            return self.rd('!' + lv.name, lv.ty)
        if k == 'fld':
            t = lv.ty
            suf = prelude.MSUF[wty(t)]
            return self.rd('(mget_%s !%s %s)' % (suf, lv.map, lv.loc), t)
        if k == 'efld':
            return '(e_%s %s)' % (lv.f, self.read(lv.base))
        if k == 'idx':
            r = '(%s_nth %s %s)' % (seqname(lv.seq), self.read(lv.base), lv.i)
            return self.rd(r, lv.ty)
        if k == 'chr':
            return '(rd_i8 (str_idx %s %s))' % (self.read(lv.base), lv.i)
        if k == 'cp':
            return '(rd_i8 (cp_at %s %s))' % (lv.p, lv.i)
        if k == 'node':
            return '(node_get %s)' % lv.n
        if k == 'obj':
            return lv.loc
        if k == 'ael':
            return '(mk_elem %s)' % ' '.join(self.read(self.efield(lv, f)) for f in
                                            ('kids', 'argument', 'default', 'isNumber', 'number'))
        if k == 'exn':
            return lv.code
        if k == 'mapsecond':
            return '(map_second %s)' % lv.it
        if k == 'stat':
            return lv.code
        raise Unsupported('read of %s' % k)

    def write(self, lv, code):
        k = lv.kind
        if k in ('var', 'glob'):
            self.do('%s := %s' % (lv.name, code))
        elif k == 'fld':
            suf = prelude.MSUF[wty(lv.ty)]
            self.do('%s := mset_%s !%s %s %s' % (lv.map, suf, lv.map, lv.loc, self.paren(code)))
        elif k == 'efld':
            v = self.atom(code)
            self.write(lv.base, '(set_e_%s %s %s)' % (lv.f, self.read(lv.base), v))
        elif k == 'idx':
            v = self.atom(code)
            self.write(lv.base, '(%s_upd %s %s %s)' % (seqname(lv.seq), self.read(lv.base), lv.i, v))
        elif k == 'chr':
            v = self.atom(code)
            self.write(lv.base, '(str_upd %s %s %s)' % (self.read(lv.base), lv.i, v))
        elif k == 'node':
            self.do('node_set %s %s' % (lv.n, self.paren(code)))
        elif k == 'mapsecond':
            self.do('map_assign %s.m_key %s' % (lv.it, self.paren(code)))
        elif k == 'ael':
            v = self.atom(code)
            for f in ('kids', 'argument', 'default', 'isNumber', 'number'):
                self.write(self.efield(lv, f), '(e_%s %s)' % (f, v))
        else:
            raise Unsupported('%s: write to %s' % (self.key, k))

    def paren(self, c):
        return c if atomic(c) or (c.startswith('(') and c.endswith(')')) or c.startswith('{') else '(%s)' % c

    def efield(self, lv, f):
        """Sub-object f of an ArgumentElement lvalue."""
        ty = {'kids': 'elems', 'argument': 'str', 'default': 'str', 'isNumber': 'bool', 'number': 'dbl'}[f]
        if lv.kind == 'ael':
            return LV('fld', ty, map='h_' + f, loc=lv.loc)
        if lv.kind == 'obj':
            return LV('fld', ty, map='h_' + f, loc=self.live(lv))
        return LV('efld', ty, base=lv, f=f)

    def live(self, lv):
        """loc of an Argument object lvalue, with the liveness obligation."""
        if getattr(lv, 'isthis', False):
            return lv.loc
        return self.let('(chk %s)' % lv.loc, 'l')

    def global_ref(self, name, ty):
        self.w.globals.setdefault(name, ty)
        return LV('glob', ty, name=name)

    # ---------------------------------------------------------- expressions
    def rv(self, n):
        """Evaluate to a value E (no lvalue left unread)."""
        e = self.ev(n)
        if e.code is None and e.lv is not None:
            return E(self.read(e.lv), e.lv.ty, e.lv)
        return e

    def code(self, n):
        e = self.rv(n)
        if e.code is None:
            self.unsupported(n, 'no value (%s)' % e.ty)
        return e.code

    def operands(self, ns, f=None):
        """Evaluate operands left to right; earlier values are bound before a
        later operand that has effects."""
        f = f or self.rv
        res = []
        for n in ns:
            pos = len(self.blk.items)
            eff = self.blk.effects
            r = f(n)
            if self.blk.effects != eff:
                for j, p in enumerate(res):
                    if p.code is not None and not (atomic(p.code) and not p.code.startswith('!')):
                        v = self.fresh()
                        self.blk.items.insert(pos, ('let', v, p.code))
                        pos += 1
                        res[j] = E(v, p.ty, p.lv)
            res.append(r)
        return res

    def lval(self, n):
        e = self.ev(n)
        if e.lv is None:
            if e.code is not None:
                v = self.atom(e.code)
                return LV('val', e.ty, name=v)
            self.unsupported(n, 'not an lvalue')
        return e.lv

    def ev(self, n):
        n = skip(n)
        k = n['kind']
        m = getattr(self, 'x_' + k, None)
        if m is None:
            self.unsupported(n, 'expression')
        return m(n)

    def x_IntegerLiteral(self, n):
        return E(prelude.lit(int(n['value'])), mty(qt(n)))

    def x_CharacterLiteral(self, n):
        v = int(n['value'])
        if v > 127:
            v -= 256
        return E(prelude.lit(v), 'i8')

    def x_CXXBoolLiteralExpr(self, n):
        return E('true' if n['value'] else 'false', 'bool')

    def x_FloatingLiteral(self, n):
        v = float(n['value'])
        if v == int(v):
            return E('dbl_zero' if v == 0 else '(dbl_of_int %s)' % prelude.lit(int(v)), 'dbl')
        self.unsupported(n)

    def x_StringLiteral(self, n):
        c = self.w.lits.get(c_unescape(n['value']))
        return E('(cp_of %s)' % c, 'cptr', raw=c)

    def x_GNUNullExpr(self, n):
        return E('0', 'null')

    def x_CXXNullPtrLiteralExpr(self, n):
        return E('0', 'null')

    def x_SubstNonTypeTemplateParmExpr(self, n):
        # the bound of the only array parameter stands for the length of that array, whatever it is
        i = self.inl[-1] if self.inl else self.key
        tu, f = self.w.funcs[i]
        v = skip([c for c in inner(n) if c and c.get('kind') != 'NonTypeTemplateParmDecl'][-1])
        arr = [p for p in params(f) if re.search(r'\(&\)c?\[%s\]$' % v.get('value'), norm_type(qt(p)))]
        if len(arr) == 1 and '<' not in i.split('::')[0]:
            lv = self.env.get((self.tu.path + self.tu.label, arr[0]['id']))
            if lv is not None and lv.ty in ('argv', 'strs', 'chars'):
                return E('(rd_u64 (%s_len %s))' % (seqname(lv.ty), self.paren(self.read(lv))), 'u64')
        return self.ev(v)

    def x_UnaryExprOrTypeTraitExpr(self, n):
        # sizeof(type or expression)
        if n.get('name') != 'sizeof':
            self.unsupported(n)
        t = n.get('argType')
        if t:
            t = norm_type(t.get('desugaredQualType') or t['qualType'])
        else:
            t = qt(skip(inner(n)[0]))
        m = re.match(r'^char\[(\d+)\]$', t)
        if m:
            return E(m.group(1), 'u64')
        sz = {'char': 1, 'int': 4, 'unsigned int': 4, 'long': 8, 'unsigned long': 8, 'double': 8, 'bool': 1}
        if t in sz:
            return E(str(sz[t]), 'u64')
        self.unsupported(n, t)

    def x_CXXThisExpr(self, n):
        return E(None, 'thisp', self.this)

    def x_DeclRefExpr(self, n):
        d = n['referencedDecl']
        if d['kind'] == 'EnumConstantDecl':
            return E(prelude.lit(self.tu.enums[d['id']][1]) if d['id'] in self.tu.enums else self.enum_ext(d), 'i32')
        if d['kind'] in ('VarDecl', 'ParmVarDecl', 'BindingDecl'):
            lv = self.env.get((self.tu.path + self.tu.label, d['id']))
            if lv is None:
                if d['name'] == 'npos':
                    return E('npos', 'u64')
                if d['name'] in ('cout', 'cerr'):
                    return E(None, 'cout', LV('glob', 'str', name='out'))
                if d['name'] == 'left':
                    return E('32', 'i32', raw='ios_left')
                vd = self.tu.byid.get(d['id'])
                if vd is not None and vd.get('kind') == 'VarDecl' and [c for c in inner(vd) if c] and (
                        'const' in vd['type']['qualType']):
                    return self.ev([c for c in inner(vd) if c][0])
                self.unsupported(n, 'unknown variable ' + d['name'])
            if lv.kind == 'ptr':
                return E(None, 'p:' + lv.ty, lv)
            return E(None, lv.ty, lv)
        if d['kind'] in ('FunctionDecl', 'CXXMethodDecl'):
            return E(None, 'func', None, raw=d)
        self.unsupported(n, d['kind'])

    def enum_ext(self, d):
        if d['name'] == '_S_left':
            return '32'
        raise Unsupported('enum constant %s' % d['name'])

    def x_ImplicitCastExpr(self, n):
        ck = n['castKind']
        s = inner(n)[0]
        if ck == 'LValueToRValue':
            e = self.ev(s)
            if e.ty.startswith('p:'):
                return e
            if e.lv is not None and e.code is None:
                return E(self.read(e.lv), e.lv.ty, raw=e.raw)
            return e
        if ck in ('NoOp', 'FunctionToPointerDecay', 'ConstructorConversion', 'BitCast'):
            return self.ev(s)
        if ck == 'UserDefinedConversion':
            return self.ev(s)
        if ck == 'ArrayToPointerDecay':
            e = self.ev(s)
            if e.ty == 'cptr':
                return e
            if e.lv is not None and e.lv.ty == 'chars':
                return E(None, 'charsp', e.lv)
            if e.lv is not None and (e.lv.ty in SEQOF or e.lv.ty == 'argv'):
                return e
            self.unsupported(n, e.ty)
        if ck == 'IntegralCast':
            return self.intcast(self.rv(s), mty(qt(n)), n)
        if ck in ('NullToPointer',):
            t = mty(qt(n))
            if t == 'cptr':
                return E('(cp_null ())', 'cptr', raw='null')
            return E('0', t if not t.startswith('?') else 'null', raw='null')
        if ck == 'PointerToBoolean':
            e = self.rv(s)
            if e.ty == 'cptr':
                return E('(not %s.cnull)' % self.paren(e.code), 'bool')
            return E('(%s <> 0)' % e.code, 'bool')
        if ck == 'IntegralToBoolean':
            e = self.rv(s)
            return E('(%s <> 0)' % e.code, 'bool')
        if ck in ('UncheckedDerivedToBase', 'DerivedToBase'):
            e = self.ev(s)
            return self.tobase(e, mty(qt(n)), n)
        if ck in ('FloatingCast',):
            if norm_type(qt(n)) == 'float' and norm_type(qt(s)) != 'float':
                return E('(dbl_to_float %s)' % self.paren(self.code(s)), 'dbl')
            return self.rv(s)
        if ck == 'FloatingToIntegral':
            t = mty(qt(n))
            return E('(d2i_%s %s)' % (t, self.paren(self.code(s))), t)
        if ck == 'FloatingToBoolean':
            return E('(dbl_nonzero %s)' % self.paren(self.code(s)), 'bool')
        if ck == 'IntegralToFloating':
            e = self.rv(s)
            if e.ty == 'bool':
                return E('(dbl_of_bool %s)' % self.paren(e.code), 'dbl')
            return E('(dbl_of_int %s)' % self.paren(e.code), 'dbl')
        self.unsupported(n, ck)

    def intcast(self, e, t, n):
        if t == e.ty:
            return e
        if t == 'bool':
            return E('(%s <> 0)' % e.code, 'bool')
        if e.ty == 'bool':
            return E('(if %s then 1 else 0)' % e.code, t)
        if t not in IRANGE or e.ty not in IRANGE:
            self.unsupported(n, 'integral cast %s -> %s' % (e.ty, t))
        a, b = IRANGE[e.ty], IRANGE[t]
        m = re.match(r'^\(?(-?\d+)\)?$', e.code)
        if m and b[0] <= int(m.group(1)) <= b[1]:
            return E(e.code, t)
        if b[0] <= a[0] and a[1] <= b[1]:
            return E(e.code, t)
        return E('(to_%s %s)' % (t, self.paren(e.code)), t)

    def tobase(self, e, t, n):
        if e.ty == 'thisp' or e.lv is not None and e.lv.kind in ('ael', 'obj', 'args', 'self'):
            lv = e.lv
            cls = norm_type(qt(n)).rstrip('*&')
            if lv.kind == 'args' or lv.kind == 'self':
                if lv.kind == 'self' and cls in ('Argument', 'ArgumentElement', 'vector<ArgumentElement>'):
                    lv = LV('obj', 'loc', loc=lv.loc, isthis=True)
                else:
                    return E(None, 'args' if lv.kind == 'args' else 'self', lv)
            if lv.ty == 'strs':
                return E(None, 'strs', lv)
            if cls == 'Argument':
                return E(None, 'loc', lv)
            if cls == 'ArgumentElement':
                if lv.kind == 'obj':
                    return E(None, 'elem', LV('ael', 'elem', loc=self.live(lv)))
                return E(None, 'elem', lv)
            if cls == 'vector<ArgumentElement>':
                return E(None, 'elems', self.efield(lv, 'kids'))
        if e.ty == 'loc' and e.lv is None or (e.lv is not None and e.lv.ty == 'loc'):
            loc = e.code if e.code is not None else self.read(e.lv)
            cls = norm_type(qt(n)).rstrip('*&')
            if cls == 'Argument':
                return E(loc, 'loc')
            o = LV('obj', 'loc', loc=self.atom(loc))
            if cls == 'ArgumentElement':
                return E(None, 'elem', LV('ael', 'elem', loc=self.live(o)))
            if cls == 'vector<ArgumentElement>':
                return E(None, 'elems', self.efield(o, 'kids'))
        if e.lv is not None and e.lv.ty == 'elem' and t == 'elems':
            return E(None, 'elems', self.efield(e.lv, 'kids'))
        if e.ty == 'elem' and t == 'elems':
            return E('(e_kids %s)' % self.paren(e.code), 'elems')
        if e.ty in ('strs', 'args', 'exn', 'self'):
            return e
        if e.ty in ('oss', 'iss', 'ss', 'cout'):
            return e
        if e.ty.startswith('?') or t.startswith('?'):
            return e
        if e.ty == t:
            return e
        self.unsupported(n, 'base cast %s -> %s' % (e.ty, t))

    x_CXXConstCastExpr = lambda self, n: self.ev(inner(n)[0])

    def x_CXXStaticCastExpr(self, n):
        e = self.ev(inner(n)[0])
        t = mty(qt(n))
        if t == 'bool' or t in IRANGE:
            if e.code is None and e.lv is not None:
                e = E(self.read(e.lv), e.lv.ty)
            if e.ty == 'dbl' and t in IRANGE:
                return E('(d2i_%s %s)' % (t, self.paren(e.code)), t)
            return self.intcast(e, t, n) if e.ty != t else e
        return e

    x_CStyleCastExpr = x_CXXStaticCastExpr

    def x_CXXFunctionalCastExpr(self, n):
        return self.ev(inner(n)[0])

    def x_CXXDefaultArgExpr(self, n):
        return E(None, 'default')

    def x_ConditionalOperator(self, n):
        c, a, b = inner(n)
        cc = self.code(c)
        ba, ra = self.sub(lambda: self.rv(a))
        bb, rb = self.sub(lambda: self.rv(b))
        t = ra.ty if ra.ty != 'null' else rb.ty
        self.blk.effects += ba.effects + bb.effects
        return E('(if %s then %s else %s)' % (cc, self.inline_block(ba, ra.code), self.inline_block(bb, rb.code)), t)

    def inline_block(self, b, final):
        if not b.items:
            return final
        return '(' + b.render(final, '').replace('\n', ' ') + ')'

    def x_ArraySubscriptExpr(self, n):
        a, i = inner(n)
        ea, ei = self.operands([a, i], self.ev)
        ic = ei.code if ei.code is not None else self.read(ei.lv)
        ic = self.atom(ic)
        if ea.code is None and ea.lv is not None and ea.ty != 'charsp':
            if ea.lv.ty in ('cptr', 'argv'):
                ea = E(self.read(ea.lv), ea.lv.ty, ea.lv)
        if ea.ty == 'cptr':
            return E(None, 'i8', LV('cp', 'i8', p=self.atom(ea.code), i=ic))
        if ea.ty == 'argv':
            return E('(cp_of (strs_nth %s %s))' % (ea.code, ic), 'cptr')
        if ea.ty == 'charsp':
            return E(None, 'i8', LV('chr', 'i8', base=ea.lv, i=ic))
        if ea.lv is not None and ea.lv.ty in SEQOF:
            s = ea.lv.ty
            return E(None, SEQ_ELT[s], LV('idx', SEQ_ELT[s], base=ea.lv, seq=s, i=ic))
        self.unsupported(n, ea.ty)

    def x_UnaryOperator(self, n):
        op = n['opcode']
        s = inner(n)[0]
        if op == '!':
            return E('(not %s)' % self.paren(self.code(s)), 'bool')
        if op == '*':
            e = self.ev(s)
            if e.ty == 'thisp':
                if e.lv.kind == 'args':
                    return E(None, 'args', e.lv)
                return E(None, e.lv.ty, e.lv)
            if e.ty.startswith('p:'):
                lv = e.lv
                return E(None, lv.ty, LV('var', lv.ty, name=lv.name) if lv.kind == 'ptr' else lv)
            c = e.code if e.code is not None else self.read(e.lv)
            ty = e.ty if e.code is not None else e.lv.ty
            if ty == 'node':
                return E(None, 'loc', LV('node', 'loc', n=self.atom(c)))
            if ty == 'loc':
                return E(None, 'loc', LV('obj', 'loc', loc=self.atom(c)))
            if ty == 'cptr':
                return E(None, 'i8', LV('cp', 'i8', p=self.atom(c), i='0'))
            self.unsupported(n, ty)
        if op == '&':
            s2 = skip(s)
            if s2['kind'] == 'DeclRefExpr' and s2['referencedDecl']['kind'] in ('FunctionDecl', 'CXXMethodDecl'):
                return E(None, 'func', None, raw=s2['referencedDecl'])
            e = self.ev(s)
            lv = e.lv
            if lv is None:
                self.unsupported(n)
            if lv.kind == 'node':
                return E(lv.n, 'node')
            if lv.kind == 'obj':
                return E(lv.loc, 'loc')
            return E(None, 'p:' + lv.ty, lv)
        if op in ('++', '--'):
            e = self.ev(s)
            lv = e.lv
            if lv is None or lv.ty not in IRANGE:
                self.unsupported(n, e.ty)
            old = self.let(self.read(lv))
            self.write(lv, '(%s_%s %s 1)' % ('add' if op == '++' else 'sub', lv.ty, old))
            if n.get('isPostfix'):
                return E(old, lv.ty)
            return E(None, lv.ty, lv)
        if op == '-':
            e = self.rv(s)
            return E('(sub_%s 0 %s)' % (e.ty, self.paren(e.code)), e.ty)
        if op == '+':
            return self.rv(s)
        self.unsupported(n)

    def arith(self, op, a, b, ty, n):
        names = {'+': 'add', '-': 'sub', '*': 'mul', '/': 'div', '%': 'mod'}
        if op in names and ty in IRANGE:
            return '(%s_%s %s %s)' % (names[op], ty, self.paren(a), self.paren(b))
        self.unsupported(n, 'arith %s on %s' % (op, ty))

    def x_BinaryOperator(self, n):
        op = n['opcode']
        a, b = inner(n)
        if op in ('&&', '||'):
            ca = self.code(a)
            bb, rb = self.sub(lambda: self.code(b))
            if not bb.items:
                return E('(%s %s %s)' % (ca, op, rb), 'bool')
            self.blk.effects += bb.effects
            if op == '&&':
                return E('(if %s then %s else false)' % (ca, self.inline_block(bb, rb)), 'bool')
            return E('(if %s then true else %s)' % (ca, self.inline_block(bb, rb)), 'bool')
        if op == ',':
            self.ev(a)
            return self.ev(b)
        if op == '=':
            # right operand first is one of the allowed orders for builtin types
            e = self.rv(b)
            v = self.atom(e.code)
            lv = self.lval(a)
            if e.ty == 'null' and lv.ty == 'cptr':
                v = '(cp_null ())'
            self.write(lv, v)
            return E(None, lv.ty, lv)
        ea, eb = self.operands([a, b])
        ta, tb = ea.ty, eb.ty
        if op in ('==', '!=', '<', '>', '<=', '>='):
            return self.compare(op, ea, eb, n)
        t = mty(qt(n))
        if ta == 'cptr' and op in ('+', '-') and tb in IRANGE:
            return E('(cp_add %s %s)' % (self.paren(ea.code), self.paren(eb.code) if op == '+' else '(- %s)' % self.paren(eb.code)), 'cptr')
        if ta == 'cptr' and tb == 'cptr' and op == '-':
            return E('(cp_diff %s %s)' % (self.paren(ea.code), self.paren(eb.code)), 'i64')
        if t in IRANGE and ta in IRANGE and tb in IRANGE:
            if op in ('+', '-', '*', '/', '%'):
                if op in ('/', '%'):
                    self.do('()')
                return E(self.arith(op, ea.code, eb.code, t, n), t)
            if op == '&' and raw_stat(ea, eb):
                return E('(stat_fmt %s)' % self.paren(ea.code), t)
        self.unsupported(n, '%s %s %s' % (ta, op, tb))

    def compare(self, op, ea, eb, n):
        ta, tb = ea.ty, eb.ty
        a, b = ea.code, eb.code
        if a is None and ea.lv is not None and ea.lv.kind in ('obj', 'self'):
            a, ta = ea.lv.loc, 'loc'
        if b is None and eb.lv is not None and eb.lv.kind in ('obj', 'self'):
            b, tb = eb.lv.loc, 'loc'
        neg = op == '!='
        if ta == 'thisp' or tb == 'thisp' or a is None or b is None:
            self.unsupported(n, 'compare %s %s' % (ta, tb))
        if ta == 'fptr' or tb == 'fptr':
            ta = tb = 'fptr'
        if op in ('==', '!='):
            if ta == 'cptr' or tb == 'cptr':
                if eb.raw == 'null' or tb == 'null':
                    r = '%s.cnull' % self.paren(a)
                elif ea.raw == 'null' or ta == 'null':
                    r = '%s.cnull' % self.paren(b)
                else:
                    r = 'cp_eq %s %s' % (self.paren(a), self.paren(b))
                return E('(not (%s))' % r if neg else '(%s)' % r, 'bool')
            if ta == 'bool' and tb == 'bool':
                r = '(boolean_eq %s %s)' % (self.paren(a), self.paren(b))
                return E('(not %s)' % r if neg else r, 'bool')
            if ta == 'bool':
                a = '(if %s then 1 else 0)' % a
            if tb == 'bool':
                b = '(if %s then 1 else 0)' % b
            if ta == 'dbl' or tb == 'dbl':
                self.unsupported(n, 'floating comparison')
            return E('(%s %s %s)' % (a, '<>' if neg else '=', b), 'bool')
        if ta == 'dbl' and tb == 'dbl':
            x, y = self.paren(a), self.paren(b)
            if op == '<':
                return E('(dbl_lt %s %s)' % (x, y), 'bool')
            if op == '>':
                return E('(dbl_lt %s %s)' % (y, x), 'bool')
            self.unsupported(n, 'floating comparison')
        if ta in IRANGE and tb in IRANGE:
            return E('(%s %s %s)' % (a, op, b), 'bool')
        self.unsupported(n, '%s %s %s' % (ta, op, tb))

    def x_CompoundAssignOperator(self, n):
        op = n['opcode'][:-1]
        a, b = inner(n)
        e = self.rv(b)
        v = self.atom(e.code)
        lv = self.lval(a)
        ct = mty(norm_type(n['computeLHSType'].get('desugaredQualType') or n['computeLHSType']['qualType']))
        if lv.ty in IRANGE and ct in IRANGE:
            l = self.intcast(E(self.read(lv), lv.ty), ct, n)
            r = self.arith(op, l.code, v, ct, n)
            self.write(lv, self.intcast(E(r, ct), lv.ty, n).code)
            return E(None, lv.ty, lv)
        if lv.ty == 'cptr' and op in ('+', '-'):
            self.write(lv, '(cp_add %s %s)' % (self.paren(self.read(lv)), v if op == '+' else '(- %s)' % v))
            return E(None, lv.ty, lv)
        self.unsupported(n)

    # -------------------------------------------------------------- members
    def x_MemberExpr(self, n):
        s = inner(n)[0]
        name = n['name']
        e = self.ev(s)
        arrow = n.get('isArrow')
        f = name.rstrip('_')
        # enclosing objects
        if e.ty == 'thisp' or (e.lv is not None and e.lv.kind in ('args', 'self', 'obj', 'ael') and e.code is None):
            lv = e.lv
            if lv.kind == 'args':
                return self.args_field(f, n)
            if lv.kind == 'self':
                if ('h_' + f) in self.w.maps and self.inherits_argument(lv.cls) and not self.own_field(lv.cls, name):
                    return self.arg_field(LV('obj', 'loc', loc=lv.loc, isthis=True), f, n)
                if f == 'args' and self.inherits_argument(lv.cls) and not self.own_field(lv.cls, name):
                    return E(None, 'args', LV('args', 'args'))
                return self.self_field(lv, name, n)
            if lv.kind in ('obj', 'ael'):
                if arrow and lv.kind == 'obj' and e.ty != 'thisp' and not getattr(lv, 'isthis', False) and lv.ty == 'locp':
                    lv = LV('obj', 'loc', loc=lv.loc)
                return self.arg_field(lv, f, n)
            if lv.ty == 'elem':
                return E(None, None, self.efield(lv, f)) if False else self.elem_field(lv, f, n)
            if lv.kind == 'exn':
                return self.exn_field(lv, f)
        if e.ty == 'args':
            return self.args_field(f, n)
        if e.ty == 'self':
            return self.self_field(e.lv, name, n)
        if e.lv is not None and e.lv.kind == 'exn':
            return self.exn_field(e.lv, f)
        if e.lv is not None and e.lv.kind == 'mapp':
            if name == 'second':
                return E(None, 'node', LV('mapsecond', 'node', it=e.lv.it))
            if name == 'first':
                return E('(map_first %s)' % e.lv.it, 'str')
        if e.lv is not None and e.lv.ty == 'elem':
            return self.elem_field(e.lv, f, n)
        if e.ty == 'elem':
            return E('(e_%s %s)' % (f, self.paren(e.code)), {'argument': 'str', 'default': 'str', 'isNumber': 'bool', 'number': 'dbl'}[f])
        if e.ty == 'loc' or (e.lv is not None and e.lv.ty == 'loc'):
            c = e.code if e.code is not None else self.read(e.lv)
            return self.arg_field(LV('obj', 'loc', loc=self.atom(c)), f, n)
        if e.lv is not None and e.lv.ty == 'stat' and name == 'st_mode':
            return E(self.read(e.lv), 'u32', raw='st_mode')
        if e.ty == 'pair':
            return E(e.raw[0] if name == 'first' else e.raw[1], 'str' if name == 'first' else 'node')
        self.unsupported(n, 'member of %s' % e.ty)

    def inherits_argument(self, cls):
        while cls is not None:
            if cls == 'Argument':
                return True
            cls = self.w.bases.get(cls)
        return False

    def own_field(self, cls, name):
        return any(x[0] == name for x in self.w.fields.get(cls, []))

    def args_field(self, f, n):
        if f == 'argumentFromName':
            return E(None, 'map', LV('map', 'map'))
        if f == 'args':
            return E(None, 'args', LV('args', 'args'))
        g = 'g_' + f
        if g in self.w.globals:
            return E(None, self.w.globals[g], LV('glob', self.w.globals[g], name=g))
        self.unsupported(n, 'field of Args')

    def arg_field(self, lv, f, n):
        if f == 'args':
            return E(None, 'args', LV('args', 'args'))
        h = 'h_' + f
        if h in self.w.maps:
            return E(None, self.w.maps[h], LV('fld', self.w.maps[h], map=h, loc=lv.loc if lv.kind == 'ael' else self.live(lv)))
        self.unsupported(n, 'field of Argument')

    def elem_field(self, lv, f, n):
        if f in ('argument', 'default', 'isNumber', 'number'):
            l = self.efield(lv, f)
            return E(None, l.ty, l)
        self.unsupported(n, 'field of ArgumentElement')

    def exn_field(self, lv, f):
        if f == 'str':
            return E('%s.ewhat' % self.paren(lv.code), 'str')
        if f == 'argument':
            return E('%s.earg' % self.paren(lv.code), 'str')
        raise Unsupported('exception field ' + f)

    def self_field(self, lv, name, n):
        """Field of an object of another class: one global per field."""
        for c, fs in self.w.fields.items():
            if c == lv.cls:
                for fn, ft in fs:
                    if fn == name:
                        ty = mty(ft)
                        g = 's_%s_%s' % (re.sub(r'[^A-Za-z0-9]', '_', lv.cls), name.rstrip('_'))
                        if ty == 'fptr':
                            g = 's_fptr_' + name.rstrip('_')
                        elif name == 'dest_':
                            g = 's_dest_' + re.sub(r'[^A-Za-z0-9]', '_', ty)
                        self.w.globals.setdefault(g, ty)
                        return E(None, ty, LV('glob', ty, name=g))
        self.unsupported(n, 'field %s of %s' % (name, lv.cls))

    # ---------------------------------------------------------------- calls
    def argvals(self, ns):
        return self.operands(ns, self.ev)

    def x_CallExpr(self, n):
        f = self.ev(inner(n)[0])
        if f.ty != 'func':
            return self.fptr_call(f, inner(n)[1:], n)
        d = f.raw
        args = inner(n)[1:]
        key = self.tu.decls.get(d['id'])
        if key is not None and key in self.w.funcs:
            return self.call(key, None, args, n)
        return self.extern_call(d['name'], args, n)

    def fptr_call(self, f, args, n):
        # user supplied callback: recorded in a ghost log
        es = self.argvals(args)
        vals = []
        for e in es[1:]:
            vals.append(self.paren(e.code if e.code is not None else self.read(e.lv)))
        tys = [e.ty if e.code is not None else e.lv.ty for e in es[1:]]
        nm = 'cb_' + '_'.join(tys)
        d = es[0].lv
        if d is None or d.kind != 'glob':
            self.unsupported(n, 'callback destination')
        nm += '_' + d.ty
        self.w.externs[nm] = (d.name, d.ty, tys)
        self.do('%s %s' % (nm, ' '.join(vals)))
        return E('()', 'void')

    def args_code(self, args):
        res = []
        for e in self.argvals(args):
            res.append(E(e.code if e.code is not None else (self.read(e.lv) if e.lv is not None and e.lv.kind not in ('args', 'self') else None),
                         e.ty if e.code is not None or e.lv is None else e.lv.ty, e.lv, e.raw))
        return res

    def extern_call(self, name, args, n):
        if name in ('strchr',):
            a, b = self.args_code(args)
            return E('(c_strchr %s %s)' % (self.paren(a.code), self.paren(b.code)), 'cptr')
        if name == 'strcmp':
            a, b = self.args_code(args)
            return E('(c_strcmp %s %s)' % (self.paren(a.code), self.paren(b.code)), 'i32')
        if name == 'make_pair':
            a, b = self.args_code(args)
            return E(None, 'pair', None, raw=(self.atom(self.as_str(a)), self.atom(b.code)))
        if name == 'strlen':
            a, = self.args_code(args)
            return E('(c_strlen %s)' % self.paren(a.code), 'u64')
        if name == 'strtod':
            a, b = self.argvals(args)
            p = self.atom(a.code if a.code is not None else self.read(a.lv))
            if b.raw == 'null' or b.ty == 'null':
                return E(self.let('(c_strtod %s)' % p), 'dbl')
            v = self.let('(c_strtod %s)' % p)
            if b.lv is None or b.lv.ty != 'cptr':
                self.unsupported(n)
            self.write(b.lv, '(c_strtod_end %s)' % p)
            return E(v, 'dbl')
        if name == 'memcpy':
            d, s, c = self.argvals(args)
            if d.ty != 'charsp':
                self.unsupported(n, 'memcpy destination')
            sc = s.code if s.code is not None else self.read(s.lv)
            cc = c.code if c.code is not None else self.read(c.lv)
            self.write(d.lv, '(c_memcpy %s %s %s)' % (self.paren(self.read(d.lv)), self.paren(sc), self.paren(cc)))
            return E('()', 'void')
        if name == 'toupper':
            a, = self.args_code(args)
            return E('(c_toupper %s)' % self.paren(a.code), 'i32')
        if name == 'exit':
            self.do('raise Exit')
            return E('()', 'void')
        if name == 'stat':
            a, b = self.argvals(args)
            p = self.atom(a.code if a.code is not None else self.read(a.lv))
            self.write(b.lv, '(c_stat_mode %s)' % p)
            return E('(c_stat_rc %s)' % p, 'i32')
        if name == 'getline':
            a, b = self.argvals(args)
            if a.lv is None or a.lv.ty != 'iss' or b.lv is None or b.lv.ty != 'str':
                self.unsupported(n)
            r = self.let('(iss_getline %s %s)' % (self.read(a.lv), self.read(b.lv)))
            self.write(a.lv, '%s.gl_rest' % r)
            self.write(b.lv, '%s.gl_line' % r)
            return E('%s.gl_ok' % r, 'stream')
        if name == 'find':
            es = self.args_code(args)
            ty = es[0].ty
            if ty == 'nodes_it':
                return E('(nodes_find %s %s %s)' % tuple(self.paren(e.code) for e in es), ty)
            if ty in ('strs_it', 'mits_it'):
                if ty == 'mits_it':
                    return E('(mits_findit %s %s %s)' % tuple(self.paren(e.code) for e in es), ty)
                return E('(%s_find %s %s %s)' % ((seqname(ty[:-3]),) + tuple(self.paren(e.code) for e in es)), ty)
            self.unsupported(n, ty)
        if name == 'sort':
            es = self.argvals(args)
            src = es[0].lv2 if hasattr(es[0], 'lv2') else None
            if src is None or es[2].raw is None:
                self.unsupported(n, 'std::sort')
            cmpk = self.tu.decls.get(es[2].raw['id'])
            c = self.w.contracts.get(cmpk)
            if c is None:
                self.unsupported(n, 'no comparator contract for %s' % cmpk)
            self.inl_dep(cmpk)
            if es[0].code.split()[0] != '(%s_begin' % seqname(src.ty) or es[1].code.split()[0] != '(%s_end' % seqname(src.ty):
                self.unsupported(n, 'partial sort')
            self.write(src, '(%s_sort_%s %s)' % (seqname(src.ty), c.name, self.read(src)))
            return E('()', 'void')
        if name in ('min', 'max'):
            a, b = self.args_code(args)
            x, y = self.atom(a.code), self.atom(b.code)
            return E('(if %s < %s then %s else %s)' % ((y, x, y, x) if name == 'min' else (x, y, y, x)), a.ty)
        self.unsupported(n, 'external function %s' % name)

    def inl_dep(self, key):
        self.w.calls.setdefault(self.key, set()).add(key)

    def x_CXXMemberCallExpr(self, n):
        me = skip(inner(n)[0])
        args = inner(n)[1:]
        if me['kind'] != 'MemberExpr':
            self.unsupported(n)
        key = self.tu.decls.get(me.get('referencedMemberDecl'))
        if key is not None and key in self.w.funcs and not self.is_virtual_site(me, key):
            base = self.ev(inner(me)[0])
            return self.call(key, base, args, n)
        base = self.ev(inner(me)[0])
        if key is not None or self.is_virtual_site(me, key):
            r = self.virtual(me, key, base, args, n)
            if r is not None:
                return r
        return self.std_method(me, base, args, n)

    def is_virtual_site(self, me, key):
        return me.get('name') in ('toDest_', 'isValid')

    def virtual(self, me, key, base, args, n):
        nm = me['name']
        if nm == 'toDest_':
            c = base.code if base.code is not None else (base.lv.loc if base.lv.kind in ('obj', 'self') else self.read(base.lv))
            self.do('virtual_toDest (chk %s) !h_kids !h_argument !h_isExist !h_isNumber !h_number' % self.paren(c))
            return E('()', 'void')
        if nm == 'isValid':
            c = base.code if base.code is not None else self.read(base.lv)
            a, = self.argvals(args)
            v = self.let('(virtual_isValid %s %s)' % (self.paren(c), a.lv.name))
            self.blk.effects += 1
            return E(v, 'bool')
        return None

    def x_CXXOperatorCallExpr(self, n):
        fn = skip(inner(n)[0])
        while fn['kind'] == 'ImplicitCastExpr':
            fn = skip(inner(fn)[0])
        d = fn['referencedDecl']
        args = inner(n)[1:]
        key = self.tu.decls.get(d['id'])
        if key is not None and key in self.w.funcs:
            if d['kind'] == 'CXXMethodDecl':
                base = self.ev(args[0])
                return self.call(key, base, args[1:], n)
            return self.call(key, None, args, n)
        op = d['name'][len('operator'):].strip()
        return self.std_operator(op, args, n)

    # values of standard library types ------------------------------------
    def as_str(self, e):
        """Code of a str from a string / C string / char expression."""
        if e.code is None:
            if e.lv is None:
                raise Unsupported('%s: no string value' % self.key)
            e = E(self.read(e.lv), e.lv.ty, e.lv)
        if e.ty == 'str':
            return e.code
        if e.ty == 'cptr':
            if e.raw and e.raw.startswith('lit_'):
                for bs, nm in self.w.lits.d.items():
                    if nm == e.raw and b'\0' not in bs:
                        return nm
            return '(cp_str %s)' % self.paren(e.code)
        if e.ty == 'chars':
            return '(cp_str (cp_of %s))' % self.paren(e.code)
        if e.ty == 'i8':
            m = re.match(r'^\(?(- ?)?(\d+)\)?$', e.code)
            if m:
                # a constant character is the literal of that character
                return self.w.lits.get(bytes([(-int(m.group(2)) if m.group(1) else int(m.group(2))) & 255]))
            return '(str_snoc str_empty %s)' % self.paren(e.code)
        if e.ty == 'dbl':
            return '(dbl_fmt %s)' % self.paren(e.code)
        if e.ty in IRANGE:
            return '(int_fmt %s)' % self.paren(e.code)
        raise Unsupported('%s: not a string: %s' % (self.key, e.ty))

    def is_iter(self, ty):
        return ty is not None and (ty.endswith('_it') or ty == 'mit')

    def std_operator(self, op, args, n):
        if op == '=':
            lhs = self.ev(args[0])
            r = self.ev(args[1])
            lv = lhs.lv
            if lv is None:
                self.unsupported(n, 'assignment')
            if lv.ty == 'str':
                self.write(lv, self.as_str(r))
            else:
                c = r.code if r.code is not None else self.read(r.lv)
                self.write(lv, c)
            return E(None, lv.ty, lv)
        if op == '[]':
            a, i = self.operands(args, self.ev)
            if a.ty == 'map' or (a.lv is not None and a.lv.kind == 'map'):
                k = self.atom(self.as_str(i))
                return E(None, 'node', LV('mapsecond', 'node', it='{ m_end = false; m_key = %s }' % k))
            ic = self.atom(i.code if i.code is not None else self.read(i.lv))
            return self.index(a, ic, n)
        if op == '()':
            self.unsupported(n)
        if op in ('<<',):
            return self.stream_out(args, n)
        if op == '>>':
            return self.stream_in(args, n)
        if op == '!':
            e = self.ev(args[0])
            if e.ty == 'stream':
                return E('(not %s)' % self.paren(e.code), 'bool')
            self.unsupported(n, 'operator! on %s' % e.ty)
        if op in ('++', '--') and len(args) in (1, 2):
            e = self.ev(args[0])
            lv = e.lv
            if lv is None:
                self.unsupported(n)
            old = self.atom(self.read(lv))
            if lv.ty == 'mit' and op == '++':
                self.write(lv, '(map_next %s)' % old)
            elif lv.ty.endswith('_it') and op == '++':
                if lv.ty == 'nodes_it':
                    self.write(lv, '(nodes_next !g_arguments %s)' % old)
                else:
                    self.write(lv, '(%s_next %s)' % (seqname(lv.ty[:-3]), old))
            else:
                self.unsupported(n, 'iterator ' + op)
            if len(args) == 2:
                return E(old, lv.ty)
            return E(None, lv.ty, lv)
        if op in ('*', '->') and len(args) == 1:
            e = self.ev(args[0])
            c = e.code if e.code is not None else self.read(e.lv)
            ty = e.ty if e.code is not None else e.lv.ty
            if ty == 'mit':
                return E(None, 'mapp', LV('mapp', 'mapp', it=self.atom(c)))
            if ty == 'nodes_it':
                nd = self.atom('(ints_deref %s)' % self.paren(c))
                lv = LV('node', 'loc', n=nd)
                return E(None, 'loc', lv)
            if ty.endswith('_it'):
                s = ty[:-3]
                v = '(%s_deref %s)' % (seqname(s), self.paren(c))
                return E(v, SEQ_ELT[s])
            self.unsupported(n, 'deref of %s' % ty)
        es = self.args_code(args)
        if op == '+=':
            lv = es[0].lv
            if lv is not None and lv.ty == 'str':
                if es[1].ty == 'i8':
                    self.write(lv, '(str_snoc %s %s)' % (self.read(lv), self.paren(es[1].code)))
                else:
                    self.write(lv, '(str_cat %s %s)' % (self.read(lv), self.paren(self.as_str(es[1]))))
                return E(None, lv.ty, lv)
            self.unsupported(n)
        a, b = es
        if op == '+':
            if 'str' in (a.ty, b.ty):
                if b.ty == 'i8':
                    return E('(str_snoc %s %s)' % (self.paren(a.code), self.paren(b.code)), 'str')
                return E('(str_cat %s %s)' % (self.paren(self.as_str(a)), self.paren(self.as_str(b))), 'str')
            if a.ty.endswith('_it') and b.ty in IRANGE:
                return E('(%s_adv %s %s)' % (seqname(a.ty[:-3]), self.paren(a.code), self.paren(b.code)), a.ty)
            self.unsupported(n, '%s + %s' % (a.ty, b.ty))
        if op in ('==', '!='):
            if 'str' in (a.ty, b.ty):
                r = '(str_eqb %s %s)' % (self.paren(self.as_str(a)), self.paren(self.as_str(b)))
            elif a.ty == 'mit' and b.ty == 'mit':
                r = '(mit_eq %s %s)' % (self.paren(a.code), self.paren(b.code))
            elif a.ty == b.ty and a.ty.endswith('_it'):
                r = '(%s_it_eq %s %s)' % (seqname(a.ty[:-3]), self.paren(a.code), self.paren(b.code))
            else:
                self.unsupported(n, '%s %s %s' % (a.ty, op, b.ty))
            return E('(not %s)' % r if op == '!=' else r, 'bool')
        if op in ('<', '>') and 'str' in (a.ty, b.ty):
            x, y = self.paren(self.as_str(a)), self.paren(self.as_str(b))
            if op == '>':
                x, y = y, x
            return E('(str_ltb %s %s)' % (x, y), 'bool')
        if op in ('<=', '>=') and 'str' in (a.ty, b.ty):
            x, y = self.paren(self.as_str(a)), self.paren(self.as_str(b))
            if op == '<=':
                x, y = y, x
            return E('(not (str_ltb %s %s))' % (x, y), 'bool')
        self.unsupported(n, 'operator%s on %s' % (op, a.ty))

    def index(self, a, ic, n, checked=False):
        lv = a.lv
        if a.code is not None:
            lv = None
        ty = a.ty if lv is None else lv.ty
        if lv is None:
            lv = LV('val', a.ty, name=self.atom(a.code))
        if ty == 'elem':
            lv = self.efield(lv, 'kids')
            ty = 'elems'
        if ty == 'loc':
            o = lv if lv.kind == 'obj' else LV('obj', 'loc', loc=self.atom(self.read(lv)))
            lv = self.efield(o, 'kids')
            ty = 'elems'
        if ty == 'str':
            if checked:
                self.do('assert { [@expl:std::out_of_range] %s < str_len %s }' % (ic, self.atom(self.read(lv))))
            return E(None, 'i8', LV('chr', 'i8', base=lv, i=ic))
        if ty in SEQ_ELT:
            return E(None, SEQ_ELT[ty], LV('idx', SEQ_ELT[ty], base=lv, seq=ty, i=ic))
        self.unsupported(n, 'index of %s' % ty)

    def std_method(self, me, base, args, n):
        nm = me['name']
        lv = base.lv if base.code is None else None
        ty = base.ty if lv is None else lv.ty
        if lv is not None and lv.kind == 'map' or ty == 'map':
            return self.map_method(nm, args, n)
        if ty == 'elem':
            l2 = self.efield(lv, 'kids') if lv is not None else None
            base, lv, ty = E(None if l2 else '(e_kids %s)' % base.code, 'elems', l2), l2, 'elems'
        if ty == 'loc':
            o = lv if lv is not None and lv.kind == 'obj' else LV('obj', 'loc', loc=self.atom(base.code if lv is None else self.read(lv)))
            lv = self.efield(o, 'kids')
            base, ty = E(None, 'elems', lv), 'elems'
        if lv is not None and lv.kind == 'self' and lv.ty == 'strs':
            ty = 'strs'
        cur = (lambda: base.code) if lv is None else (lambda: self.read(lv))
        if ty == 'exn' and nm in ('what', 'argument'):
            return E('(cp_of %s.%s)' % (self.paren(cur()), 'ewhat' if nm == 'what' else 'earg'), 'cptr')
        S = seqname(ty)
        if ty == 'stream' and nm == 'operator bool':
            return E(base.code, 'bool')
        if ty == 'stream' and nm in ('good',):
            return E(base.code, 'bool')
        if nm in ('operator bool',):
            self.unsupported(n, 'operator bool of %s' % ty)
        if ty in SEQ_ELT:
            if nm in ('size', 'length') and not args:
                return E(self.rd('(%s_len %s)' % (S, self.paren(cur())), 'u64'), 'u64')
            if nm == 'empty':
                return E('(%s_isempty %s)' % (S, self.paren(cur())), 'bool')
            if nm == 'clear':
                if ty == 'nodes':
                    self.do('nodes_free_all %s' % self.paren(cur()))
                self.write(lv, '%s_empty' % S)
                return E('()', 'void')
            if nm in ('reserve', 'shrink_to_fit'):
                for a in args:
                    self.ev(a)
                return E('()', 'void')
            if nm in ('at', 'operator[]'):
                i = self.rv(args[0])
                return self.index(base, self.atom(i.code), n, checked=(nm == 'at'))
            if nm in ('begin', 'cbegin', 'end', 'cend'):
                e = E('(%s_%s %s)' % (S, nm.lstrip('c') if nm != 'clear' else nm, self.paren(cur())), ty + '_it')
                if lv is not None:
                    e.lv2 = lv
                return e
            if nm in ('front', 'back'):
                if ty == 'nodes':
                    return E(None, 'loc', LV('node', 'loc', n=self.let('(ints_%s %s)' % (nm, self.paren(cur())))))
                v = '(%s_%s %s)' % (S, nm, self.paren(cur()))
                if lv is not None:
                    i = '0' if nm == 'front' else self.let('(%s_len %s - 1)' % (S, self.paren(cur())))
                    return E(None, SEQ_ELT[ty], LV('idx', SEQ_ELT[ty], base=lv, seq=ty, i=i))
                return E(v, SEQ_ELT[ty])
            if nm in ('push_back', 'emplace_back') and len(args) == 1:
                e = self.ev(args[0])
                if ty == 'nodes':
                    nd = self.let('(new_node ())', 'n')
                    v = e.code if e.code is not None else self.read(e.lv)
                    self.do('node_set %s %s' % (nd, self.paren(v)))
                    self.write(lv, '(ints_snoc %s %s)' % (self.read(lv), nd))
                    return E('()', 'void')
                if ty == 'strs':
                    v = self.as_str(e)
                else:
                    v = e.code if e.code is not None else self.read(e.lv)
                v = self.atom(v)
                self.write(lv, '(%s_snoc %s %s)' % (S, self.read(lv), v))
                return E('()', 'void')
            if nm == 'pop_back':
                self.write(lv, '(%s_pop %s)' % (S, self.read(lv)))
                return E('()', 'void')
            if nm == 'erase' and len(args) == 1:
                e = self.rv(args[0])
                if e.ty.endswith('_it'):
                    it = self.atom(e.code)
                    if ty == 'nodes':
                        self.do('node_free %s' % it)
                    self.write(lv, '(%s_erase_it %s %s)' % (S, self.read(lv), it))
                    return E('()', 'void')
            if nm == 'sort' and ty == 'nodes' and len(args) == 1:
                f = self.ev(args[0])
                ck = self.tu.decls.get(f.raw['id']) if f.raw is not None else None
                c = self.w.contracts.get(ck)
                if c is None:
                    self.unsupported(n, 'no comparator contract for %s' % ck)
                self.inl_dep(ck)
                self.do('nodes_sort_%s ()' % c.name)
                return E('()', 'void')
        if ty in ('str',):
            if nm in ('c_str', 'data'):
                return E('(cp_of %s)' % self.paren(cur()), 'cptr')
            if nm == 'substr':
                es = self.args_code(args)
                es = [e for e in es if e.ty != 'default']
                pos = es[0].code if es else '0'
                cnt = es[1].code if len(es) > 1 else 'npos'
                return E('(str_substr %s %s %s)' % (self.paren(cur()), self.paren(pos), self.paren(cnt)), 'str')
            if nm in ('find', 'rfind', 'find_first_of', 'find_last_of'):
                es = [e for e in self.args_code(args) if e.ty != 'default']
                if es[0].ty == 'i8':
                    rev = nm in ('rfind', 'find_last_of')
                    pos = es[1].code if len(es) > 1 else ('npos' if rev else '0')
                    return E('(str_%sfind_ch %s %s %s)' % ('r' if rev else '', self.paren(cur()), self.paren(es[0].code), self.paren(pos)), 'u64')
            if nm in ('find',):
                es = [e for e in self.args_code(args) if e.ty != 'default']
                if len(es) <= 2 and es[0].ty in ('str', 'cptr'):
                    return E('(str_find_str %s %s %s)' % (self.paren(cur()), self.paren(self.as_str(es[0])),
                                                          self.paren(es[1].code) if len(es) > 1 else '0'), 'u64')
            if nm == 'find_first_not_of':
                es = [e for e in self.args_code(args) if e.ty != 'default']
                if es[0].ty == 'i8':
                    return E('(str_find_not_ch %s %s %s)' % (self.paren(cur()), self.paren(es[0].code),
                                                             self.paren(es[1].code) if len(es) > 1 else '0'), 'u64')
            if nm == 'erase':
                es = [e for e in self.args_code(args) if e.ty != 'default']
                if all(e.ty in IRANGE for e in es):
                    pos = es[0].code if es else '0'
                    cnt = es[1].code if len(es) > 1 else 'npos'
                    self.write(lv, '(str_erase %s %s %s)' % (self.read(lv), self.paren(pos), self.paren(cnt)))
                    return E(None, 'str', lv)
            if nm == 'insert' and len(args) == 2:
                es = self.args_code(args)
                if es[0].ty in IRANGE and es[1].ty in ('str', 'cptr'):
                    self.write(lv, '(str_ins %s %s %s)' % (self.read(lv), self.paren(es[0].code), self.paren(self.as_str(es[1]))))
                    return E(None, 'str', lv)
            if nm in ('append', 'assign') and len(args) == 2:
                es = self.args_code(args)
                if es[0].ty in IRANGE and es[1].ty in IRANGE:
                    t = '(str_make %s %s)' % (self.paren(es[0].code), self.paren(es[1].code))
                    self.write(lv, t if nm == 'assign' else '(str_cat %s %s)' % (self.read(lv), t))
                    return E(None, 'str', lv)
            if nm in ('append', 'assign') and len(args) == 3:
                es = self.args_code(args)
                if es[0].ty == 'str' and es[1].ty in IRANGE and es[2].ty in IRANGE:
                    t = '(str_substr %s %s %s)' % tuple(self.paren(e.code) for e in es)
                    self.write(lv, t if nm == 'assign' else '(str_cat %s %s)' % (self.read(lv), t))
                    return E(None, 'str', lv)
            if nm in ('append',) and len(args) == 1:
                e = self.ev(args[0])
                self.write(lv, '(str_cat %s %s)' % (self.read(lv), self.paren(self.as_str(e))))
                return E(None, 'str', lv)
            if nm in ('assign',) and len(args) == 1:
                e = self.ev(args[0])
                self.write(lv, self.as_str(e))
                return E(None, 'str', lv)
            if nm == 'compare' and len(args) in (1, 3):
                es = self.args_code(args)
                if len(es) == 1:
                    return E('(str_cmp %s %s)' % (self.paren(cur()), self.paren(self.as_str(es[0]))), 'i32')
                return E('(str_cmp (str_substr %s %s %s) %s)' % (self.paren(cur()), self.paren(es[0].code), self.paren(es[1].code),
                                                                 self.paren(self.as_str(es[2]))), 'i32')
        if ty == 'oss':
            if nm == 'str' and not args:
                return E('%s.o_buf' % self.paren(cur()), 'str')
            if nm == 'width' and len(args) == 1:
                w = self.atom(self.code(args[0]))
                self.write(lv, '{ %s with o_width = %s }' % (self.paren(cur()), w))
                return E('()', 'void')
            if nm == 'flags' and len(args) == 1:
                e = self.rv(args[0])
                if e.raw != 'ios_left' and e.code != '32':
                    self.unsupported(n, 'stream flags')
                self.write(lv, '{ %s with o_left = true }' % self.paren(cur()))
                return E('()', 'void')
        self.unsupported(n, 'method %s of %s' % (nm, ty))

    def map_method(self, nm, args, n):
        if nm == 'find':
            e = self.ev(args[0])
            return E('(map_find %s)' % self.paren(self.as_str(e)), 'mit')
        if nm == 'count':
            e = self.ev(args[0])
            return E('(if mget_sb !g_mdom %s then 1 else 0)' % self.paren(self.as_str(e)), 'u64')
        if nm in ('end', 'cend'):
            return E('(map_end ())', 'mit')
        if nm in ('begin', 'cbegin'):
            return E('(map_begin ())', 'mit')
        if nm == 'clear':
            self.do('map_clear ()')
            return E('()', 'void')
        if nm == 'erase':
            e = self.rv(args[0])
            if e.ty == 'mit':
                self.do('map_erase_it %s' % self.paren(e.code))
            else:
                self.do('map_erase_key %s' % self.paren(self.as_str(e)))
            return E('()', 'void')
        if nm == 'insert':
            e = self.ev(args[0])
            if e.ty != 'pair':
                self.unsupported(n, 'insert of %s' % e.ty)
            self.do('map_insert %s %s' % (self.paren(e.raw[0]), self.paren(e.raw[1])))
            return E('()', 'void')
        self.unsupported(n, 'map method %s' % nm)

    def stream_out(self, args, n):
        s = self.ev(args[0])
        a = skip(args[1])
        lv = s.lv
        if lv is None:
            self.unsupported(n)
        if lv.ty == 'str' and lv.kind == 'glob':     # std::cout
            d = a
            while d['kind'] == 'ImplicitCastExpr':
                d = skip(inner(d)[0])
            if d['kind'] == 'DeclRefExpr' and d['referencedDecl'].get('name') == 'endl':
                c = self.w.lits.get(b'\n')
            else:
                c = self.as_str(self.ev(args[1]))
            c = self.atom(c)
            self.write(lv, '(str_cat %s %s)' % (self.read(lv), c))
            return E(None, 'cout', lv)
        if lv.ty == 'oss':
            e = self.ev(args[1])
            c = self.atom(self.as_str(e))
            self.write(lv, '(oss_put %s %s)' % (self.read(lv), c))
            return E(None, 'oss', lv)
        if lv.ty == 'ss':
            e = self.ev(args[1])
            c = self.atom(self.as_str(e))
            self.write(lv, '(ss_put %s %s)' % (self.read(lv), c))
            return E(None, 'ss', lv)
        self.unsupported(n, lv.ty)

    def stream_in(self, args, n):
        s = self.ev(args[0])
        t = self.ev(args[1])
        if s.lv is None or s.lv.ty != 'ss' or t.lv is None or t.lv.ty != 'dbl':
            self.unsupported(n)
        v = self.atom(self.read(s.lv))
        self.write(t.lv, '(ss_dbl %s)' % v)
        return E('(ss_dblok %s)' % v, 'stream')

    # --------------------------------------------------------- construction
    def x_CXXTemporaryObjectExpr(self, n):
        return self.x_CXXConstructExpr(n)

    def x_InitListExpr(self, n):
        self.unsupported(n)

    def x_CXXConstructExpr(self, n):
        t = norm_type(qt(n))
        ty = mty(t)
        args = [a for a in inner(n) if a and a['kind'] != 'CXXDefaultArgExpr']
        if ty == 'exn':
            return self.exn_construct(t, args, n)
        if ty == 'str':
            if not args:
                return E('str_empty', 'str')
            es = [self.ev(a) for a in args] if len(args) == 1 else self.args_code(args)
            if len(es) == 1:
                return E(self.as_str(es[0]), 'str')
            if es[0].ty in IRANGE and es[1].ty in IRANGE:
                return E('(str_make %s %s)' % (self.paren(es[0].code), self.paren(es[1].code)), 'str')
            if es[0].ty == 'str':
                cnt = es[2].code if len(es) > 2 else 'npos'
                return E('(str_substr %s %s %s)' % (self.paren(es[0].code), self.paren(es[1].code), self.paren(cnt)), 'str')
            if es[0].ty == 'cptr' and len(es) == 2 and es[1].ty in IRANGE:
                return E('(cp_strn %s %s)' % (self.paren(es[0].code), self.paren(es[1].code)), 'str')
            self.unsupported(n)
        if t == 'Vector' or t == 'ArgumentElement':
            if len(args) == 1 and self.same_class(args[0], t):
                e = self.rv(args[0])
                return E(e.code, e.ty)
            return self.construct_value(t, ty, args, n)
        if ty in SEQ_ELT and ty != 'nodes':
            if not args:
                return E('%s_empty' % seqname(ty), ty)
            if len(args) == 1:
                e = self.rv(args[0])
                if e.ty == ty:
                    return E(e.code, ty)
                if e.ty == 'elem' and ty == 'elems':
                    return E('(e_kids %s)' % self.paren(e.code), ty)
                if e.ty in IRANGE and ty == 'strs':
                    return E('(strs_new %s)' % self.paren(e.code), ty)
        if ty == 'nodes' and not args:
            return E('ints_empty', ty)
        if ty in ('oss',):
            if args:
                c = self.as_str(self.ev(args[0]))
                return E('(oss_init %s)' % self.paren(c), 'oss')
            return E('(oss_init str_empty)', 'oss')
        if ty == 'iss':
            return E(self.as_str(self.ev(args[0])), 'iss')
        if ty == 'ss':
            return E('(ss_init %s)' % self.paren(self.as_str(self.ev(args[0])) if args else 'str_empty'), 'ss')
        if self.is_iter(ty):
            if not args:
                return E('(any_%s ())' % ty, ty)
            e = self.ev(args[0])
            if e.code is None:
                r = E(self.read(e.lv), e.lv.ty, e.lv)
                return r
            return e
        if ty == 'pair':
            es = self.args_code(args)
            if len(es) == 1:
                return self.ev(args[0])
            k = self.atom(self.as_str(es[0]))
            v = self.atom(es[1].code)
            return E(None, 'pair', None, raw=(k, v))
        if ty == 'stat':
            return E('0', 'stat')
        if ty == 'map':
            return E(None, 'map', None, raw='empty')
        self.unsupported(n, 'construction of %s' % t)

    def same_class(self, a, t):
        a = skip(a)
        return norm_type(qt(a)).rstrip('&') == t

    def ctor_key(self, n, t):
        ct = norm_type(n['ctorType'].get('desugaredQualType') or n['ctorType']['qualType'])
        ps = ct[ct.index('('):]
        ps = re.sub(r'noexcept(\(.*\))?$', '', ps)
        key = '%s::%s%s' % (t, t.split('<')[0], ps)
        return key

    def construct_value(self, t, ty, args, n):
        key = self.ctor_key(n, t)
        if key not in self.w.funcs:
            self.unsupported(n, 'constructor %s' % key)
        v = self.fresh('tmp')
        self.blk.items.append(('let', v, 'ref %s' % ('strs_empty' if ty == 'strs' else '(any_elem ())')))
        lv = LV('var', ty, name=v)
        self.construct_into(key, lv, args)
        return E('!' + v, ty, None)

    def construct_into(self, key, lv, args):
        """Run constructor key on the object lv (inlined or through its contract)."""
        return self.inline(key, lv, self.argvals(args))

    def exn_construct(self, t, args, n):
        if len(args) == 1:
            a = skip(args[0])
            if mty(norm_type(qt(a))) == 'exn':
                return self.rv(args[0])
        key = self.ctor_key(n, t)
        es = self.argvals(args)
        r = {'ewhat': 'str_empty', 'earg': 'str_empty'}
        self.exn_init(key, es, r)
        return E('{ ek = %d; ewhat = %s; earg = %s }' % (self.w.kindno(t), r['ewhat'], r['earg']), 'exn')

    def exn_init(self, key, es, r):
        if key not in self.w.funcs:
            raise Unsupported('exception constructor %s' % key)
        tu, f = self.w.funcs[key]
        self.note_inlined(key)
        save = self.tu
        self.tu = tu
        try:
            for p, e in zip(params(f), es):
                c = e.code if e.code is not None else self.read(e.lv)
                if e.raw and e.ty == 'cptr' and not e.raw.startswith('lit_'):
                    e.raw = None
                self.env[(tu.path + tu.label, p['id'])] = LV('val', e.ty if e.code is not None else e.lv.ty, name=self.atom(c))
                if e.raw:
                    self.env[(tu.path + tu.label, p['id'])].raw = e.raw
            b = body(f)
            if b is not None and [x for x in inner(b) if x]:
                raise Unsupported('exception constructor with a body')
            for c in inner(f):
                if c and c.get('kind') == 'CXXCtorInitializer':
                    if 'anyInit' in c:
                        fn = c['anyInit']['name']
                        v = self.atom(self.as_str(self.rv(inner(c)[0])))
                        if fn == 'str_':
                            r['ewhat'] = v
                        elif fn == 'argument_':
                            r['earg'] = v
                        else:
                            raise Unsupported('exception field %s' % fn)
                    else:
                        ini = skip(inner(c)[0])
                        bt = norm_type(qt(ini))
                        if bt in ('exception', 'std::exception'):
                            continue
                        self.exn_init(self.ctor_key(ini, bt), self.argvals([a for a in inner(ini) if a]), r)
        finally:
            self.tu = save

    def x_CXXNewExpr(self, n):
        ini = skip(inner(n)[0])
        t = norm_type(qt(ini))
        key = self.ctor_key(ini, t)
        l = self.let('(new_loc ())', 'l')
        self.blk.effects += 1
        o = LV('obj', 'loc', loc=l, isthis=True)
        self.call(key, E(None, 'loc', o), [a for a in inner(ini) if a], n)
        return E(l, 'loc')

    def x_CXXDeleteExpr(self, n):
        e = self.ev(inner(n)[0])
        if e.code is None and e.lv is not None and e.lv.kind == 'self':
            c, ty = e.lv.loc, 'loc'
        else:
            c = e.code if e.code is not None else self.read(e.lv)
            ty = e.ty if e.code is not None else e.lv.ty
        if ty == 'vloc':
            self.do('delete_valid %s' % self.paren(c))
            return E('()', 'void')
        if ty != 'loc':
            self.unsupported(n, ty)
        l = self.let('(chk %s)' % self.paren(c), 'l')
        self.check_dtors()
        self.call('Argument::~Argument()', E(None, 'loc', LV('obj', 'loc', loc=l, isthis=True)), [], n)
        self.do('alive := mset_b !alive %s false' % l)
        return E('()', 'void')

    def check_dtors(self):
        for k, (tu, f) in self.w.funcs.items():
            m = re.match(r'^Argument\w*Type<.*>::~', k)
            if m and [x for x in inner(body(f)) if x]:
                raise Unsupported('derived destructor with a body: %s' % k)
        k = 'ArgumentElement::~ArgumentElement()'
        if k in self.w.funcs and [x for x in inner(body(self.w.funcs[k][1])) if x]:
            raise Unsupported('destructor of ArgumentElement has a body')

    def x_CXXThrowExpr(self, n):
        if not [x for x in inner(n) if x]:
            if not getattr(self, 'catching', None):
                self.unsupported(n)
            self.do('raise (Cxx %s)' % self.catching[-1])
            return E('()', 'void')
        e = self.rv(inner(n)[0])
        if e.ty != 'exn':
            self.unsupported(n, e.ty)
        self.do('raise (Cxx %s)' % e.code)
        return E('()', 'void')

    # ---------------------------------------------- calls of repo functions
    def note_inlined(self, key):
        self.w.inlined.setdefault(self.key, set()).add(key)

    def default_arg(self, tu, p):
        c = [x for x in inner(p) if x and x.get('kind') not in ('FullComment',)]
        return c[-1] if c else None

    def call(self, key, base, args, n):
        tu, f = self.w.funcs[key]
        ps = params(f)
        es = self.argvals(args)
        vals = []
        for i, p in enumerate(ps):
            e = es[i] if i < len(es) else E(None, 'default')
            if e.ty == 'default':
                # the declaration carrying the default argument
                d = self.find_default(key, i, tu)
                if d is None:
                    self.unsupported(n, 'default argument')
                e = self.rv(d)
            vals.append(e)
        this = None
        if base is not None:
            if base.code is not None:
                v = self.atom(base.code)
                this = LV('obj', 'loc', loc=v) if base.ty == 'loc' else LV('val', base.ty, name=v)
                if base.ty == 'exn':
                    this = LV('exn', 'exn', code=v)
            else:
                this = base.lv
                if this.kind in ('fld', 'var', 'glob', 'node', 'mapsecond') and this.ty == 'loc':
                    this = LV('obj', 'loc', loc=self.atom(self.read(this)))
                if this.kind == 'val' and this.ty == 'loc':
                    this = LV('obj', 'loc', loc=this.name)
        ct = self.w.contracts.get(key)
        if ct is None or ct.inline:
            return self.inline(key, this, vals)
        self.inl_dep(key)
        ps_code = []
        cls = key.split('::')[0] if '::' in key else None
        static = f.get('storageClass') == 'static' or self.is_static(key)
        if this is not None and not static:
            if cls == 'ArgumentElement' and (this.kind in ('obj', 'ael') or this.kind == 'self' and
                                             self.inherits_argument(this.cls)):
                # an element method under contract, called on an Argument: pass its value part
                if ct.mutating:
                    self.unsupported(n, 'mutating element method on an argument')
                if this.kind == 'obj':
                    self.live(this)
                ps_code.append(self.read(LV('ael', 'elem', loc=this.loc)))
            elif this.kind == 'obj':
                ps_code.append(this.loc)
            elif this.kind == 'self' and self.inherits_argument(this.cls):
                ps_code.append(this.loc)
            elif this.kind in ('args', 'self'):
                pass
            elif this.kind == 'ael':
                ps_code.append(this.loc)
            else:
                ps_code.append(self.paren(self.read(this)))
        for p, e in zip(ps, vals):
            ps_code.append(self.pass_arg(p, e, n))
        ps_code = [c for c in ps_code if c is not None]
        t = self.rettype(f)
        code = '(%s %s)' % (ct.name, ' '.join(ps_code) if ps_code else '()')
        self.hints(ct.name)
        if t == 'void':
            self.do(code)
            return E('()', 'void')
        v = self.let(self.rd(code, t))
        if not ct.pure:
            self.blk.effects += 1
        if t == 'loc':
            return E(None, 'loc', LV('obj', 'loc', loc=v)) if self.retref(f) else E(v, 'loc')
        if t == 'args':
            return E(None, 'args', LV('args', 'args'))
        return E(v, t)

    def hints(self, name):
        """The facts the contract under verification states before a call of
        name: proof steps only, left out where their locals are not in scope."""
        for nm, h in (self.ct.hints if self.ct else ()):
            if nm == name:
                errs = list(self.attach_errors)
                for kind, txt in h.clauses:
                    t = self.subst(txt, h, self.lbls[-1] if self.lbls else 'L0')
                    if self.attach_errors != errs:
                        self.attach_errors[:] = errs
                        continue
                    if '$pre' in txt and not self.lbls:
                        continue
                    self.blk.items.append(('do', 'assert { %s }' % t))

    def is_static(self, key):
        for tu in self.w.tus:
            for i, k in tu.decls.items():
                d = tu.byid.get(i, {})
                if k == key and (d.get('storageClass') == 'static' or d.get('kind') == 'FunctionDecl'):
                    return True
        return False

    def find_default(self, key, i, tu):
        for t in self.w.tus:
            for did, k in t.decls.items():
                if k == key:
                    d = t.byid.get(did)
                    if d is None:
                        continue
                    ps = params(d)
                    if i < len(ps):
                        c = [x for x in inner(ps[i]) if x and 'Comment' not in x.get('kind', '')]
                        if c:
                            return c[-1]
        return None

    def pass_arg(self, p, e, n):
        pt = norm_type(qt(p))
        ty = mty(pt)
        if ty == 'args':
            return None
        if e.lv is not None and e.lv.kind == 'args':
            return None
        if ty.startswith('p:') or self.nonconst_ref(p):
            lv = e.lv
            if lv is None or lv.kind not in ('var', 'ptr', 'glob'):
                raise Unsupported('%s: reference argument that is not a variable' % self.key)
            return lv.name
        if ty == 'str' and e.ty != 'str':
            return self.paren(self.as_str(e))
        if e.code is None and e.lv is not None:
            if e.lv.kind in ('obj', 'self', 'ael') and ty == 'loc':
                return e.lv.loc
            return self.paren(self.read(e.lv))
        if e.ty == 'null' and ty == 'cptr':
            return '(cp_null ())'
        return self.paren(e.code)

    def nonconst_ref(self, p):
        q = p['type'].get('qualType', '')
        if not q.rstrip().endswith('&') and '(&' not in q:
            return False
        ty = mty(norm_type(qt(p)))
        if ty in ('loc', 'args', 'map', 'exn') or ty.startswith('?'):
            return False
        if ty == 'cptr' and re.search(r'\*\s*&$', q):
            return True
        return not re.match(r'^\s*const\b', q) and not re.search(r'\bconst\s*&$', q)

    def rettype(self, f):
        t = qt(f)
        if f.get('kind') in ('CXXConstructorDecl', 'CXXDestructorDecl'):
            return 'void'
        # the return type is the text before the first parenthesis at depth 0
        depth = 0
        for i, c in enumerate(t):
            if c in '<[':
                depth += 1
            elif c in '>]':
                depth -= 1
            elif c == '(' and depth == 0:
                return mty(t[:i])
        return mty(t)

    def retref(self, f):
        return qt(f).split('(')[0].endswith('&')

    def inline(self, key, this, vals):
        tu, f = self.w.funcs[key]
        if key in self.inl:
            raise Unsupported('recursive call of %s without contract' % key)
        self.note_inlined(key)
        self.inl.append(key)
        save = (self.tu, self.this, self.brk, self.scope)
        cls = key.split('::')[0] if '::' in key else None
        # bind the arguments in the caller's block
        binds = []
        for p, e in zip(params(f), vals):
            binds.append((p, self.bind(p, e)))
        rt = self.rettype(f)
        ref = self.retref(f) if rt not in ('void',) else False
        self.tu, self.this, self.brk = tu, this, []
        self.scope = list(save[3])
        try:
            for p, lv in binds:
                self.env[(tu.path + tu.label, p['id'])] = lv
                self.scope.append((p.get('name'), lv))
            self.ctor_inits(f)
            simple = self.simple_return(f)
            if simple is not None:
                e = self.ev(simple)
                if ref or e.code is None:
                    return e
                return E(self.let(self.conv_ret(e, rt), 'r'), rt)
            ex = 'R%d' % self.bump()
            self.retstack.append((ex, rt, ref))
            b, _ = self.sub(lambda: self.stmt(body(f)))
            self.retstack.pop()
            b2 = self.wrap_ret(b, ex, rt)
            self.blk.effects += 1 + b.effects
            if rt == 'void' or rt == 'args':
                self.blk.items.append(('do', b2))
                return E('()', 'void') if rt == 'void' else E(None, 'args', LV('args', 'args'))
            v = self.let(b2, 'r')
            if rt == 'loc':
                return E(None, 'loc', LV('obj', 'loc', loc=v)) if ref else E(v, 'loc')
            return E(v, rt)
        finally:
            self.tu, self.this, self.brk, self.scope = save
            self.inl.pop()

    def conv_ret(self, e, rt):
        return e.code

    def bump(self):
        self.n += 1
        return self.n

    def wrap_ret(self, b, ex, rt):
        if rt in ('void', 'args'):
            return '(exception %s in try\n%s\nwith %s -> () end)' % (ex, b.render('()', '  '), ex)
        return '(exception %s %s in try\n%s\nwith %s r -> r end)' % (ex, wty(rt), b.render('absurd', '  '), ex)

    def simple_return(self, f):
        """Body consisting of a single return statement."""
        ss = [x for x in inner(body(f)) if x]
        if len(ss) == 1 and ss[0]['kind'] == 'ReturnStmt' and inner(ss[0]):
            return inner(ss[0])[0]
        return None

    def bind(self, p, e):
        ty = mty(norm_type(qt(p)))
        if e.ty.startswith('p:') or (e.lv is not None and e.lv.kind == 'ptr'):
            lv = e.lv
            if lv.kind == 'ptr':
                return lv
            if lv.kind == 'var':
                return LV('ptr', lv.ty, name=lv.name)
            if lv.kind == 'glob':
                return LV('ptr', lv.ty, name=lv.name)
            raise Unsupported('%s: pointer to %s' % (self.key, lv.kind))
        if e.lv is not None and e.lv.kind in ('args', 'self', 'exn'):
            return e.lv
        isref = norm_type(qt(p)).endswith('&') or '&)' in norm_type(qt(p))
        if isref and e.code is None:
            if self.nonconst_ref(p) or e.lv.kind in ('obj', 'ael'):
                return e.lv
        if ty == 'loc' and e.code is None and e.lv.kind == 'obj':
            v = LV('obj', 'loc', loc=e.lv.loc) if isref else None
            if v:
                return v
            c = e.lv.loc
        elif e.code is None:
            c = self.read(e.lv)
        else:
            c = e.code
            if e.ty == 'null' and ty == 'cptr':
                c = '(cp_null ())'
        if ty == 'str':
            c = self.as_str(e)
        if isref and ty == 'loc':
            return LV('obj', 'loc', loc=self.atom(c))
        if not self.assigned(p['id']):
            lv = LV('val', ty if not ty.startswith('?') else e.ty, name=self.atom(c, p.get('name') or 'p'))
            if e.raw and ty == 'cptr':
                lv.raw = e.raw
            return lv
        v = self.fresh(p.get('name') or 'p')
        self.blk.items.append(('let', v, 'ref %s' % self.paren(c)))
        return LV('var', ty, name=v)

    def ctor_inits(self, f):
        if f.get('kind') != 'CXXConstructorDecl':
            return
        for c in inner(f):
            if not c or c.get('kind') != 'CXXCtorInitializer':
                continue
            ini = inner(c)[0]
            if 'anyInit' in c:
                fld = c['anyInit']['name']
                lv = self.this_field(fld)
                if lv is None:
                    continue
                if ini['kind'] == 'CXXDefaultInitExpr':
                    raise Unsupported('default member initializer')
                e = self.ev(ini)
                if lv.kind == 'map':
                    self.do('map_clear ()')
                    continue
                if lv.kind == 'skip':
                    continue
                if lv.ty == 'str':
                    v = self.as_str(e)
                elif e.code is None and e.lv is not None:
                    v = self.read(e.lv)
                else:
                    v = e.code
                if e.ty == 'null' and lv.ty == 'cptr':
                    v = '(cp_null ())'
                self.write(lv, v)
            elif 'baseInit' in c:
                ini = skip(ini)
                bt = norm_type(qt(ini))
                self.base_init(bt, ini)

    def base_init(self, bt, ini):
        args = [a for a in inner(ini) if a]
        lv = self.this
        if bt == 'vector<ArgumentElement>':
            e = self.rv(ini)
            self.write(self.efield(lv, 'kids'), e.code)
            return
        if bt == 'vector<string>':
            e = self.rv(ini)
            self.write(lv, e.code)
            return
        if bt == 'IValid':
            return
        if bt == 'Usage':
            self.call(self.ctor_key(ini, bt), E(None, 'args', LV('args', 'args')), [], ini) if False else \
                self.inline(self.ctor_key(ini, bt), LV('args', 'args'), [E(None, 'args', LV('args', 'args'))])
            return
        if bt == 'ArgumentElement':
            l2 = LV('ael', 'elem', loc=lv.loc) if lv.kind in ('obj', 'self') else lv
            key = self.ctor_key(ini, bt)
            self.inline(key, l2, self.argvals(args))
            return
        if bt == 'Argument':
            key = self.ctor_key(ini, bt)
            self.call(key, E(None, 'loc', LV('obj', 'loc', loc=lv.loc, isthis=True)), args, ini)
            return
        raise Unsupported('base initialiser %s' % bt)

    def this_field(self, name):
        f = name.rstrip('_')
        lv = self.this
        if lv.kind == 'args':
            if f == 'args':
                return LV('skip', 'args')
            if f == 'argumentFromName':
                return LV('map', 'map')
            return LV('glob', self.w.globals['g_' + f], name='g_' + f)
        if lv.kind == 'self':
            if mty(dict(self.w.fields[lv.cls])[name]) in ('args',):
                return LV('skip', 'args')
            return self.self_field(lv, name, {}).lv
        if f == 'args':
            return LV('skip', 'args')
        if lv.kind in ('obj',):
            return LV('fld', self.w.maps['h_' + f], map='h_' + f, loc=lv.loc)
        if lv.ty == 'elem':
            return self.efield(lv, f)
        raise Unsupported('constructor field %s' % name)

    # ------------------------------------------------------------ statements
    def assigned(self, did):
        """Is the declaration assigned anywhere in the current function body?"""
        cache = self.__dict__.setdefault('_assigned', {})
        key = self.tu.path + self.tu.label
        if key not in cache:
            cache[key] = self._assigned_ids(self.tu)
        return did in cache[key]

    def _assigned_ids(self, tu):
        if hasattr(tu, 'assigned_ids'):
            return tu.assigned_ids
        res = set()

        def target(n):
            while n and n.get('kind') in ('ParenExpr', 'ImplicitCastExpr', 'MaterializeTemporaryExpr'):
                n = inner(n)[0]
            if n and n.get('kind') == 'DeclRefExpr':
                res.add(n['referencedDecl']['id'])

        def walk(n):
            if not n:
                return
            k = n.get('kind')
            if k in ('BinaryOperator', 'CompoundAssignOperator') and (n.get('opcode') == '=' or k == 'CompoundAssignOperator'):
                target(inner(n)[0])
            elif k == 'UnaryOperator' and n.get('opcode') in ('++', '--', '&'):
                target(inner(n)[0])
            elif k == 'CXXOperatorCallExpr':
                f = inner(n)[0]
                while f.get('kind') == 'ImplicitCastExpr':
                    f = inner(f)[0]
                op = f.get('referencedDecl', {}).get('name', '')
                if op in ('operator=', 'operator+=', 'operator<<', 'operator>>', 'operator++', 'operator--', 'operator-='):
                    for x in inner(n)[1:]:
                        target(x)
            elif k == 'CXXMemberCallExpr':
                m = inner(n)[0]
                if m.get('kind') == 'MemberExpr':
                    target(inner(m)[0])
            elif k == 'CallExpr' or k == 'CXXConstructExpr' or k == 'CXXTemporaryObjectExpr':
                for x in inner(n):
                    if x and x.get('kind') == 'DeclRefExpr' and x.get('valueCategory') == 'lvalue':
                        target(x)
            for c in n.get('inner', []):
                walk(c)
        for r in tu.roots:
            walk(r)
        tu.assigned_ids = res
        return res

    def stmt(self, n):
        if n is None or not n:
            return
        k = n['kind']
        ln = n.get('_line')
        if k == 'CompoundStmt':
            mark = len(self.scope)
            for c in inner(n):
                self.stmt(c)
            del self.scope[mark:]
            return
        if k in ('NullStmt', 'FullComment'):
            return
        if ln and ln[1] and k not in ('DeclStmt',):
            self.blk.items.append(('raw', '(*@ %s:%s *)' % (ln[0], ln[1])))
        m = getattr(self, 's_' + k, None)
        if m is not None:
            m(n)
            return
        # expression statement
        pos = len(self.blk.items)
        e = self.ev(n)
        if e.code is not None and e.code != '()' and e.ty != 'void':
            self.do('let _ = %s in ()' % e.code if not atomic(e.code) else '()')
        elif e.code is not None and e.code not in ('()',) and e.ty == 'void':
            self.do(e.code)

    def s_DeclStmt(self, n):
        for d in inner(n):
            if d['kind'] == 'VarDecl':
                self.vardecl(d)
            elif d['kind'] in ('TypedefDecl', 'UsingDecl', 'TypeAliasDecl', 'StaticAssertDecl', 'EmptyDecl', 'UsingDirectiveDecl'):
                continue
            else:
                self.unsupported(d, 'declaration')

    def vardecl(self, d):
        t = norm_type(qt(d))
        ty = mty(t)
        if d.get('storageClass') == 'static' and 'const' not in d['type']['qualType']:
            self.unsupported(d, 'static local')
        ini = [c for c in inner(d) if c and 'Comment' not in c.get('kind', '') and c.get('kind') != 'UnusedAttr']
        name = d.get('name', 'v')
        did = d['id']
        key = (self.tu.path + self.tu.label, did)
        if t.endswith('&') and not t.endswith('&&'):
            e = self.ev(ini[0])
            lv = e.lv if e.code is None else LV('val', e.ty, name=self.atom(e.code, name))
            if lv.kind == 'node' and lv.ty == 'loc':
                # Argument*& : keep the slot; Argument&: cannot be
                pass
            self.env[key] = lv
            self.scope.append((name, lv))
            return
        if ty.startswith('p:') and ini:
            e = self.ev(ini[0])
            self.env[key] = e.lv if e.lv.kind == 'ptr' else LV('ptr', e.lv.ty, name=e.lv.name)
            self.scope.append((name, self.env[key]))
            return
        if ty.startswith('?'):
            self.unsupported(d, 'type ' + t)
        if not ini:
            if ty in IRANGE or ty in ('bool', 'dbl', 'cptr', 'loc', 'node', 'vloc', 'stat', 'chars'):
                init = '(any_%s ())' % {'bool': 'bool', 'dbl': 'dbl', 'cptr': 'cptr', 'chars': 'str'}.get(ty, 'int')
                e = E(init, ty)
            else:
                self.unsupported(d, 'no initialiser')
        else:
            e = self.ev(ini[0])
            if e.code is None:
                if e.lv is None:
                    self.unsupported(d, 'initialiser %s' % e.ty)
                if e.lv.kind == 'obj' and ty == 'loc':
                    e = E(e.lv.loc, 'loc')
                else:
                    e = E(self.read(e.lv), e.lv.ty)
            if e.ty == 'null' and ty == 'cptr':
                e = E('(cp_null ())', 'cptr')
            if ty == 'str' and e.ty != 'str':
                e = E(self.as_str(e), 'str')
        scalar = ty in IRANGE or ty in ('bool', 'cptr', 'loc', 'node', 'vloc', 'mit', 'str', 'dbl') or ty.endswith('_it')
        if scalar and not self.assigned(did) and ini:
            v = self.fresh(name)
            self.blk.items.append(('let', v, e.code))
            lv = LV('val', ty, name=v)
        else:
            v = self.fresh(name)
            self.blk.items.append(('let', v, 'ref %s' % self.paren(e.code)))
            lv = LV('var', ty, name=v)
        self.env[key] = lv
        self.scope.append((name, lv))

    def s_ReturnStmt(self, n):
        ex, rt, ref = self.retstack[-1]
        c = [x for x in inner(n) if x]
        if not c or rt in ('void', 'args'):
            if c:
                self.ev(c[0])
            self.do('raise %s' % ex)
            return
        e = self.ev(c[0])
        if e.code is None:
            if e.lv is None:
                self.unsupported(n, 'return of %s' % e.ty)
            if e.lv.kind in ('obj', 'self') and rt == 'loc':
                code = e.lv.loc
            else:
                code = self.read(e.lv)
        else:
            code = e.code
        if rt == 'str' and e.ty != 'str' and e.code is not None:
            code = self.as_str(e)
        if rt == 'cptr' and e.ty == 'null':
            code = '(cp_null ())'
        self.do('raise (%s %s)' % (ex, self.paren(code)))

    def s_IfStmt(self, n):
        if n.get('hasInit') or n.get('hasVar'):
            self.unsupported(n, 'if with declaration')
        c = [x for x in inner(n)]
        cc = self.code(c[0])
        mark = len(self.scope)
        b1, _ = self.sub(lambda: self.stmt(c[1]))
        del self.scope[mark:]
        if len(c) > 2 and c[2]:
            b2, _ = self.sub(lambda: self.stmt(c[2]))
            del self.scope[mark:]
        else:
            b2 = None
        self.emit_if(cc, b1, b2)

    def emit_if(self, cc, b1, b2):
        t = b1.render('()', '  ')
        s = 'if %s then begin\n%s\nend' % (cc, t)
        if b2 is not None:
            s += ' else begin\n%s\nend' % b2.render('()', '  ')
        self.blk.items.append(('do', '(%s)' % s))
        self.blk.effects += 1

    # loops -----------------------------------------------------------------
    def loop(self, n, cond, bodyf, incf):
        spec, lbl = self.loop_spec(n)
        self.lbls.append(lbl)
        self.brk.append(['loop', None, None, self.bump()])
        frame = self.brk[-1]

        def whole():
            b, cc = self.sub(lambda: self.code(cond) if cond else 'true')
            inv = self.render_spec(spec, lbl)
            mark = len(self.scope)
            bb, _ = self.sub(bodyf)
            if frame[2]:
                inner_code = '(exception %s in try\n%s\nwith %s -> () end)' % (frame[2], bb.render('()', '  '), frame[2])
                bb = Block()
                bb.items.append(('do', inner_code))
            ib, _ = self.sub(incf) if incf else (Block(), None)
            bb.items += ib.items
            del self.scope[mark:]
            s = 'while %s do\n%s\n%s\ndone' % (self.inline_block(b, cc), inv, bb.render('()', '  '))
            return s
        s = whole()
        if frame[1]:
            s = '(exception %s in try\n%s\nwith %s -> () end)' % (frame[1], s, frame[1])
        self.brk.pop()
        self.lbls.pop()
        self.blk.items.append(('do', s))
        self.blk.effects += 1

    def s_WhileStmt(self, n):
        c = inner(n)
        self.loop(n, c[0], lambda: self.stmt(c[1]), None)

    def s_ForStmt(self, n):
        init, var, cond, inc, bd = (list(inner(n)) + [None] * 5)[:5]
        mark = len(self.scope)
        if var:
            self.unsupported(n, 'condition variable')
        if init:
            self.stmt(init)
        self.loop(n, cond if cond else None, lambda: self.stmt(bd), (lambda: self.stmt(inc)) if inc else None)
        del self.scope[mark:]

    def s_DoStmt(self, n):
        c = inner(n)

        def bodyf():
            self.stmt(c[0])
            cc = self.code(c[1])
            if not self.brk[-1][1]:
                self.brk[-1][1] = 'B%d' % self.brk[-1][3]
            self.do('(if not %s then raise %s)' % (self.paren(cc), self.brk[-1][1]))
        self.loop(n, None, bodyf, None)

    def s_BreakStmt(self, n):
        f = self.brk[-1]
        if not f[1]:
            f[1] = 'B%d' % f[3]
        self.do('raise %s' % f[1])

    def s_ContinueStmt(self, n):
        for f in reversed(self.brk):
            if f[0] == 'loop':
                if not f[2]:
                    f[2] = 'C%d' % f[3]
                self.do('raise %s' % f[2])
                return
        self.unsupported(n)

    def loop_spec(self, n):
        i = self.loopno
        self.loopno += 1
        lbl = 'L%d' % self.bump()
        self.blk.items.append(('raw', 'label %s in' % lbl))
        if self.ct is None or i >= len(self.ct.loops):
            self.attach_errors.append('loop %d of %s has no annotation' % (i + 1, self.key))
            return None, lbl
        return self.ct.loops[i], lbl

    def render_spec(self, spec, lbl):
        if spec is None:
            return ''
        out = []
        for kind, txt in spec.clauses:
            out.append('  %s { %s }' % (kind, self.subst(txt, spec, lbl)))
        return '\n'.join(out)

    def subst(self, txt, spec, lbl):
        def rep(m):
            nm = m.group(1)
            if nm == 'pre':
                return lbl
            lv = None
            for cn, l in reversed(self.scope):
                if cn == nm:
                    lv = l
                    break
            if lv is None and nm in spec.locals:
                claimed = set(x for x in spec.locals)
                cands = [(cn, l) for cn, l in self.scope if l.ty == spec.locals[nm] and cn not in claimed and l.kind in ('var', 'val', 'ptr')]
                if cands:
                    lv = cands[-1][1]
            if lv is None:
                self.attach_errors.append('no local for $%s in a loop of %s' % (nm, self.key))
                return 'missing_' + nm
            return self.logic_read(lv)
        return re.sub(r'\$([A-Za-z_]\w*)', rep, txt)

    def logic_read(self, lv):
        if lv.kind in ('var', 'ptr', 'glob'):
            return '!' + lv.name
        if lv.kind == 'val':
            return lv.name
        if lv.kind == 'obj':
            return lv.loc
        if lv.kind == 'node':
            return '(Map.get !slot %s)' % lv.n
        if lv.kind == 'fld':
            return '(Map.get !%s %s)' % (lv.map, lv.loc)
        raise Unsupported('invariant over %s' % lv.kind)

    # switch ------------------------------------------------------------------
    def s_SwitchStmt(self, n):
        c = [x for x in inner(n) if x]
        s = self.atom(self.code(c[0]))
        groups = []      # (labels, is_default, stmts)

        def add(st):
            labels, default = [], False
            while st.get('kind') in ('CaseStmt', 'DefaultStmt'):
                if st['kind'] == 'CaseStmt':
                    sub = [x for x in inner(st) if x]
                    labels.append(self.code(sub[0]))
                    st = sub[1] if len(sub) > 1 else {'kind': 'NullStmt'}
                else:
                    default = True
                    sub = [x for x in inner(st) if x]
                    st = sub[0] if sub else {'kind': 'NullStmt'}
            if labels or default:
                groups.append((labels, default, [st]))
            else:
                if not groups:
                    raise Unsupported('statement before the first case')
                groups[-1][2].append(st)
        bd = c[1]
        for st in inner(bd):
            if st:
                add(st)
        frame = ['switch', None, None, self.bump()]
        self.brk.append(frame)
        arms = []
        deflt = None
        for i, (labels, default, stmts) in enumerate(groups):
            seq = []
            done = False
            for g in groups[i:]:
                st2, done = self.strip_break(g[2])
                seq += st2
                if done:
                    break
            mark = len(self.scope)
            ln = self.loopno
            b, _ = self.sub(lambda: [self.stmt(x) for x in seq])
            del self.scope[mark:]
            if default:
                deflt = b
                if labels:
                    pass
            else:
                arms.append((' || '.join('%s = %s' % (s, l) for l in labels), b))
        self.brk.pop()
        code = None
        tail = deflt.render('()', '  ') if deflt is not None else '  ()'
        for cond, b in reversed(arms):
            tail = 'if %s then begin\n%s\nend else begin\n%s\nend' % (cond, b.render('()', '  '), tail)
        code = '(%s)' % tail
        if frame[1]:
            code = '(exception %s in try\n%s\nwith %s -> () end)' % (frame[1], code, frame[1])
        self.blk.items.append(('do', code))
        self.blk.effects += 1

    def strip_break(self, stmts):
        """Statements up to a break at the end of a switch arm."""
        out = []
        for st in stmts:
            if st['kind'] == 'BreakStmt':
                return out, True
            if st['kind'] == 'CompoundStmt':
                sub, done = self.strip_break([x for x in inner(st) if x])
                st2 = dict(st)
                st2['inner'] = sub
                out.append(st2)
                if done:
                    return out, True
                continue
            out.append(st)
            x = skip(st)
            if st['kind'] == 'ReturnStmt' or x.get('kind') == 'CXXThrowExpr':
                return out, True
        return out, False

    def s_CXXTryStmt(self, n):
        c = [x for x in inner(n) if x]
        b, _ = self.sub(lambda: self.stmt(c[0]))
        ev = self.fresh('exc')
        arms = []
        for h in c[1:]:
            hs = [x for x in inner(h)]
            vd = hs[0] if len(hs) > 1 and hs[0] and hs[0].get('kind') == 'VarDecl' else None
            mark = len(self.scope)
            if vd is not None:
                cls = norm_type(qt(vd)).rstrip('&')
                lv = LV('exn', 'exn', code=ev)
                self.env[(self.tu.path + self.tu.label, vd['id'])] = lv
                cond = 'isb_%s %s.ek' % (cls, ev) if cls in self.w.kinds else None
                if cond is None:
                    if cls in ('exception',):
                        cond = 'true'
                    else:
                        self.unsupported(n, 'catch ' + cls)
            else:
                cond = 'true'
            self.__dict__.setdefault('catching', []).append(ev)
            hb, _ = self.sub(lambda: self.stmt(hs[-1]))
            self.catching.pop()
            del self.scope[mark:]
            arms.append((cond, hb))
        tail = '  raise (Cxx %s)' % ev
        for cond, hb in reversed(arms):
            tail = 'if %s then begin\n%s\nend else begin\n%s\nend' % (cond, hb.render('()', '  '), tail)
        self.blk.items.append(('do', '(try\n%s\nwith Cxx %s -> %s end)' % (b.render('()', '  '), ev, tail)))
        self.blk.effects += 1

    def s_CXXForRangeStmt(self, n):
        self.unsupported(n, 'range for')

    # ------------------------------------------------------------- function
    def translate(self):
        f, ct = self.node, self.ct
        cls = self.key.split('::')[0] if '::' in self.key else None
        static = self.is_static(self.key)
        ptxt = []
        pre = Block()
        self.blk = pre
        names = list(ct.params)
        if cls is not None and not static:
            if cls in ('Args', 'Usage'):
                self.this = LV('args', 'args')
            elif cls == 'Argument':
                self.this = LV('obj', 'loc', loc='this', isthis=True)
                ptxt.append('(this: int)')
            elif self.inherits_argument(cls):
                self.this = LV('self', 'self', cls=cls, loc='this')
                ptxt.append('(this: int)')
            elif cls == 'ArgumentElement':
                if f['kind'] == 'CXXConstructorDecl':
                    self.this = LV('var', 'elem', name='self_r')
                    pre.items.append(('let', 'self_r', 'ref (any_elem ())'))
                else:
                    self.this = LV('val', 'elem', name='this')
                    ptxt.append('(this: elem)')
            elif cls == 'Vector':
                if f['kind'] == 'CXXConstructorDecl':
                    self.this = LV('var', 'strs', name='self_r')
                    pre.items.append(('let', 'self_r', 'ref strs_empty'))
                elif ct.mutating:
                    self.this = LV('var', 'strs', name='this')
                    ptxt.append('(this: ref strs)')
                else:
                    self.this = LV('val', 'strs', name='this')
                    ptxt.append('(this: strs)')
            else:
                self.this = LV('self', 'self', cls=cls, loc='0')
        ps = params(f)
        if len(names) != len([p for p in ps if mty(norm_type(qt(p))) != 'args']):
            raise Unsupported('%s: contract names %d parameters' % (self.key, len(names)))
        it = iter(names)
        for p in ps:
            ty = mty(norm_type(qt(p)))
            key = (self.tu.path + self.tu.label, p['id'])
            if ty == 'args':
                self.env[key] = LV('args', 'args')
                continue
            nm = next(it)
            if ty.startswith('?'):
                raise Unsupported('%s: parameter type %s' % (self.key, ty))
            if ty.startswith('p:') or self.nonconst_ref(p):
                t = ty[2:] if ty.startswith('p:') else ty
                ptxt.append('(%s: ref %s)' % (nm, wty(t)))
                lv = LV('ptr' if ty.startswith('p:') else 'var', t, name=nm)
            else:
                ptxt.append('(%s: %s)' % (nm, wty(ty)))
                if ty == 'loc' and norm_type(qt(p)).endswith('&'):
                    lv = LV('obj', 'loc', loc=nm)
                elif self.assigned(p['id']):
                    v = self.fresh(nm)
                    pre.items.append(('let', v, 'ref %s' % self.rd(nm, ty)))
                    lv = LV('var', ty, name=v)
                elif ty in IRANGE:
                    v = self.fresh(nm)
                    pre.items.append(('let', v, self.rd(nm, ty)))
                    lv = LV('val', ty, name=v)
                else:
                    lv = LV('val', ty, name=nm)
            self.env[key] = lv
            self.scope.append((p.get('name'), lv))
            self.scope.append((nm, lv))
        rt = self.rettype(f)
        ctor_val = f['kind'] == 'CXXConstructorDecl' and cls in ('ArgumentElement', 'Vector')
        self.ctor_inits(f)
        ex = 'R%d' % self.bump()
        self.retstack.append((ex, rt, self.retref(f) if rt != 'void' else False))
        b, _ = self.sub(lambda: self.stmt(body(f)))
        code = self.wrap_ret(b, ex, rt)
        if ctor_val:
            pre.items.append(('do', code))
            text = pre.render('!self_r', '  ')
            wt = wty('elem' if cls == 'ArgumentElement' else 'strs')
        else:
            text = pre.render(code, '  ')
            wt = 'unit' if rt in ('void', 'args') else wty(rt)
        if self.loopno != len(ct.loops):
            self.attach_errors.append('%s: %d loops, %d annotated' % (self.key, self.loopno, len(ct.loops)))
        spec = []
        if ptxt and ptxt[0] == '(this: int)' and f['kind'] != 'CXXConstructorDecl':
            spec.append('    requires { [@expl:this alive] Map.get !alive this }')
        for kind, txt in ct.clauses:
            spec.append('    %s { %s }' % (kind, txt))
        return '  let %s %s : %s\n%s\n  =\n%s\n' % (ct.name, ' '.join(ptxt) if ptxt else '()', wt, '\n'.join(spec), text)


def raw_stat(a, b):
    return a.raw == 'st_mode' and b.code == '61440'
