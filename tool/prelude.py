"""WhyML prelude: theories for the C++ library types used by the code under
contract. Everything introduced by `axiom` or by a bodiless `val` here is
trusted (see DESIGN.md); `trusted_scan` lists them mechanically."""

SEQS = [('str', 'int'), ('strs', 'str'), ('strss', 'strs'), ('ints', 'int'),
        ('intss', 'ints'), ('cptrs', 'cptr'), ('dbls', 'dbl'), ('dblss', 'dbls'), ('cptrss', 'cptrs'), ('bools', 'bool'),
        ('boolss', 'bools'), ('elems', 'elem'), ('mits', 'mit'), ('exns', 'exn')]

SEQ = '''
  (* ---- finite sequences of @T@ : @S@ ---- *)
  type @S@
  val function @S@_len (s: @S@) : int
  val function @S@_get (s: @S@) (i: int) : @T@
  val constant @S@_empty : @S@
  val function @S@_snoc (s: @S@) (x: @T@) : @S@
  val function @S@_set (s: @S@) (i: int) (x: @T@) : @S@
  val function @S@_sub (s: @S@) (i j: int) : @S@
  val function @S@_cat (s t: @S@) : @S@
  val function @S@_del (s: @S@) (i: int) : @S@
  function @S@_idx (s: @S@) (x: @T@) : int
  predicate @S@_mem (s: @S@) (x: @T@)
  predicate @S@_eq (s t: @S@)
  axiom @S@_len_pos: forall s: @S@ [@S@_len s]. 0 <= @S@_len s
  axiom @S@_empty_len: @S@_len @S@_empty = 0
  axiom @S@_snoc_len: forall s: @S@, x: @T@ [@S@_snoc s x]. @S@_len (@S@_snoc s x) = @S@_len s + 1
  axiom @S@_snoc_get: forall s: @S@, x: @T@, k: int [@S@_get (@S@_snoc s x) k].
    @S@_get (@S@_snoc s x) k = if k = @S@_len s then x else @S@_get s k
  axiom @S@_snoc_get2: forall s: @S@, x: @T@, k: int [@S@_snoc s x, @S@_get s k]. 0 <= k < @S@_len s ->
    @S@_get (@S@_snoc s x) k = @S@_get s k
  axiom @S@_set_len: forall s: @S@, i: int, x: @T@ [@S@_set s i x]. @S@_len (@S@_set s i x) = @S@_len s
  axiom @S@_set_get: forall s: @S@, i k: int, x: @T@ [@S@_get (@S@_set s i x) k]. 0 <= k < @S@_len s ->
    @S@_get (@S@_set s i x) k = if k = i then x else @S@_get s k
  axiom @S@_sub_len: forall s: @S@, i j: int [@S@_sub s i j]. 0 <= i <= j <= @S@_len s ->
    @S@_len (@S@_sub s i j) = j - i
  axiom @S@_sub_get: forall s: @S@, i j k: int [@S@_get (@S@_sub s i j) k].
    0 <= i <= j <= @S@_len s -> 0 <= k < j - i -> @S@_get (@S@_sub s i j) k = @S@_get s (i + k)
  axiom @S@_sub_get2: forall s: @S@, i j k: int [@S@_sub s i j, @S@_get s k].
    0 <= i <= k < j <= @S@_len s -> @S@_get (@S@_sub s i j) (k - i) = @S@_get s k
  axiom @S@_cat_len: forall s t: @S@ [@S@_cat s t]. @S@_len (@S@_cat s t) = @S@_len s + @S@_len t
  axiom @S@_cat_get: forall s t: @S@, k: int [@S@_get (@S@_cat s t) k]. 0 <= k < @S@_len s + @S@_len t ->
    @S@_get (@S@_cat s t) k = if k < @S@_len s then @S@_get s k else @S@_get t (k - @S@_len s)
  axiom @S@_del_len: forall s: @S@, i: int [@S@_del s i]. 0 <= i < @S@_len s -> @S@_len (@S@_del s i) = @S@_len s - 1
  axiom @S@_del_get: forall s: @S@, i k: int [@S@_get (@S@_del s i) k]. 0 <= i < @S@_len s -> 0 <= k < @S@_len s - 1 ->
    @S@_get (@S@_del s i) k = if k < i then @S@_get s k else @S@_get s (k + 1)
  axiom @S@_mem_get: forall s: @S@, i: int [@S@_get s i]. 0 <= i < @S@_len s -> @S@_mem s (@S@_get s i)
  axiom @S@_mem_idx: forall s: @S@, x: @T@ [@S@_mem s x]. @S@_mem s x ->
    0 <= @S@_idx s x < @S@_len s /\\ @S@_get s (@S@_idx s x) = x
  axiom @S@_ext: forall s t: @S@ [@S@_eq s t].
    (@S@_len s = @S@_len t /\\ (forall i: int. 0 <= i < @S@_len s -> @S@_get s i = @S@_get t i)) -> @S@_eq s t
  axiom @S@_eqdef: forall s t: @S@ [@S@_eq s t]. @S@_eq s t <-> s = t
  lemma @S@_snoc_mem: forall s: @S@, x y: @T@ [@S@_mem (@S@_snoc s x) y].
    (@S@_mem (@S@_snoc s x) y <-> (@S@_mem s y \\/ y = x))
    by @S@_get (@S@_snoc s x) (@S@_len s) = x
    so (@S@_mem s y -> @S@_get (@S@_snoc s x) (@S@_idx s y) = y)
    so (@S@_mem (@S@_snoc s x) y -> y <> x -> @S@_get s (@S@_idx (@S@_snoc s x) y) = y)
  lemma @S@_len0: forall s: @S@ [@S@_len s]. @S@_len s = 0 -> s = @S@_empty by @S@_eq s @S@_empty
  lemma @S@_empty_mem: forall y: @T@ [@S@_mem @S@_empty y]. not (@S@_mem @S@_empty y)
  let @S@_nth (s: @S@) (i: int) : @T@
    requires { 0 <= i < @S@_len s }
    ensures { result = @S@_get s i }
  = @S@_get s i
  let @S@_upd (s: @S@) (i: int) (x: @T@) : @S@
    requires { 0 <= i < @S@_len s }
    ensures { result = @S@_set s i x }
  = @S@_set s i x
  let @S@_front (s: @S@) : @T@
    requires { 0 < @S@_len s }
    ensures { result = @S@_get s 0 }
  = @S@_get s 0
  let @S@_back (s: @S@) : @T@
    requires { 0 < @S@_len s }
    ensures { result = @S@_get s (@S@_len s - 1) }
  = @S@_get s (@S@_len s - 1)
  let @S@_pop (s: @S@) : @S@
    requires { 0 < @S@_len s }
    ensures { result = @S@_sub s 0 (@S@_len s - 1) }
  = @S@_sub s 0 (@S@_len s - 1)
  let @S@_isempty (s: @S@) : bool
    ensures { result <-> @S@_len s = 0 }
  = @S@_len s = 0
  type @S@_it = { @S@_iv: @S@; @S@_ip: int }
  let @S@_begin (s: @S@) : @S@_it
    ensures { result.@S@_iv = s /\\ result.@S@_ip = 0 }
  = { @S@_iv = s; @S@_ip = 0 }
  let @S@_end (s: @S@) : @S@_it
    ensures { result.@S@_iv = s /\\ result.@S@_ip = @S@_len s }
  = { @S@_iv = s; @S@_ip = @S@_len s }
  let @S@_deref (i: @S@_it) : @T@
    requires { 0 <= i.@S@_ip < @S@_len i.@S@_iv }
    ensures { result = @S@_get i.@S@_iv i.@S@_ip }
  = @S@_get i.@S@_iv i.@S@_ip
  let @S@_next (i: @S@_it) : @S@_it
    requires { 0 <= i.@S@_ip < @S@_len i.@S@_iv }
    ensures { result.@S@_iv = i.@S@_iv /\\ result.@S@_ip = i.@S@_ip + 1 }
  = { @S@_iv = i.@S@_iv; @S@_ip = i.@S@_ip + 1 }
  let @S@_it_eq (i j: @S@_it) : bool
    requires { i.@S@_iv = j.@S@_iv }
    ensures { result <-> i.@S@_ip = j.@S@_ip }
  = i.@S@_ip = j.@S@_ip
  let @S@_adv (i: @S@_it) (n: int) : @S@_it
    requires { 0 <= i.@S@_ip + n <= @S@_len i.@S@_iv }
    ensures { result.@S@_iv = i.@S@_iv /\\ result.@S@_ip = i.@S@_ip + n }
  = { @S@_iv = i.@S@_iv; @S@_ip = i.@S@_ip + n }
  let @S@_erase_it (s: @S@) (i: @S@_it) : @S@
    requires { i.@S@_iv = s }
    requires { 0 <= i.@S@_ip < @S@_len i.@S@_iv }
    ensures { result = @S@_del s i.@S@_ip }
  = @S@_del s i.@S@_ip
  val @S@_find (b e: @S@_it) (x: @T@) : @S@_it
    requires { b.@S@_iv = e.@S@_iv /\\ b.@S@_ip <= e.@S@_ip }
    ensures { result.@S@_iv = b.@S@_iv /\\ b.@S@_ip <= result.@S@_ip <= e.@S@_ip }
    ensures { result.@S@_ip < e.@S@_ip -> @S@_get b.@S@_iv result.@S@_ip = x }
    ensures { forall k: int. b.@S@_ip <= k < result.@S@_ip -> @S@_get b.@S@_iv k <> x }
'''

HEAD = '''module P
  use int.Int
  use bool.Bool
  use ref.Ref
  use map.Map

  (* ---- machine integers: every read of a typed object is in range ---- *)
  constant i32_max : int = 2147483647
  constant u32_mod : int = 4294967296
  constant u64_mod : int = 18446744073709551616
'''

INTS = {'i8': (-128, 127), 'u8': (0, 255), 'i16': (-32768, 32767), 'u16': (0, 65535),
        'i32': (-2**31, 2**31-1), 'u32': (0, 2**32-1), 'i64': (-2**63, 2**63-1), 'u64': (0, 2**64-1)}


def lit(n):
    return str(n) if n >= 0 else '(%d)' % n


def ints():
    out = []
    for t, (lo, hi) in INTS.items():
        L, H, M = lit(lo), lit(hi), lit(hi - lo + 1)
        out.append('''
  val rd_{t} (x: int) : int
    ensures {{ result = x }} ensures {{ {L} <= result <= {H} }}
  function wr_{t} (x: int) : int
  axiom wr_{t}_in: forall x: int [wr_{t} x]. {L} <= wr_{t} x <= {H}
  axiom wr_{t}_id: forall x: int [wr_{t} x]. {L} <= x <= {H} -> wr_{t} x = x
  axiom wr_{t}_lo: forall x: int [wr_{t} x]. {L} - {M} <= x < {L} -> wr_{t} x = x + {M}
  axiom wr_{t}_hi: forall x: int [wr_{t} x]. {H} < x <= {H} + {M} -> wr_{t} x = x - {M}
  val to_{t} (x: int) : int
    ensures {{ result = wr_{t} x }}
'''.format(t=t, L=L, H=H, M=M))
        if lo < 0:
            for op, sym in (('add', '+'), ('sub', '-'), ('mul', '*')):
                out.append('''  let {op}_{t} (a b: int) : int
    requires {{ [@expl:signed overflow] {L} <= a {s} b <= {H} }}
    ensures {{ result = a {s} b }}
  = a {s} b
'''.format(op=op, t=t, s=sym, L=L, H=H))
        else:
            for op, sym in (('add', '+'), ('sub', '-'), ('mul', '*')):
                out.append('''  val {op}_{t} (a b: int) : int
    ensures {{ result = wr_{t} (a {s} b) }}
'''.format(op=op, t=t, s=sym))
        out.append('''  val div_{t} (a b: int) : int
    requires {{ [@expl:division by zero] b <> 0 }}
    requires {{ 0 <= a /\\ 0 <= b }}
    ensures {{ 0 <= result /\\ result * b <= a < (result + 1) * b }}
    ensures {{ result <= a }}
  val mod_{t} (a b: int) : int
    requires {{ [@expl:division by zero] b <> 0 }}
    requires {{ 0 <= a /\\ 0 <= b }}
    ensures {{ 0 <= result < b /\\ result = umod a b }}
    ensures {{ result <= a }}
'''.format(t=t))
    return ('''
  function udiv (a b: int) : int
  function umod (a b: int) : int
  axiom udivmod: forall a b: int [umod a b]. 0 <= a -> 0 < b -> a = udiv a b * b + umod a b /\\ 0 <= umod a b < b /\\ 0 <= udiv a b
''' + ''.join(out)).replace('ensures { 0 <= result /\\ result * b <= a < (result + 1) * b }',
                           'ensures { 0 <= result /\\ result = udiv a b /\\ a = udiv a b * b + umod a b /\\ 0 <= umod a b < b }')


MISC = r'''
  type dbl
  val constant dbl_zero : dbl
  val function dbl_of_int (x: int) : dbl
  val function dbl_to_float (x: dbl) : dbl
  val function dbl_of_bool (b: bool) : dbl
  val predicate dbl_lt (a b: dbl)
  val function dbl_fmt (x: dbl) : str
  val function int_fmt (x: int) : str
'''

STR = r'''
  (* ---- std::string and const char* ---- *)
  val strs_new (n: int) : strs
    requires { [@expl:length] 0 <= n <= 2147483647 }
    ensures { strs_len result = n /\ forall k: int. 0 <= k < n -> strs_get result k = str_empty }
  val function str_make (n: int) (c: int) : str
  axiom str_make_len: forall n c: int [str_make n c]. 0 <= n -> str_len (str_make n c) = n
  axiom str_make_get: forall n c k: int [str_get (str_make n c) k]. 0 <= k < n -> str_get (str_make n c) k = c

  (* the character of a NUL-terminated buffer holding s *)
  function ch (s: str) (i: int) : int = if 0 <= i < str_len s then str_get s i else 0
  (* length of the C string stored in s, from offset o *)
  function nul (s: str) (o: int) : int
  axiom nul_in: forall s: str, o: int [nul s o]. 0 <= o <= str_len s -> o <= nul s o <= str_len s
  axiom nul_at: forall s: str, o: int [nul s o]. 0 <= o <= str_len s -> nul s o < str_len s -> str_get s (nul s o) = 0
  axiom nul_before: forall s: str, o k: int [nul s o, str_get s k]. 0 <= o <= k < nul s o -> str_get s k <> 0
  (* strings without embedded NUL *)
  predicate nonul (s: str) = forall k: int. 0 <= k < str_len s -> str_get s k <> 0
  predicate nonuls (s: strs) = forall k: int. 0 <= k < strs_len s -> nonul (strs_get s k)

  let str_eqb (a b: str) : bool
    ensures { result <-> a = b }
  = str_eqb0 a b

  predicate str_lt (a b: str)
  axiom str_lt_irr: forall a: str [str_lt a a]. not (str_lt a a)
  axiom str_lt_trans: forall a b c: str [str_lt a b, str_lt b c]. str_lt a b -> str_lt b c -> str_lt a c
  axiom str_lt_total: forall a b: str [str_lt a b]. str_lt a b \/ a = b \/ str_lt b a
  val str_ltb (a b: str) : bool
    ensures { result <-> str_lt a b }

  let constant npos : int = 18446744073709551615

  (* pos/count substring: std::string::substr, std::string(str, pos, n) *)
  let str_substr (s: str) (pos n: int) : str
    requires { [@expl:std::out_of_range] pos <= str_len s }
    requires { 0 <= pos /\ 0 <= n }
    ensures { result = str_sub s pos (if n < npos && n < str_len s - pos then pos + n else str_len s) }
  = str_sub s pos (if n < npos && n < str_len s - pos then pos + n else str_len s)

  (* s[i] on std::string: i = size() designates the terminator *)
  let str_idx (s: str) (i: int) : int
    requires { [@expl:index in bounds] 0 <= i <= str_len s }
    ensures { result = ch s i }
  = if i = str_len s then 0 else str_nth s i

  val str_find_ch (s: str) (c pos: int) : int
    ensures { result = npos \/ (pos <= result < str_len s /\ result < 4611686018427387904 /\ 0 <= result /\ str_get s result = c) }
    ensures { forall k: int. 0 <= k -> pos <= k < str_len s -> (result = npos \/ k < result) -> str_get s k <> c }
  val str_rfind_ch (s: str) (c pos: int) : int
    ensures { result = npos \/ (0 <= result <= pos /\ result < 4611686018427387904 /\ result < str_len s /\ str_get s result = c) }
    ensures { forall k: int. 0 <= k -> (k <= pos \/ pos = npos) -> k < str_len s -> (result = npos \/ result < k) -> str_get s k <> c }
  val str_find_not_ch (s: str) (c pos: int) : int
    ensures { result = npos \/ (pos <= result < str_len s /\ result < 4611686018427387904 /\ 0 <= result /\ str_get s result <> c) }
    ensures { forall k: int. 0 <= k -> pos <= k < str_len s -> (result = npos \/ k < result) -> str_get s k = c }
  val str_find_str (s t: str) (pos: int) : int
    ensures { result = npos \/ (pos <= result /\ result + str_len t <= str_len s /\ result < 4611686018427387904 /\ 0 <= result
              /\ str_sub s result (result + str_len t) = t) }
    ensures { forall k: int. 0 <= k -> pos <= k -> k + str_len t <= str_len s -> (result = npos \/ k < result) ->
              str_sub s k (k + str_len t) <> t }
  val str_cmp (a b: str) : int
    ensures { result = 0 <-> a = b } ensures { result < 0 <-> str_lt a b }
  let str_erase (s: str) (pos n: int) : str
    requires { [@expl:std::out_of_range] pos <= str_len s }
    requires { 0 <= pos /\ 0 <= n }
    ensures { result = str_cat (str_sub s 0 pos) (str_sub s (if n < npos && n < str_len s - pos then pos + n else str_len s) (str_len s)) }
  = str_cat (str_sub s 0 pos) (str_sub s (if n < npos && n < str_len s - pos then pos + n else str_len s) (str_len s))
  let str_ins (s: str) (pos: int) (t: str) : str
    requires { [@expl:std::out_of_range] pos <= str_len s }
    requires { 0 <= pos }
    ensures { result = str_cat (str_sub s 0 pos) (str_cat t (str_sub s pos (str_len s))) }
  = str_cat (str_sub s 0 pos) (str_cat t (str_sub s pos (str_len s)))
'''

STR0 = r'''
  val str_eqb0 (a b: str) : bool
    ensures { result <-> a = b }
'''

CPTR = r'''
  (* const char*: a position inside the buffer of a string *)
  type cptr = { cnull: bool; cbase: str; coff: int }
  val constant str_empty0 : str
  predicate cp_ok (p: cptr) = not p.cnull -> 0 <= p.coff <= str_len p.cbase
  function cch (p: cptr) (i: int) : int = ch p.cbase (p.coff + i)
  (* the C string designated by p *)
  function cstr (p: cptr) : str = str_sub p.cbase p.coff (nul p.cbase p.coff)
  let cp_null () : cptr
    ensures { result.cnull }
  = { cnull = true; cbase = str_empty; coff = 0 }
  let cp_of (s: str) : cptr
    ensures { not result.cnull /\ result.cbase = s /\ result.coff = 0 }
  = { cnull = false; cbase = s; coff = 0 }
  let cp_at (p: cptr) (i: int) : int
    requires { [@expl:null dereference] not p.cnull }
    requires { [@expl:pointer in bounds] 0 <= p.coff + i <= str_len p.cbase }
    ensures { result = cch p i }
  = if p.coff + i = str_len p.cbase then 0 else str_nth p.cbase (p.coff + i)
  let cp_add (p: cptr) (n: int) : cptr
    requires { [@expl:null dereference] not p.cnull }
    requires { [@expl:pointer in bounds] 0 <= p.coff + n <= str_len p.cbase }
    ensures { not result.cnull /\ result.cbase = p.cbase /\ result.coff = p.coff + n }
  = { cnull = false; cbase = p.cbase; coff = p.coff + n }
  (* no object of the program is larger than 2^62 bytes *)
  val cp_diff (p q: cptr) : int
    requires { [@expl:pointers into the same string] not p.cnull /\ not q.cnull /\ p.cbase = q.cbase }
    ensures { result = p.coff - q.coff /\ - 4611686018427387904 < result < 4611686018427387904 }
  let cp_eq (p q: cptr) : bool
    requires { [@expl:pointers into the same string] p.cnull \/ q.cnull \/ p.cbase = q.cbase }
    ensures { result <-> (p.cnull /\ q.cnull) \/ (not p.cnull /\ not q.cnull /\ p.coff = q.coff) }
  = (p.cnull && q.cnull) || (not p.cnull && not q.cnull && p.coff = q.coff)
  val cp_str (p: cptr) : str
    requires { [@expl:null dereference] not p.cnull }
    requires { [@expl:pointer in bounds] 0 <= p.coff <= str_len p.cbase }
    ensures { result = cstr p }
  val c_strlen (p: cptr) : int
    requires { [@expl:null dereference] not p.cnull }
    requires { [@expl:pointer in bounds] 0 <= p.coff <= str_len p.cbase }
    ensures { result = nul p.cbase p.coff - p.coff }
  val c_strcmp (a b: cptr) : int
    requires { [@expl:null dereference] not a.cnull /\ not b.cnull }
    requires { [@expl:pointer in bounds] 0 <= a.coff <= str_len a.cbase /\ 0 <= b.coff <= str_len b.cbase }
    ensures { result = 0 <-> cstr a = cstr b }
    ensures { result = 0 <-> forall k: int. 0 <= k <= nul a.cbase a.coff - a.coff -> cch a k = cch b k }
  val c_strchr (p: cptr) (c: int) : cptr
    requires { [@expl:null dereference] not p.cnull }
    requires { [@expl:pointer in bounds] 0 <= p.coff <= str_len p.cbase }
    requires { c <> 0 }
    ensures { result.cnull \/ (result.cbase = p.cbase /\ p.coff <= result.coff < nul p.cbase p.coff /\ str_get p.cbase result.coff = c) }
    ensures { forall k: int. p.coff <= k < (if result.cnull then nul p.cbase p.coff else result.coff) -> str_get p.cbase k <> c }
  axiom sub_full: forall s: str [str_sub s 0 (str_len s)]. str_sub s 0 (str_len s) = s
  axiom nonul_nul: forall s: str, o: int [nul s o]. nonul s -> 0 <= o <= str_len s -> nul s o = str_len s
'''

ELEM = r'''
  (* ---- ArgumentElement values ---- *)
  type elems0
  type elem
'''

ELEM2 = r'''
  val function e_kids (e: elem) : elems
  val function e_argument (e: elem) : str
  val function e_default (e: elem) : str
  val function e_isNumber (e: elem) : bool
  val function e_number (e: elem) : dbl
  val function mk_elem (k: elems) (a d: str) (b: bool) (n: dbl) : elem
  axiom mk_elem_k: forall k: elems, a d: str, b: bool, n: dbl [mk_elem k a d b n]. e_kids (mk_elem k a d b n) = k
  axiom mk_elem_a: forall k: elems, a d: str, b: bool, n: dbl [mk_elem k a d b n]. e_argument (mk_elem k a d b n) = a
  axiom mk_elem_d: forall k: elems, a d: str, b: bool, n: dbl [mk_elem k a d b n]. e_default (mk_elem k a d b n) = d
  axiom mk_elem_b: forall k: elems, a d: str, b: bool, n: dbl [mk_elem k a d b n]. e_isNumber (mk_elem k a d b n) = b
  axiom mk_elem_n: forall k: elems, a d: str, b: bool, n: dbl [mk_elem k a d b n]. e_number (mk_elem k a d b n) = n
  let set_e_kids (e: elem) (x: elems) : elem
    ensures { result = mk_elem x (e_argument e) (e_default e) (e_isNumber e) (e_number e) }
  = mk_elem x (e_argument e) (e_default e) (e_isNumber e) (e_number e)
  let set_e_argument (e: elem) (x: str) : elem
    ensures { result = mk_elem (e_kids e) x (e_default e) (e_isNumber e) (e_number e) }
  = mk_elem (e_kids e) x (e_default e) (e_isNumber e) (e_number e)
  let set_e_default (e: elem) (x: str) : elem
    ensures { result = mk_elem (e_kids e) (e_argument e) x (e_isNumber e) (e_number e) }
  = mk_elem (e_kids e) (e_argument e) x (e_isNumber e) (e_number e)
  let set_e_isNumber (e: elem) (x: bool) : elem
    ensures { result = mk_elem (e_kids e) (e_argument e) (e_default e) x (e_number e) }
  = mk_elem (e_kids e) (e_argument e) (e_default e) x (e_number e)
  let set_e_number (e: elem) (x: dbl) : elem
    ensures { result = mk_elem (e_kids e) (e_argument e) (e_default e) (e_isNumber e) x }
  = mk_elem (e_kids e) (e_argument e) (e_default e) (e_isNumber e) x
'''

TAIL = r'''
  (* ---- exceptions ---- *)
  exception Cxx exn
  (* std::exit was called *)
  exception Exit

  (* ---- object identities ---- *)
  val alive : ref (map int bool)
  val valive : ref (map int bool)
  val nalive : ref (map int bool)
  val slot : ref (map int int)
  val next_loc : ref int
  val next_node : ref int
  val out : ref str
  let mget_b (m: map int bool) (k: int) : bool ensures { result = Map.get m k } = mget_b0 m k
  let chk (l: int) : int
    requires { [@expl:object alive] Map.get !alive l }
    ensures { result = l }
  = l
  let node_get (n: int) : int
    requires { [@expl:list node alive] Map.get !nalive n }
    ensures { result = Map.get !slot n }
  = mget_i !slot n
  let node_set (n: int) (l: int) : unit
    requires { [@expl:list node alive] Map.get !nalive n }
    writes { slot }
    ensures { !slot = Map.set (old !slot) n l }
  = slot := mset_i !slot n l
  val new_loc () : int
    writes { alive, next_loc }
    ensures { result <> 0 /\ not (Map.get (old !alive) result) }
    ensures { result = old !next_loc /\ !next_loc = old !next_loc + 1 }
    ensures { !alive = Map.set (old !alive) result true }
  val new_node () : int
    writes { nalive, next_node }
    ensures { not (Map.get (old !nalive) result) }
    ensures { result = old !next_node /\ !next_node = old !next_node + 1 }
    ensures { !nalive = Map.set (old !nalive) result true }

  (* ---- std::map<std::string, Argument**> ---- *)
  val g_mdom : ref (map str bool)
  val g_mval : ref (map str int)
  predicate mbefore (k: str) (i: mit)
  axiom mbefore_end: forall k: str, i: mit [mbefore k i]. i.m_end -> mbefore k i
  axiom mbefore_irr: forall i: mit [mbefore i.m_key i]. not i.m_end -> not (mbefore i.m_key i)
  function mrest (d: map str bool) (i: mit) : int
  axiom mrest_pos: forall d: map str bool, i: mit [mrest d i]. 0 <= mrest d i
  let map_end () : mit ensures { result.m_end } = { m_end = true; m_key = str_empty }
  val map_begin () : mit
    ensures { result.m_end \/ Map.get !g_mdom result.m_key }
    ensures { not result.m_end -> forall k: str. Map.get !g_mdom k -> not (mbefore k result) }
    ensures { result.m_end -> forall k: str. not (Map.get !g_mdom k) }
  val map_next (i: mit) : mit
    requires { [@expl:map iterator valid] not i.m_end /\ Map.get !g_mdom i.m_key }
    ensures { result.m_end \/ Map.get !g_mdom result.m_key }
    ensures { forall k: str. Map.get !g_mdom k -> (mbefore k result <-> (mbefore k i \/ k = i.m_key)) }
    ensures { mrest !g_mdom result < mrest !g_mdom i }
  let map_find (k: str) : mit
    ensures { result.m_end <-> not (Map.get !g_mdom k) }
    ensures { not result.m_end -> result.m_key = k }
  = if mget_sb !g_mdom k then { m_end = false; m_key = k } else { m_end = true; m_key = str_empty }
  let map_second (i: mit) : int
    requires { [@expl:map iterator valid] not i.m_end /\ Map.get !g_mdom i.m_key }
    ensures { result = Map.get !g_mval i.m_key }
  = mget_si !g_mval i.m_key
  let map_first (i: mit) : str
    requires { [@expl:map iterator valid] not i.m_end /\ Map.get !g_mdom i.m_key }
    ensures { result = i.m_key }
  = i.m_key
  let map_insert (k: str) (n: int) : unit
    writes { g_mdom, g_mval }
    ensures { !g_mdom = Map.set (old !g_mdom) k true }
    ensures { !g_mval = if Map.get (old !g_mdom) k then old !g_mval else Map.set (old !g_mval) k n }
  = if not (mget_sb !g_mdom k) then g_mval := mset_si !g_mval k n;
    g_mdom := mset_sb !g_mdom k true
  let map_assign (k: str) (n: int) : unit
    writes { g_mdom, g_mval }
    ensures { !g_mdom = Map.set (old !g_mdom) k true }
    ensures { !g_mval = Map.set (old !g_mval) k n }
  = g_mval := mset_si !g_mval k n;
    g_mdom := mset_sb !g_mdom k true
  let map_erase_it (i: mit) : unit
    requires { [@expl:map iterator valid] not i.m_end /\ Map.get !g_mdom i.m_key }
    writes { g_mdom }
    ensures { !g_mdom = Map.set (old !g_mdom) i.m_key false }
  = g_mdom := mset_sb !g_mdom i.m_key false
  let map_erase_key (k: str) : unit
    writes { g_mdom }
    ensures { !g_mdom = Map.set (old !g_mdom) k false }
  = g_mdom := mset_sb !g_mdom k false
  val map_clear () : unit
    writes { g_mdom }
    ensures { forall k: str. not (Map.get !g_mdom k) }
  let mit_eq (i j: mit) : bool
    ensures { result <-> (i.m_end /\ j.m_end) \/ (not i.m_end /\ not j.m_end /\ i.m_key = j.m_key) }
  = (i.m_end && j.m_end) || (not i.m_end && not j.m_end && str_eqb i.m_key j.m_key)

  (* ---- output string streams ---- *)
  type oss = { o_buf: str; o_width: int; o_left: bool }
  let oss_new (s: str) : oss
    ensures { result.o_width = 0 /\ not result.o_left /\ result.o_buf = str_empty }
  = { o_buf = str_empty; o_width = 0; o_left = false }
  function padded (s: str) (w: int) (left: bool) : str =
    if w <= str_len s then s else if left then str_cat s (str_make (w - str_len s) 32) else str_cat (str_make (w - str_len s) 32) s
  val oss_put (o: oss) (s: str) : oss
    ensures { result.o_buf = str_cat o.o_buf (padded s o.o_width o.o_left) }
    ensures { result.o_width = 0 /\ result.o_left = o.o_left }
'''

MAPS = r'''
  val mget_b0 (m: map int bool) (k: int) : bool ensures { result = Map.get m k }
  val mset_b (m: map int bool) (k: int) (v: bool) : map int bool ensures { result = Map.set m k v }
  val mget_i (m: map int int) (k: int) : int ensures { result = Map.get m k }
  val mset_i (m: map int int) (k: int) (v: int) : map int int ensures { result = Map.set m k v }
  val mget_sb (m: map str bool) (k: str) : bool ensures { result = Map.get m k }
  val mset_sb (m: map str bool) (k: str) (v: bool) : map str bool ensures { result = Map.set m k v }
  val mget_si (m: map str int) (k: str) : int ensures { result = Map.get m k }
  val mset_si (m: map str int) (k: str) (v: int) : map str int ensures { result = Map.set m k v }
  val mget_s (m: map int str) (k: int) : str ensures { result = Map.get m k }
  val mset_s (m: map int str) (k: int) (v: str) : map int str ensures { result = Map.set m k v }
  val mget_ss (m: map int strs) (k: int) : strs ensures { result = Map.get m k }
  val mset_ss (m: map int strs) (k: int) (v: strs) : map int strs ensures { result = Map.set m k v }
  val mget_e (m: map int elems) (k: int) : elems ensures { result = Map.get m k }
  val mset_e (m: map int elems) (k: int) (v: elems) : map int elems ensures { result = Map.set m k v }
  val mget_d (m: map int dbl) (k: int) : dbl ensures { result = Map.get m k }
  val mset_d (m: map int dbl) (k: int) (v: dbl) : map int dbl ensures { result = Map.set m k v }
'''


LIBC = r'''
  (* ---- values of uninitialised objects: unconstrained ---- *)
  val any_int () : int
  val any_bool () : bool
  val any_dbl () : dbl
  val any_cptr () : cptr
  val any_str () : str
  val any_elem () : elem
  val any_mit () : mit
  val any_nodes_it () : ints_it
  let boolean_eq (a b: bool) : bool
    ensures { result <-> a = b }
  = (a && b) || (not a && not b)

  (* ---- std::list<Argument*> and std::vector<map iterator> algorithms ---- *)
  (* std::find compares the stored pointers *)
  val nodes_find (b e: ints_it) (x: int) : ints_it
    requires { b.ints_iv = e.ints_iv /\ b.ints_ip <= e.ints_ip }
    reads { slot }
    ensures { result.ints_iv = b.ints_iv /\ b.ints_ip <= result.ints_ip <= e.ints_ip }
    ensures { result.ints_ip < e.ints_ip -> Map.get !slot (ints_get b.ints_iv result.ints_ip) = x }
    ensures { forall k: int. b.ints_ip <= k < result.ints_ip -> Map.get !slot (ints_get b.ints_iv k) <> x }
  predicate mit_same (i j: mit) = (i.m_end /\ j.m_end) \/ (not i.m_end /\ not j.m_end /\ i.m_key = j.m_key)
  val mits_findit (b e: mits_it) (x: mit) : mits_it
    requires { b.mits_iv = e.mits_iv /\ b.mits_ip <= e.mits_ip }
    ensures { result.mits_iv = b.mits_iv /\ b.mits_ip <= result.mits_ip <= e.mits_ip }
    ensures { result.mits_ip < e.mits_ip -> mit_same (mits_get b.mits_iv result.mits_ip) x }
    ensures { forall k: int. b.mits_ip <= k < result.mits_ip -> not (mit_same (mits_get b.mits_iv k) x) }
  (* each node takes up memory *)
  val nodes_next (cur: ints) (i: ints_it) : ints_it
    requires { [@expl:list iterator valid] i.ints_iv = cur }
    requires { [@expl:list iterator dereferenceable] 0 <= i.ints_ip < ints_len i.ints_iv }
    ensures { result.ints_iv = i.ints_iv /\ result.ints_ip = i.ints_ip + 1 }
    ensures { ints_len i.ints_iv < 4611686018427387904 }
  let node_free (i: ints_it) : unit
    requires { [@expl:list iterator dereferenceable] 0 <= i.ints_ip < ints_len i.ints_iv }
    writes { nalive }
    ensures { !nalive = Map.set (old !nalive) (ints_get i.ints_iv i.ints_ip) false }
  = nalive := mset_b !nalive (ints_get i.ints_iv i.ints_ip) false
  val nodes_free_all (s: ints) : unit
    writes { nalive }
    ensures { forall n: int. Map.get !nalive n <-> (Map.get (old !nalive) n /\ not (ints_mem s n)) }

  (* ---- validators and destinations (virtual calls) ---- *)
  let delete_valid (v: int) : unit
    requires { [@expl:validator alive] v = 0 \/ Map.get !valive v }
    writes { valive }
    ensures { !valive = if v = 0 then old !valive else Map.set (old !valive) v false }
  = if v <> 0 then valive := mset_b !valive v false
  function v_ok (v: int) (a: strs) : bool
  function v_out (v: int) (a: strs) : strs
  predicate v_thr (v: int) (a: strs)
  function v_exn (v: int) (a: strs) : exn
  (* the validators asked so far, in order *)
  val asked : ref ints
  val virtual_isValid (v: int) (a: ref strs) : bool
    requires { [@expl:validator alive] Map.get !valive v }
    reads { valive }
    writes { a, asked }
    ensures { not (v_thr v (old !a)) /\ result = v_ok v (old !a) /\ !a = v_out v (old !a) }
    ensures { !asked = ints_snoc (old !asked) v }
    raises { Cxx e -> v_thr v (old !a) /\ e = v_exn v (old !a) /\ !asked = ints_snoc (old !asked) v }
  (* the objects whose values were delivered so far, in order, and what they held then *)
  val delivered : ref ints
  val d_kids : ref (map int elems)
  val d_argument : ref (map int str)
  val d_isExist : ref (map int bool)
  val d_isNumber : ref (map int bool)
  val d_number : ref (map int dbl)
  val virtual_toDest (l: int) (k: map int elems) (a: map int str) (x n: map int bool) (d: map int dbl) : unit
    writes { delivered, d_kids, d_argument, d_isExist, d_isNumber, d_number }
    ensures { !delivered = ints_snoc (old !delivered) l }
    ensures { !d_kids = Map.set (old !d_kids) l (Map.get k l) }
    ensures { !d_argument = Map.set (old !d_argument) l (Map.get a l) }
    ensures { !d_isExist = Map.set (old !d_isExist) l (Map.get x l) }
    ensures { !d_isNumber = Map.set (old !d_isNumber) l (Map.get n l) }
    ensures { !d_number = Map.set (old !d_number) l (Map.get d l) }

  (* ---- C library ---- *)
  val function strtod_len (s: str) : int
  val function strtod_val (s: str) : dbl
  axiom strtod_len_in: forall s: str [strtod_len s]. 0 <= strtod_len s <= str_len s
  val c_strtod (p: cptr) : dbl
    requires { [@expl:null dereference] not p.cnull }
    requires { [@expl:pointer in bounds] 0 <= p.coff <= str_len p.cbase }
    ensures { result = strtod_val (cstr p) }
  val c_strtod_end (p: cptr) : cptr
    requires { [@expl:null dereference] not p.cnull }
    requires { [@expl:pointer in bounds] 0 <= p.coff <= str_len p.cbase }
    ensures { not result.cnull /\ result.cbase = p.cbase /\ result.coff = p.coff + strtod_len (cstr p) }
    ensures { p.coff <= result.coff <= nul p.cbase p.coff }
  val c_memcpy (d: str) (p: cptr) (n: int) : str
    requires { [@expl:destination in bounds] 0 <= n <= str_len d }
    requires { [@expl:null dereference] not p.cnull }
    requires { [@expl:source in bounds] 0 <= p.coff /\ p.coff + n <= str_len p.cbase + 1 }
    ensures { str_len result = str_len d }
    ensures { forall k: int. 0 <= k < str_len d -> str_get result k = if k < n then cch p k else str_get d k }
  val c_strncpy (d: str) (p: cptr) (n: int) : str
    requires { [@expl:destination in bounds] 0 <= n <= str_len d }
    requires { [@expl:null dereference] not p.cnull }
    requires { [@expl:source in bounds] 0 <= p.coff <= str_len p.cbase }
    ensures { str_len result = str_len d }
    ensures { forall k: int. 0 <= k < str_len d ->
        str_get result k = if k < n then (if p.coff + k < nul p.cbase p.coff then cch p k else 0) else str_get d k }
  val cp_strn (p: cptr) (n: int) : str
    requires { [@expl:null dereference] not p.cnull }
    requires { [@expl:source in bounds] 0 <= n /\ 0 <= p.coff /\ p.coff + n <= str_len p.cbase + 1 }
    ensures { str_len result = n }
    ensures { forall k: int. 0 <= k < n -> str_get result k = cch p k }
  function upch (c: int) : int
  axiom upch_az: forall c: int [upch c]. 97 <= c <= 122 -> upch c = c - 32
  axiom upch_id: forall c: int [upch c]. 0 <= c < 97 \/ 122 < c < 128 -> upch c = c
  axiom upch_rng: forall c: int [upch c]. -128 <= c <= 127 -> -128 <= upch c <= 255
  val c_toupper (c: int) : int
    requires { -128 <= c <= 255 }
    ensures { result = upch c }
  (* stat(2): result and file type of a path *)
  val function path_rc (s: str) : int
  val function path_mode (s: str) : int
  val function mode_fmt (m: int) : int
  val c_stat_rc (p: cptr) : int
    requires { [@expl:null dereference] not p.cnull }
    requires { [@expl:pointer in bounds] 0 <= p.coff <= str_len p.cbase }
    ensures { result = path_rc (cstr p) }
  val c_stat_mode (p: cptr) : int
    requires { [@expl:null dereference] not p.cnull }
    requires { [@expl:pointer in bounds] 0 <= p.coff <= str_len p.cbase }
    ensures { result = path_mode (cstr p) }
  val stat_fmt (m: int) : int
    ensures { result = mode_fmt m }
  (* std::getline on a string stream holding the rest r *)
  type getl = { gl_ok: bool; gl_rest: str; gl_line: str }
  val iss_getline (r l: str) : getl
    ensures { not result.gl_ok -> str_len r = 0 /\ result.gl_rest = r }
    ensures { result.gl_ok -> str_len r > 0 /\ str_len result.gl_line <= str_len r
              /\ result.gl_line = str_sub r 0 (str_len result.gl_line)
              /\ (forall k: int. 0 <= k < str_len result.gl_line -> str_get r k <> 10)
              /\ (str_len result.gl_line < str_len r -> str_get r (str_len result.gl_line) = 10
                  /\ result.gl_rest = str_sub r (str_len result.gl_line + 1) (str_len r))
              /\ (str_len result.gl_line = str_len r -> result.gl_rest = str_empty) }
  (* std::stringstream used to convert text to a number *)
  type sstream = { ss_buf: str }
  val function ss_val (s: str) : dbl
  val predicate ss_ok (s: str)
  let ss_init (s: str) : sstream
    ensures { result.ss_buf = s }
  = { ss_buf = s }
  val ss_put (x: sstream) (s: str) : sstream
    ensures { str_len x.ss_buf = 0 -> result.ss_buf = s }
  val ss_dbl (x: sstream) : dbl
    ensures { result = ss_val x.ss_buf }
  val ss_dblok (x: sstream) : bool
    ensures { result <-> ss_ok x.ss_buf }
  let oss_init (s: str) : oss
    requires { str_len s = 0 }
    ensures { result.o_width = 0 /\ not result.o_left /\ result.o_buf = str_empty }
  = { o_buf = str_empty; o_width = 0; o_left = false }
  predicate dbl_nz (d: dbl)
  val dbl_nonzero (d: dbl) : bool
    ensures { result <-> dbl_nz d }
'''


def d2i():
    out = []
    for t, (lo, hi) in INTS.items():
        out.append('''
  val function dbl_{t} (d: dbl) : int
  val d2i_{t} (d: dbl) : int
    ensures {{ result = dbl_{t} d }} ensures {{ {L} <= result <= {H} }}
'''.format(t=t, L=lit(lo), H=lit(hi)))
    return ''.join(out)


MSUF = {'bool': 'b', 'int': 'i', 'str': 's', 'strs': 'ss', 'elems': 'e', 'dbl': 'd'}


def seq(S, T):
    return SEQ.replace('@S@', S).replace('@T@', T)


def prelude():
    p = [HEAD, ints()]
    done = set()
    p.append(seq('str', 'int'))
    p.append(MISC)
    p.append(STR0)
    p.append(seq('strs', 'str'))
    p.append(STR)
    p.append(CPTR.replace('  val constant str_empty0 : str\n', ''))
    for S, T in SEQS[2:11]:
        p.append(seq(S, T))
    p.append('\n  type elem\n')
    p.append(seq('elems', 'elem'))
    p.append(ELEM2)
    p.append('\n  type mit = { m_end: bool; m_key: str }\n')
    p.append(seq('mits', 'mit'))
    p.append('\n  type exn = { ek: int; ewhat: str; earg: str }\n')
    p.append(MAPS)
    p.append(TAIL)
    p.append(LIBC)
    p.append(d2i())
    return ''.join(p)
