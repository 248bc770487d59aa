"""Split one SMT-LIB verification condition into small goals.

Why3 prints one file per function: a context followed by (assert (not G)).
G is taken apart with the rules
    G1 and G2        ->  G1 ;  G1 |- G2        A => G     ->  A |- G
    forall x. G      ->  G with x a fresh constant
    let x = e in G   ->  G with x bound around every formula that mentions it
    ite c G1 G2      ->  c |- G1 ;  not c |- G2
and hypotheses with
    A1 and A2 -> A1 ; A2       exists x. A -> A with x a fresh constant
Every rule is an equivalence or weakens nothing: G is valid in the context when
all the small goals are.
"""
import re

TOK = re.compile(r'\|[^|]*\||"(?:[^"]|"")*"|;[^\n]*|[()]|[^\s()|";]+')


def parse(text):
    """All top-level S-expressions, as nested tuples of atoms."""
    out, stack, cur = [], [], []
    for m in TOK.finditer(text):
        t = m.group()
        c = t[0]
        if c == ';':
            continue
        if t == '(':
            stack.append(cur)
            cur = []
        elif t == ')':
            x = tuple(cur)
            cur = stack.pop()
            cur.append(x)
        else:
            cur.append(t)
    if stack:
        raise ValueError('unbalanced S-expression')
    return cur


def show(e, out):
    if isinstance(e, str):
        out.append(e)
    else:
        out.append('(')
        for x in e:
            show(x, out)
        out.append(')')


def text(e):
    out = []
    show(e, out)
    return ' '.join(out)


def symbols(e, acc):
    if isinstance(e, str):
        acc.add(e)
    else:
        for x in e:
            symbols(x, acc)
    return acc


def clean(e):
    """Without the marks: pm_x => f is f, vr x is x."""
    if isinstance(e, str) or not e:
        return e
    if e[0] == '=>' and len(e) == 3 and isinstance(e[1], str) and e[1].startswith('pm_'):
        return clean(e[2])
    if e[0] == 'vr' and len(e) == 2:
        return clean(e[1])
    r = tuple(clean(x) for x in e)
    return e if all(a is b for a, b in zip(r, e)) else r


class Splitter:
    def __init__(self, taken):
        self.taken = set(taken)
        self.goals = []
        self.limit = 20000
        self.tags = ()

    def fresh(self, n):
        if n not in self.taken:
            self.taken.add(n)
            return n
        i = 0
        while '%s!%d' % (n, i) in self.taken:
            i += 1
        r = '%s!%d' % (n, i)
        self.taken.add(r)
        return r

    def rename(self, e, m):
        if not m:
            return e
        if isinstance(e, str):
            return m.get(e, e)
        if len(e) == 3 and e[0] in ('forall', 'exists') and not isinstance(e[1], str):
            m2 = {k: v for k, v in m.items() if k not in [b[0] for b in e[1]]}
            return (e[0], e[1], self.rename(e[2], m2))
        if len(e) == 3 and e[0] == 'let':
            m2 = {k: v for k, v in m.items() if k not in [b[0] for b in e[1]]}
            return ('let', tuple((b[0], self.rename(b[1], m)) for b in e[1]), self.rename(e[2], m2))
        return tuple(self.rename(x, m) for x in e)

    @staticmethod
    def strip(e):
        while not isinstance(e, str) and e and e[0] == '!':
            e = e[1]
        return e

    # ctx: tuple list (linked) of ('d', name, sort) | ('l', name, term) | ('h', formula)
    def hyp(self, f, ctx, m):
        f = clean(self.strip(f))
        if isinstance(f, str):
            return ctx if f == 'true' else (ctx, ('h', m.get(f, f)))
        if f[0] == 'and':
            for x in f[1:]:
                ctx = self.hyp(x, ctx, m)
            return ctx
        if f[0] == 'exists' and len(f) == 3:
            m = dict(m)
            for n, s in f[1]:
                v = self.fresh(n)
                m[n] = v
                ctx = (ctx, ('d', v, s))
            return self.hyp(f[2], ctx, m)
        if f[0] == 'let':
            m2 = dict(m)
            for n, e in f[1]:
                v = self.fresh(n)
                ctx = (ctx, ('l', v, self.rename(e, m)))
                m2[n] = v
            return self.hyp(f[2], ctx, m2)
        return (ctx, ('h', self.rename(f, m)))

    def goal(self, f, ctx, m):
        while True:
            f = self.strip(f)
            if isinstance(f, str):
                if f != 'true':
                    self.emit(m.get(f, f), ctx)
                return
            h = f[0]
            if h == 'and':
                for x in f[1:-1]:
                    n = len(self.goals)
                    self.goal(x, ctx, m)
                    # a conjunct already shown may be used for the next ones
                    if len(self.goals) - n <= 3 and self.simple(x):
                        ctx = self.hyp(x, ctx, m)
                f = f[-1]
                continue
            if h == '=>' and isinstance(f[1], str) and f[1].startswith('pm_'):
                old = self.tags
                self.tags = tuple(f[1][3:].split('_'))
                self.goal(f[2], ctx, m)
                self.tags = old
                return
            if h == '=>':
                for a in f[1:-1]:
                    ctx = self.hyp(a, ctx, m)
                f = f[-1]
                continue
            if h == 'forall' and len(f) == 3:
                m = dict(m)
                for n, s in f[1]:
                    v = self.fresh(n)
                    m[n] = v
                    ctx = (ctx, ('d', v, s))
                f = f[2]
                continue
            if h == 'let':
                m2 = dict(m)
                for n, e in f[1]:
                    v = self.fresh(n)
                    ctx = (ctx, ('l', v, self.rename(clean(e), m)))
                    m2[n] = v
                m = m2
                f = f[2]
                continue
            if h == 'ite':
                self.goal(f[2], self.hyp(f[1], ctx, m), m)
                ctx = (ctx, ('h', ('not', self.rename(clean(f[1]), m))))
                f = f[3]
                continue
            self.emit(self.rename(f, m), ctx)
            return

    def simple(self, f, d=0):
        f = self.strip(f)
        if isinstance(f, str):
            return True
        if f[0] == 'and':
            return d < 3 and len(f) < 6 and all(self.simple(x, d + 1) for x in f[1:])
        return f[0] not in ('=>', 'let', 'ite', 'exists', 'forall')

    def emit(self, f, ctx):
        if len(self.goals) >= self.limit:
            raise ValueError('too many goals')
        tags = self.tags
        if 'vr' in symbols(f, set()):
            tags = ('ends',)
        self.goals.append((ctx, clean(f), tags))


def split(smt):
    """(context text, goals); a goal is (linked context, formula, labels)."""
    i = smt.rindex('\n(assert\n  (not') if '\n(assert\n  (not' in smt else -1
    j = smt.rindex('(check-sat)')
    # the last assertion is the goal
    k = smt.rindex('\n(assert', 0, j)
    while True:
        try:
            ex = parse(smt[k:j])
        except (ValueError, IndexError):
            ex = None
        if ex and len(ex) == 1:
            break
        k = smt.rindex('\n(assert', 0, k)
    g = ex[0]
    if g[0] != 'assert' or g[1][0] != 'not':
        raise ValueError('unexpected goal shape')
    head = smt[:k] + '\n'
    head = '\n'.join(l for l in head.split('\n') if not l.startswith(';'))
    names = set(re.findall(r'\((?:declare-fun|define-fun|declare-const|declare-sort|declare-datatypes?)\s+\(*([^\s()]+)', head))
    names |= set(re.findall(r'[A-Za-z_][\w!.]*', head))
    s = Splitter(names)
    s.goal(g[1][1], None, {})
    return head, s.goals


def unroll(ctx):
    out = []
    while ctx is not None:
        ctx, x = ctx
        out.append(x)
    out.reverse()
    return out


class Printer:
    """Text of goals; remembers the text of shared hypotheses."""

    def __init__(self):
        self.cache = {}

    def wrap(self, f, lets, letsyms):
        key = id(f)
        t, sy = self.sym(f)
        need = []
        todo = [s for s in sy if s in lets]
        seen = set()
        while todo:
            s = todo.pop()
            if s in seen:
                continue
            seen.add(s)
            need.append(s)
            todo += [x for x in letsyms[s] if x in lets]
        need.sort(key=lambda s: lets[s][0])
        for s in reversed(need):
            t = '(let ((%s %s)) %s)' % (s, lets[s][1], t)
        return t

    def sym(self, f):
        k = id(f)
        if k not in self.cache:
            self.cache[k] = (text(f), frozenset(symbols(f, set())), f)
        return self.cache[k][:2]

    def script(self, ctx, goal):
        out, lets, letsyms = [], {}, {}
        for x in unroll(ctx):
            if x[0] == 'd':
                out.append('(declare-const %s %s)' % (x[1], text(x[2])))
            elif x[0] == 'l':
                t, sy = self.sym(x[2])
                lets[x[1]] = (len(lets), t)
                letsyms[x[1]] = sy
            else:
                out.append('(assert %s)' % self.wrap(x[1], lets, letsyms))
        out.append('(assert (not %s))' % self.wrap(goal, lets, letsyms))
        return '\n'.join(out) + '\n'


if __name__ == '__main__':
    import sys
    h, gs = split(open(sys.argv[1]).read())
    print(len(h), len(gs))
    p = Printer()
    for c, g, _ in gs[:3]:
        print(p.script(c, g)[-1500:])
        print('---')


def has_exists(f):
    return not isinstance(f, str) and bool(f) and (f[0] == 'exists' or any(has_exists(x) for x in f[1:]))


def cases(script, limit=120):
    """The same goal, once per way its hypotheses can hold.

    A hypothesis "A or B" gives one goal with A and one with B, "ite c A B" one
    with c and A and one with (not c) and B, where A or B asserts the existence
    of intermediate values (so comes from a branch of the code). The goal is
    valid when all of them are. Returns scripts, or [] where there are none or
    too many."""
    s = Splitter(set(re.findall(r'[A-Za-z_][\w!.]*', script)))

    def wrapped(f, lets):
        need = symbols(f, set())
        for n, e in lets:
            if n in need:
                f = ('let', ((n, e),), f)
                need |= symbols(e, set())
        return text(f)

    # lets: tuple of (name, term), the innermost first
    def put(f, m, lets, alts):
        f = s.strip(f)
        if isinstance(f, str):
            return [a + ['(assert %s)' % wrapped(m.get(f, f), lets)] for a in alts]
        if f[0] == 'and':
            for x in f[1:]:
                alts = put(x, m, lets, alts)
            return alts
        if f[0] == 'exists' and len(f) == 3:
            m = dict(m)
            for n, t in f[1]:
                v = s.fresh(n)
                m[n] = v
                alts = [a + ['(declare-const %s %s)' % (v, text(t))] for a in alts]
            return put(f[2], m, lets, alts)
        if f[0] == 'let':
            m2 = dict(m)
            new = []
            for n, e in f[1]:
                v = s.fresh(n)
                new.append((v, s.rename(e, m)))
                m2[n] = v
            return put(f[2], m2, tuple(new) + lets, alts)
        if f[0] == 'or' and has_exists(f):
            out = []
            for x in f[1:]:
                out += put(x, m, lets, alts)
                if len(out) > limit:
                    raise OverflowError
            return out
        if f[0] == 'ite' and (has_exists(f[2]) or has_exists(f[3])):
            out = put(f[3], m, lets, put(('not', f[1]), m, lets, alts))
            out = put(f[2], m, lets, put(f[1], m, lets, alts)) + out
            if len(out) > limit:
                raise OverflowError
            return out
        return [a + ['(assert %s)' % wrapped(s.rename(f, m), lets)] for a in alts]

    # one list of alternatives per command; the last hypotheses first, as the
    # nearest branches are the ones that matter, up to the limit in all
    cmds = parse(script)
    parts = [None] * len(cmds)
    total = 1
    for i in range(len(cmds) - 1, -1, -1):
        e = cmds[i]
        parts[i] = [[text(e)]]
        if e[0] == 'assert':
            try:
                p = put(e[1], {}, (), [[]])
                if total * len(p) <= limit:
                    total *= len(p)
                    parts[i] = p
            except OverflowError:
                pass
    if total == 1:
        return []
    alts = [[]]
    for p in parts:
        alts = [a + b for a in alts for b in p]
    return ['\n'.join(a) + '\n' for a in alts]
