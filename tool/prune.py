"""Leave out the axioms a set of goals cannot use.

An axiom with patterns fires only on ground terms that match one of them, so it
is kept when all symbols of one of its patterns occur in the goals or in kept
axioms. Leaving assertions out weakens the context: what is proved without them
is proved with them. (An axiom without patterns is always left out.)
"""
import vcsplit

_heads = {}


class Head:
    def __init__(self, text):
        self.items = []      # (kind, text, data)
        self.declared = set()
        self.consts = set()
        self.defs = {}
        exprs = vcsplit.parse(text)
        for e in exprs:
            k = e[0]
            if k in ('declare-fun', 'declare-const', 'define-fun'):
                self.declared.add(e[1])
                if k == 'declare-const' or not e[2]:
                    self.consts.add(e[1])
        for e in exprs:
            k = e[0]
            t = vcsplit.text(e)
            if k == 'define-fun':
                self.defs[e[1]] = self.syms(e[4])
            if k != 'assert':
                self.items.append((None, t, None))
                continue
            f = e[1]
            s = self.syms(f)
            if f[0] == 'forall':
                b = f[2]
                if b[0] == '!':
                    pats = [self.syms(b[i + 1]) for i in range(2, len(b), 2) if b[i] == ':pattern']
                    self.items.append(('all', t, (pats, s)))
            else:
                c = s & self.consts
                self.items.append(('any', t, (c or s, s)))

    def syms(self, e):
        acc = set()
        vcsplit.symbols(e, acc)
        return acc & self.declared

    def prune(self, script, without=()):
        without = set(without)
        reach = set()
        todo = [self.syms(vcsplit.parse(script))]

        def add(ss):
            new = ss - reach
            while new:
                reach.update(new)
                nx = set()
                for x in new:
                    nx |= self.defs.get(x, set())
                new = nx - reach
        add(todo[0])
        keep = [k is None for k, t, d in self.items]
        change = True
        while change:
            change = False
            for i, (k, t, d) in enumerate(self.items):
                if keep[i] or (without and d[1] & without):
                    continue
                if (k == 'all' and any(p <= reach for p in d[0])) or (k == 'any' and (not d[0] or d[0] & reach)):
                    keep[i] = True
                    change = True
                    add(d[1])
        return '\n'.join(t for (k, t, d), x in zip(self.items, keep) if x) + '\n'


def prune(head, script, without=()):
    h = _heads.get(head)
    if h is None:
        if len(_heads) > 40:
            _heads.clear()
        h = _heads[head] = Head(head)
    return h.prune(script, without)
