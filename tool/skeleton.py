"""Shape of the loops of a function: kinds, nesting and the local variables they change.

Loop invariants are annotations of the loop they were written for. Where a change
replaces a loop by one of another shape, the invariants need not fit it: an
obligation of that function which is no longer discharged is then undecided.

python3 tool/skeleton.py writes known/loops.json from the current sources."""
import json
import os
import sys

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
FILE = os.path.join(HERE, 'known', 'loops.json')
LOOPS = {'ForStmt': 'for', 'WhileStmt': 'while', 'DoStmt': 'do', 'CXXForRangeStmt': 'range'}


def changed(n):
    """Names of the local variables a statement assigns or steps."""
    res = set()

    def target(x):
        while x and x.get('kind') in ('ParenExpr', 'ImplicitCastExpr'):
            x = x['inner'][0]
        d = x.get('referencedDecl') if x and x.get('kind') == 'DeclRefExpr' else None
        if d and d.get('kind') == 'VarDecl':
            res.add(d.get('name', ''))

    def walk(x):
        if not x:
            return
        k, sub = x.get('kind'), x.get('inner', ())
        if k == 'CompoundAssignOperator' or k == 'BinaryOperator' and x.get('opcode') == '=' or \
                k == 'UnaryOperator' and x.get('opcode') in ('++', '--'):
            target(sub[0])
        elif k == 'CXXOperatorCallExpr' and len(sub) > 1:
            f = sub[0]
            while f.get('kind') == 'ImplicitCastExpr':
                f = f['inner'][0]
            if f.get('referencedDecl', {}).get('name') in ('operator=', 'operator+=', 'operator-=', 'operator++', 'operator--'):
                target(sub[1])
        for c in sub:
            walk(c)
    walk(n)
    return res


def shape(n):
    """The loops below n: [kind, variables it changes, loops inside]."""
    res = []

    def walk(x):
        if not x:
            return
        k = x.get('kind')
        if k in LOOPS:
            inside = []
            for c in x.get('inner', ()):
                inside += shape(c)
            res.append([LOOPS[k], sorted(changed(x)), inside])
            return
        for c in x.get('inner', ()):
            walk(c)
    walk(n)
    return res


def same(old, new):
    """Loops of the same kinds and nesting, which change no further variables."""
    return len(old) == len(new) and all(a[0] == b[0] and set(b[1]) <= set(a[1]) and same(a[2], b[2]) for a, b in zip(old, new))


def show(loops):
    return ' '.join('%s(%s)%s' % (k, ','.join(v), '{%s}' % show(i) if i else '') for k, v, i in loops) or 'none'


def of(world, key):
    return shape(world.funcs[key][1]) if key in world.funcs else []


def recorded():
    try:
        return json.load(open(FILE))
    except (OSError, ValueError):
        return {}


def main():
    sys.path.insert(0, os.path.join(HERE, 'tool'))
    import contracts
    import cppast
    from cxx2why import World
    book = contracts.read()
    res = {}
    for label in ('src', 'single'):
        w = World(cppast.load(label), book.fns)
        res[label] = {k: of(w, k) for k in sorted(book.fns) if of(w, k)}
    with open(FILE, 'w') as f:
        f.write('{%s}\n' % ',\n'.join('%s: {\n%s\n}' % (json.dumps(l), ',\n'.join('  %s: %s' % (json.dumps(k), json.dumps(v)) for k, v in d.items()))
                                     for l, d in res.items()))


if __name__ == '__main__':
    main()
