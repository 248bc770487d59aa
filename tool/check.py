"""Translate the cone of a set of contracted functions, split the verification
conditions with Why3 and discharge them with a portfolio of SMT solvers."""
import concurrent.futures as cf
import hashlib
import os
import re
import resource
import shutil
import subprocess
import sys
import tempfile
import time

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(HERE, 'tool'))
import cppast  # noqa: E402
import contracts  # noqa: E402
import prelude  # noqa: E402
from cxx2why import World, Fn, E, LV  # noqa: E402
from cppast import Unsupported  # noqa: E402
import vcsplit  # noqa: E402
import prune  # noqa: E402

DRIVERS = {'z3': '/usr/share/why3/drivers/z3_487.drv', 'cvc5': '/usr/share/why3/drivers/cvc5.drv'}
SOLVERS = [
    ('z3-new', lambda t, f: ['z3-new', '-smt2', '-T:%d' % t, f]),
    ('cvc5', lambda t, f: ['cvc5', '--tlimit=%d' % (t * 1000), f]),
    ('z3', lambda t, f: ['z3', '-smt2', '-T:%d' % t, f]),
]
SORT = '''
  (* std::sort / std::list::sort with the comparator %(c)s *)
'''


class Result:
    def __init__(self):
        self.goals = []       # dicts: fn, file, status, solver, time, loc, text
        self.errors = {}      # fn key -> reason it could not be translated / attached
        self.fns = []
        self.mlw = None
        self.per_fn = {}
        self.vc_time = 0.0
        self.why3_section = None
        self.solver_time = {}
        self.trusted = []


def build(world, book, keys, with_specs=None):
    """WhyML text for the cone of keys, the functions in it and errors."""
    texts, order, errors = {}, [], {}
    linked = {}

    def visit(k, stack):
        if k in linked:
            return
        if k in stack:
            raise Unsupported('recursion through %s' % k)
        if k not in world.funcs:
            errors[k] = 'function %s not found in the code' % k
            linked[k] = 1
            return
        c = book.fns[k]
        c2 = contracts.Contract(k)
        c2.__dict__.update(c.__dict__)
        c2.clauses = [(a, book.expand(t, world.lits)) for a, t in c.clauses]
        c2.loops = []
        for lp in c.loops:
            l2 = contracts.Loop()
            l2.locals = lp.locals
            l2.clauses = [(a, book.expand(t, world.lits)) for a, t in lp.clauses]
            c2.loops.append(l2)
        c2.hints = []
        for nm, lp in c.hints:
            l2 = contracts.Loop()
            l2.locals = lp.locals
            l2.clauses = [(a, book.expand(t, world.lits)) for a, t in lp.clauses]
            c2.hints.append((nm, l2))
        if c.ghost_exit:
            c2.ghost_exit = book.expand(c.ghost_exit, world.lits)
        try:
            f = Fn(world, k, c2)
            t = f.translate()
            if f.attach_errors:
                errors[k] = '; '.join(f.attach_errors)
            texts[k] = t
        except Unsupported as ex:
            errors[k] = 'outside the translated subset: %s' % ex
        except (KeyError, IndexError, AttributeError, TypeError, ValueError) as ex:
            errors[k] = 'extraction failed: %s %s' % (type(ex).__name__, ex)
        for d in sorted(world.calls.get(k, ())):
            visit(d, stack + [k])
        linked[k] = 1
        order.append(k)
    for k in keys:
        visit(k, [])
    body = []
    for k in order:
        if k in errors:
            # keep callers typable: assume nothing but the contract's shape
            continue
        body.append((k, texts[k]))
    return body, order, errors


def sorts_needed(body):
    need = set()
    for _, t in body:
        need |= set(re.findall(r'\b(nodes|strs)_sort_(\w+)', t))
    return need


def mark_requires(t):
    """Library preconditions, marked as such (contracts.mark)."""
    out, i = [], 0
    for m in re.finditer(r'requires \{\s*(\[@[^\]]*\])?', t):
        if m.start() < i:
            continue
        d, k = 1, m.end()
        while d:
            d += {'{': 1, '}': -1}.get(t[k], 0)
            k += 1
        out.append('%s%s pm_safe -> (%s) }' % (t[i:m.start()], m.group(), t[m.end():k - 1].strip()))
        i = k
    return ''.join(out) + t[i:]


def assemble(world, book, body):
    specs = [(n, book.expand(t, world.lits)) for n, t, f, u in book.specs]
    secs = [('prelude', prelude.prelude())]
    secs.append(('constants', world.const_decls()))
    secs.append(('state', world.state_decls()))
    secs.append(('literals', world.lits.render()))
    for n, t in specs:
        secs.append(('spec:' + n, t + '\n'))
    secs.append(('callbacks', world.extern_decls()))
    for k, t in body:
        secs.append(('fn:' + k, t))
    secs.append(('', 'end\n'))
    secs = [(n, mark_requires(t) if n in ('prelude', 'state', 'callbacks') else t) for n, t in secs]
    pms = sorted(set(re.findall(r'\bpm_\w+', ''.join(t for _, t in secs))))
    decl = '  (* labels *)\n' + ''.join('  predicate %s\n  axiom %s_holds: %s\n' % (x, x, x) for x in pms) + \
        '  function vr (x: int) : int\n  axiom vr_id: forall x: int [vr x]. vr x = x\n'
    n, t = secs[0]
    secs[0] = (n, re.sub(r'(\n(?:  use [^\n]*\n)+)', lambda m: m.group() + decl, t, 1))
    out, spans, line = [], [], 1
    for n, t in secs:
        if not t.endswith('\n'):
            t += '\n'
        c = t.count('\n')
        spans.append((line, line + c - 1, n))
        line += c
        out.append(t)
    return ''.join(out), spans


class Solver:
    """Discharge goals: first in batches with one incremental solver run each,
    then every goal left alone with the portfolio."""

    def __init__(self, workdir, plan, cache=None, jobs=8, first=2500, deadline=None):
        self.dir, self.plan, self.cache, self.jobs, self.first = workdir, plan, cache, jobs, first
        self.deadline = deadline      # no goal is started later: "skipped"
        self.n = 0

    def key(self, g):
        return hashlib.sha256((g['head'] + g['script']).encode()).hexdigest()

    def batch(self, gs):
        i = self.n
        self.n += 1
        path = os.path.join(self.dir, 'batch%d.smt2' % i)
        head = gs[0]['head']
        if head:
            head = prune.prune(head, ''.join(g['script'] for g in gs), gs[0].get('without', ()))
        out = [head, '(set-option :timeout %d)\n' % self.first]
        for j, g in enumerate(gs):
            out.append('(push)\n%s(echo "G%d")\n(check-sat)\n(pop)\n' % (g['script'], j))
        with open(path, 'w') as f:
            f.write(''.join(out))
        p = subprocess.Popen(['z3-new', '-smt2', path], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
        t = time.time()
        cur = None
        for line in p.stdout:
            line = line.strip()
            m = re.match(r'^G(\d+)$', line)
            if m:
                cur = gs[int(m.group(1))]
                cur['status'] = 'unknown'
                t = time.time()
            elif cur is not None and not line.startswith('WARNING'):
                cur['time'] += time.time() - t
                cur['tries'].append(('z3-new', line[:120], round(time.time() - t, 2)))
                if line == 'unsat':
                    cur['status'], cur['solver'] = 'unsat', 'z3-new'
                elif line.startswith('(error'):
                    cur['status'] = 'error:' + line[:200]
                cur = None
        p.wait()
        os.unlink(path)

    def late(self):
        return self.deadline is not None and time.time() > self.deadline

    def alone(self, g):
        if self.late():
            g['status'] = 'skipped'
            return
        path = os.path.join(self.dir, 'goal%d.smt2' % g['id'])
        with open(path, 'w') as f:
            f.write('(set-logic ALL)\n' + g['head'] + g['script'] + '(check-sat)\n')
        g['file'] = full = path
        pruned = None
        if g['head']:
            pruned = full[:-5] + 'p.smt2'
            with open(pruned, 'w') as f:
                f.write('(set-logic ALL)\n' + prune.prune(g['head'], g['script'], g.get('without', ())) + g['script'] + '(check-sat)\n')
        for i, t in self.plan:
            path = pruned if i >= 10 and pruned else full
            nm, cmd = SOLVERS[i % 10]
            t0 = time.time()
            # t seconds of processor time: the verdict does not depend on the load
            try:
                r = subprocess.run(cmd(4 * t, path), stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=4 * t + 5,
                                   preexec_fn=lambda: resource.setrlimit(resource.RLIMIT_CPU, (t, t + 1))).stdout.decode()
            except subprocess.TimeoutExpired:
                r = 'timeout'
            if not r.strip():
                r = 'timeout'
            dt = time.time() - t0
            g['time'] += dt
            first = [x for x in r.strip().split('\n') if x.strip() and not x.startswith('WARNING')] or ['']
            first = first[0].strip()
            g['tries'].append((nm, first[:120], round(dt, 2)))
            if first == 'unsat':
                g['status'], g['solver'] = 'unsat', nm
                for f in (full, pruned):
                    if f:
                        os.unlink(f)
                return
            if first.startswith('(error') and 'timeout' not in first and 'interrupted' not in first and nm != 'cvc5':
                g['status'] = 'error:' + first[:200]
            elif first == 'sat':
                g['status'] = 'sat'
        if g['status'] == 'unsat':
            g['status'] = 'unknown'
        if g['status'] == 'unknown' and not self.late():
            self.by_cases(g, full)
        if pruned:
            os.unlink(pruned)

    def by_cases(self, g, path):
        cs = vcsplit.cases(g['script'])
        f = path[:-5] + 'k.smt2'
        head = '(set-logic ALL)\n' + (prune.prune(g['head'], g['script'], g.get('without', ())) if g['head'] else '')
        used = set()
        for c in cs:
            with open(f, 'w') as o:
                o.write(head + c + '(check-sat)\n')
            for nm, cmd in SOLVERS[:3]:
                t0 = time.time()
                try:
                    r = subprocess.run(cmd(40, f), stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=45,
                                       preexec_fn=lambda: resource.setrlimit(resource.RLIMIT_CPU, (25, 26))).stdout.decode()
                except subprocess.TimeoutExpired:
                    r = ''
                g['time'] += time.time() - t0
                if 'unsat' in [x.strip() for x in r.split('\n')]:
                    used.add(nm)
                    break
            else:
                g['tries'].append(('cases', '%d of %d' % (cs.index(c), len(cs)), 0))
                return
        if cs:
            g['status'], g['solver'] = 'unsat', '+'.join(sorted(used))
            for x in (f, path):
                os.unlink(x)

    def solve(self, goals, size=10):
        todo = []
        for g in goals:
            g.update(status='unknown', solver='-', time=0.0, tries=[])
            if self.cache:
                p = os.path.join(self.cache, self.key(g))
                if os.path.exists(p):
                    g['status'], g['solver'] = 'unsat', open(p).read()
                    continue
            todo.append(g)
        for i, g in enumerate(goals):
            g['id'] = i
        groups = {}
        for g in todo:
            groups.setdefault(id(g['head']), []).append(g)
        batches = []
        for gs in groups.values():
            batches += [gs[i:i + size] for i in range(0, len(gs), size)]
        with cf.ThreadPoolExecutor(self.jobs) as ex:
            list(ex.map(self.batch, batches))
            left = [g for g in todo if g['status'] != 'unsat']
            list(ex.map(self.alone, left))
        if self.cache:
            for g in todo:
                if g['status'] == 'unsat':
                    open(os.path.join(self.cache, self.key(g)), 'w').write(g['solver'])


def why3(args, timeout=300):
    p = subprocess.run(['why3', 'prove'] + args, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=timeout,
                       preexec_fn=lambda: resource.setrlimit(resource.RLIMIT_AS, (6 << 30, 6 << 30)))
    return p.returncode, '\n'.join(x for x in p.stdout.decode().split('\n') if x and not x.startswith('Warning,'))


def vcs_of(mlw, names, outdir, sp, without):
    """The verification conditions of some functions, taken apart: name -> (goals, error)."""
    d = tempfile.mkdtemp(dir=outdir)
    args = (['--debug', 'vc_sp'] if sp else []) + ['-a', 'simplify_formula', '-D', DRIVERS['z3'], '-o', d, mlw, '-T', 'P']
    for n in names:
        args += ['-G', n + "'vc"]
    rc, out = why3(args)
    if rc != 0:
        if len(names) == 1:
            return {names[0]: (None, out)}
        r = {}
        for n in names:
            r.update(vcs_of(mlw, [n], outdir, sp, without))
        return r
    r = {}
    for n in names:
        f = os.path.join(d, "m-P-%sqtvc.smt2" % n)
        if not os.path.exists(f):
            r[n] = (None, 'no verification condition for %s' % n)
            continue
        head, gs = vcsplit.split(open(f).read())
        os.unlink(f)
        p = vcsplit.Printer()
        res = [dict(goal=n + "'vc", head=head, script=p.script(c, g), concl=vcsplit.text(g), tags=t, without=without.get(n, ())) for c, g, t in gs]
        if res:
            # contexts whose hypotheses must not be contradictory
            res[0]['probes'] = [p.script(gs[i][0], 'false') for i in sorted({0, len(gs) // 3, 2 * len(gs) // 3, len(gs) - 1})]
        r[n] = (res, None)
    return r


def lemma_goals(mlw, names, outdir):
    d = os.path.join(outdir, '_lemmas')
    os.makedirs(d)
    args = ['-a', 'split_vc', '-a', 'split_vc', '-D', DRIVERS['z3'], '-o', d, mlw, '-T', 'P']
    for n in names:
        args += ['-G', n]
    rc, out = why3(args)
    if rc != 0:
        return None, out
    res = []
    for f in sorted(os.listdir(d)):
        t = open(os.path.join(d, f)).read()
        g = re.findall(r';; Goal "([^"]*)"', t)[-1]
        t = '\n'.join(l for l in t.split('\n') if not l.startswith(';'))
        res.append(dict(goal=g, head='', script=t[:t.rindex('(check-sat)')], concl=''))
    return res, None


def run(world, book, keys, workdir, plan, only=None, lemmas='all', cache=None, jobs=8, size=10, deadline=None):
    """Verify functions (contract names in `only`, or the whole cone of keys)."""
    res = Result()
    t0 = time.time()
    body, order, errors = build(world, book, keys)
    res.errors = errors
    mlw, spans = assemble(world, book, body)
    path = os.path.join(workdir, 'm.mlw')
    open(path, 'w').write(mlw)
    res.mlw = path
    res.order = order
    res.text = mlw
    names = {}
    for k, _ in body:
        names[book.fns[k].name] = k
    rc, out = why3(['--type-only', path])
    if rc != 0:
        m = re.search(r'line (\d+)', out)
        sec = section_of(spans, int(m.group(1))) if m else '?'
        res.errors['why3'] = '%s: %s' % (sec, out[:1500])
        res.why3_section = sec
        return res
    d = os.path.join(workdir, 'vc')
    shutil.rmtree(d, ignore_errors=True)
    os.makedirs(d)
    todo = [n for n in names if only is None or n in only]
    lem = []
    for n, t in sections(world, book):
        if lemmas == 'all' or (lemmas == 'spec' and n.startswith('spec:')):
            lem += re.findall(r'^  lemma (\w+)', t, re.M)
            lem += [x + "'vc" for x in re.findall(r'^  let (?:rec )?(?:function |predicate |lemma )?(\w+) ', t, re.M)
                    if x not in ('constant', 'function', 'ghost', 'predicate')]
    goals = []
    with cf.ThreadPoolExecutor(jobs) as ex:
        lf = ex.submit(lemma_goals, path, lem, d) if lem else None
        # the largest functions first
        size_of = dict((book.fns[k].name, len(t)) for k, t in body)
        todo.sort(key=lambda n: -size_of[n])
        without = dict((n, tuple(book.fns[names[n]].without)) for n in todo)
        groups = []
        for wp in (False, True):
            ns = [n for n in todo if bool(book.fns[names[n]].wp) == wp]
            groups += [(ns[i::jobs], wp) for i in range(jobs) if ns[i::jobs]]
        vcs = {}
        for r in ex.map(lambda g: vcs_of(path, g[0], d, not g[1], without), groups):
            vcs.update(r)
        for n in todo:
            gs, err = vcs[n]
            if err:
                res.errors[names[n]] = err[:1500]
                continue
            res.per_fn[n] = gs
            goals += gs
        if lf:
            gs, err = lf.result()
            if err:
                res.errors['lemmas'] = err[:1500]
            else:
                goals += gs
    res.vc_time = time.time() - t0
    s = Solver(workdir, plan, cache, jobs, deadline=deadline)
    s.solve([g for g in goals if g['head']], size)
    s2 = Solver(workdir, plan, cache, jobs, deadline=deadline)
    ls = [g for g in goals if not g['head']]
    for g in ls:
        g['head'] = ''
    s2.solve(ls, 1)
    for g in goals:
        g['fn'] = names.get(g['goal'][:-3]) if g['goal'].endswith("'vc") else None
    res.goals = goals
    res.names = names
    shutil.rmtree(d, ignore_errors=True)
    return res


def sections(world, book):
    yield 'prelude', prelude.prelude()
    for n, t, f, u in book.specs:
        yield 'spec:' + n, t


def section_of(spans, line):
    for a, b, n in spans:
        if a <= line <= b:
            return n
    return '?'


if __name__ == '__main__':
    import argparse
    ap = argparse.ArgumentParser()
    ap.add_argument('fns', nargs='*', help='contract names (default: all)')
    ap.add_argument('--label', default='src')
    ap.add_argument('-t', type=int, default=5)
    ap.add_argument('-w', default='/tmp/w/c')
    ap.add_argument('--only', action='store_true', help='only the named functions, not their cone')
    ap.add_argument('--lemmas', default='none', choices=['none', 'spec', 'all'])
    ap.add_argument('--nocache', action='store_true')
    ap.add_argument('--wp', action='store_true')
    ap.add_argument('--probe', action='store_true')
    a = ap.parse_args()
    os.makedirs(a.w, exist_ok=True)
    cache = '/tmp/w/cache'
    os.makedirs(cache, exist_ok=True)
    t0 = time.time()
    book = contracts.read()
    tus = cppast.load(a.label)
    world = World(tus, book.fns)
    keys = [k for k, c in book.fns.items() if not a.fns or c.name in a.fns]
    if a.wp:
        for k in keys:
            book.fns[k].wp = True
    t1 = time.time()
    r = run(world, book, keys, a.w, [(10, a.t), (11, a.t), (12, a.t), (0, a.t)], a.fns if a.only else None, a.lemmas, None if a.nocache else cache)
    for k, v in r.errors.items():
        print('ERROR', k, v)
    bad = 0
    per = {}
    for g in r.goals:
        st = per.setdefault(g['goal'], [0, 0, 0.0])
        st[0] += 1
        st[2] += g['time']
        if g['status'] == 'unsat':
            st[1] += 1
        else:
            bad += 1
            print('%s %s %s  |- %s' % (g['status'], g['goal'], g.get('file'), g['concl'][-200:]))
    if a.probe:
        import prop
        print('vacuous:', prop.vacuity(r, None, a.w, 5, 8))
    for k, v in per.items():
        if v[1] != v[0] or v[2] > 5:
            print('%-40s %d/%d %.1fs' % (k, v[1], v[0], v[2]))
    print('goals', len(r.goals), 'bad', bad, 'ast %.1f vc %.1f wall %.1f' % (t1 - t0, r.vc_time, time.time() - t0))
