"""Check of one property:  prop.py Cxx

Decides with the verifier (contracts on the real code, extracted on this run),
then looks for a failing input on the real code. Exit 0 or 1 (VIOLATION line)."""
import concurrent.futures as cf
import json
import os
import re
import shutil
import subprocess
import sys
import tempfile
import time
import traceback

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(HERE, 'tool'))
import check  # noqa: E402
import concrete  # noqa: E402
import contracts  # noqa: E402
import cppast  # noqa: E402
import props  # noqa: E402
import skeleton  # noqa: E402
from cxx2why import World  # noqa: E402

REPO = cppast.REPO
PLAN_QUICK = [(11, 4), (0, 5), (10, 10), (12, 10), (11, 10), (0, 10), (10, 40)]
PLAN_THOROUGH = [(10, 30), (11, 30), (12, 30), (0, 30), (10, 120), (2, 60)]


def prove(pid, work, thorough, jobs):
    """Result of the verifier on the cone of the property, per product."""
    label = props.LABEL.get(pid, 'src')
    book = contracts.read()
    tus = cppast.load(label)
    world = World(tus, book.fns)
    owned = [k for k, c in book.fns.items() if pid in c.props or label == 'single' or pid == 'C22']
    plan = PLAN_THOROUGH if thorough else PLAN_QUICK
    missing = [k for k in owned if k not in world.funcs]
    keys = [k for k in owned if k in world.funcs]
    d = os.path.join(work, 'vc')
    os.makedirs(d, exist_ok=True)
    t0 = time.time()
    r = check.run(world, book, keys, d, plan, None, 'all' if thorough else 'spec', None, jobs, deadline=t0 + (500 if thorough else 330))
    for k in missing:
        r.errors[k] = 'function not found in the code'
    if not r.errors or 'why3' not in r.errors:
        # functions with failing obligations: once more with the other generator
        bad = {g['fn'] for g in r.goals if g['status'] != 'unsat' and g['fn']}
        if bad:
            book2 = contracts.read()
            for k in bad:
                book2.fns[k].wp = not book2.fns[k].wp
            d2 = os.path.join(work, 'vc2')
            os.makedirs(d2, exist_ok=True)
            names = [book.fns[k].name for k in bad]
            try:
                r2 = check.run(World(tus, book2.fns), book2, keys, d2, plan, names, 'none', None, jobs,
                               deadline=t0 + (650 if thorough else 450)).goals
            except (subprocess.SubprocessError, OSError, ValueError):
                r2 = []
            for k in bad:
                gs = [g for g in r2 if g['fn'] == k]
                if gs and all(g['status'] == 'unsat' for g in gs):
                    r.goals = [g for g in r.goals if g['fn'] != k] + gs
    return r, book, owned, world


# what C22 says about the objects: alive and owned, once
OWNERSHIP = re.compile(r'^\(\s*(reg_nodes|reg_special|reg_valid|valids_alive)\s')


def belongs(pid, g, book, owned):
    """Whether a failed obligation is one of the property: its clause is
    labelled with it, or is not labelled and its function carries it. Calls'
    needs and measures of loops count for the properties of the function and
    for C22, which consists of them."""
    fn = g['fn']
    if fn is None:
        return pid in props.lemma_owner(g['goal'])
    if fn not in owned:
        return False
    tags = set(g.get('tags') or ())
    if pid == 'C22':
        return bool(tags & {'safe', 'ends'}) or bool(OWNERSHIP.match(g['concl']))
    labels = tags - {'safe', 'ends'}
    return pid in labels or pid == 'C24' or not labels


def vacuity(r, owned, work, secs, jobs):
    """Functions all of whose sampled contexts are contradictory."""
    todo = [(n, gs[0]['head'], gs[0]['probes']) for n, gs in r.per_fn.items() if gs and 'probes' in gs[0]]
    count = []

    def one(x):
        i, (n, h, ps) = x
        f = os.path.join(work, 'probe%d.smt2' % i)
        bad = True
        for s in reversed(ps):
            open(f, 'w').write('(set-logic ALL)\n' + h + s + '(check-sat)\n')
            p = subprocess.run(['z3-new', '-smt2', '-T:%d' % secs, f], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
            count.append(n)
            if p.stdout.strip().split('\n')[0] != 'unsat':
                bad = False
                break
        os.unlink(f)
        return n, bad
    with cf.ThreadPoolExecutor(jobs) as ex:
        return [n for n, bad in ex.map(one, enumerate(todo)) if bad], len(count)


def trusted(text):
    """What the proof rests on, counted from the text given to the verifier."""
    ax = re.findall(r'^  axiom (\w+)', text, re.M)
    vals = re.findall(r'^  val (?:function |predicate |ghost |constant )*(\w+)', text, re.M)
    return ax, vals


TRUST = [
    'Why3 1.6.0 (typing, weakest preconditions, SMT-LIB printer), z3 4.8.12 and 4.13, cvc5 1.1.2',
    'tool/cxx2why.py: translation of the clang AST of the current sources to WhyML (semantics of the C++ subset, exceptions, overloads, implicit conversions resolved by clang)',
    'tool/vcsplit.py: splitting of verification conditions',
    'tool/prelude.py: models of std::string, std::vector, std::list, std::map, streams, libc (strtod, stat, memcpy, strchr, toupper); their axioms and contracts are assumed, the functions they have bodies for are verified in the thorough run',
    'std::sort and std::list::sort: assumed to sort (stably for the list) when the comparator is a strict weak order, which is proved (C19)',
    'user code (IValid subclasses, destination functions): a validator is a function of its arguments and does not touch the Args object; allocation does not fail',
    'one Args object: its arguments belong to no other one; argc >= 1, argv[0..argc) are valid C strings shorter than 2^62',
    'floating point values are uninterpreted; sizes are machine integers (overflow is modelled), strings shorter than 2^62',
]


def main():
    pid = sys.argv[1]
    thorough = os.environ.get('VERIF_TIER') == 'thorough' or '--thorough' in sys.argv
    seed = int(os.environ.get('VERIF_SEED', '1') or '1')
    t0 = time.time()
    work = tempfile.mkdtemp(prefix='verif_%s_' % pid)
    try:
        rc = decide(pid, thorough, seed, work, t0)
    finally:
        shutil.rmtree(work, ignore_errors=True)
    sys.stdout.flush()
    sys.exit(rc)


def known(pid, engine, work):
    out = []
    for l in open(os.path.join(HERE, 'known', 'FINDINGS')):
        m = re.match(r'open: property=(\w+) id=(\w+) history=(\S+) (.*)', l)
        if m and m.group(1) == pid and engine:
            p = subprocess.run([engine, '--script', os.path.join(HERE, m.group(3))], stdout=subprocess.PIPE, stderr=subprocess.PIPE,
                               env=concrete.ENV, timeout=60)
            if ('KNOWN ' + m.group(2)) in p.stderr.decode():
                out.append('%s (history %s)' % (m.group(4).strip(), m.group(3)))
    return out


def decide(pid, thorough, seed, work, t0):
    single = props.LABEL.get(pid) == 'single'
    secs = (180 if thorough else 12) * (0.5 if single else 1)

    def conc():
        e = concrete.build(REPO, os.path.join(work, 'eng'), single)
        n, fs = concrete.search(e, seed, secs, os.path.join(work, 'found'), 8 if thorough else 4)
        return e, n, fs
    ex = cf.ThreadPoolExecutor(1)
    fut = ex.submit(conc)
    res = err = None
    try:
        res, book, owned, world = prove(pid, work, thorough, 8)
    except (cppast.Unsupported, subprocess.SubprocessError, OSError, ValueError, KeyError, IndexError, TypeError, AttributeError) as x:
        err = 'extraction failed: %s: %s' % (type(x).__name__, str(x)[:500])
        if os.environ.get('VERIF_DEBUG'):
            traceback.print_exc()
    engine = None
    histories, files, conc_note = 0, [], ''
    try:
        engine, histories, files = fut.result()
    except (concrete.BuildError, OSError, subprocess.SubprocessError) as x:
        conc_note = 'no search for a failing input: the engine does not build: %s' % str(x)[-600:]
        print('note: ' + conc_note)
    failed, undecided, vac = [], [], []
    if res is None:
        undecided.append(err)
    else:
        for k, v in res.errors.items():
            undecided.append('%s: %s' % (k, v))
        if not res.errors:
            for g in res.goals:
                if g['status'] == 'unsat':
                    continue
                if g['status'] == 'skipped':
                    undecided.append('%s: not tried, no time left' % name_of(res, g))
                    continue
                failed.append((belongs(pid, g, book, owned), g))
            if not res.goals:
                undecided.append('no obligations')
            vac, nprobe = vacuity(res, owned, work, 10 if thorough else 2, 8)
            for n in vac:
                undecided.append('%s: contradictory hypotheses' % n)
    # --- concrete side
    hits = []
    if engine:
        if (failed or undecided) and not files:
            n, files = concrete.search(engine, seed + 1000, 60 if failed else 40, os.path.join(work, 'found2'), 8)
            histories += n
        if files:
            hits = concrete.triage(engine, files)
            # an exhausted shrink may hide another mismatch: look at more of them
            if not any(pid in h['tags'] for h in hits):
                n, more = concrete.search(engine, seed + 2000, 40, os.path.join(work, 'found3'), 8)
                histories += n
                hits += concrete.triage(engine, more, 24, 3)
    mine = [h for h in hits if pid in h['tags'] or pid == 'C24']
    # invariants are annotations of the loops they were written for
    other = set()
    if failed and not mine:
        rec = skeleton.recorded().get(props.LABEL.get(pid, 'src'), {})
        for k in sorted({g['fn'] for _, g in failed if g['fn']}):
            old, now = rec.get(k, []), skeleton.of(world, k)
            if not skeleton.same(old, now):
                other.add(k)
                undecided.append('%s: its loops are not those the invariants were written for (%s; they were %s); %d obligations open' %
                                 (k, skeleton.show(now), skeleton.show(old), len([1 for _, g in failed if g['fn'] == k])))
        failed = [(o and g['fn'] not in other, g) for o, g in failed]
    own_failed = [g for o, g in failed if o]
    if failed and not mine and hits and not own_failed:
        # an obligation of the cone fails; the failing input concerns other properties
        pass
    rc = 0
    violations = 0
    kf = known(pid, engine, work)
    for k in kf:
        print('KNOWN-FINDING: property=%s %s' % (pid, k))
    rep = os.path.join(HERE, 'out', pid)
    shutil.rmtree(rep, ignore_errors=True)
    if mine or own_failed:
        os.makedirs(rep, exist_ok=True)
    for o, g in failed:
        print('obligation not discharged: %s%s' % (name_of(res, g), '' if o else ' (function of the cone)'))
    for u in undecided:
        print('undecided: %s' % u.replace('\n', ' ')[:400])
    if mine:
        h = mine[0]
        path = os.path.join(rep, 'failing.script')
        with open(path, 'w') as f:
            f.write('# %s: %s\n' % (pid, h['message']))
            f.write('# replay: python3 tool/replay.py %s\n' % os.path.relpath(path, HERE))
            if single:
                f.write('# product: single_include\n')
            for g in own_failed[:5]:
                f.write('# obligation not discharged: %s\n' % name_of(res, g))
            f.write(''.join(' '.join(l) + '\n' for l in h['script']))
        for x in mine[:3]:
            print('failing input: ' + x['message'])
            for l in x['script']:
                print('    ' + ' '.join(l))
        violations = len(mine)
        print('VIOLATION property=%s replay=%s' % (pid, path))
        rc = 1
    elif own_failed:
        path = os.path.join(rep, 'obligations.txt')
        with open(path, 'w') as f:
            f.write('Obligations of property %s which the unchanged code discharges and this code does not.\n' % pid)
            for g in own_failed:
                f.write('\n== %s\nfunction: %s\nconclusion: %s\n' % (name_of(res, g), g['fn'], g['concl'][-3000:]))
                for t in g['tries']:
                    f.write('  %s answered "%s" after %ss\n' % t)
            f.write('\n%d random histories run on the real code: no failing input found\n' % histories)
        violations = len(own_failed)
        print('VIOLATION property=%s replay=%s no-failing-input-found' % (pid, path))
        rc = 1
    evidence(pid, thorough, seed, res, owned if res else [], failed, undecided, histories, hits, kf, rc, violations, conc_note, t0)
    st = 'violated' if rc else ('proved' if not failed and not undecided else 'bounded: no failing input among %d histories' % histories)
    n = len(res.goals) if res else 0
    print('%s %s: %d/%d obligations, %d histories, %.0f s' % (pid, st, n - len(failed), n, histories, time.time() - t0))
    return rc


def name_of(res, g):
    k = '%s' % g['goal']
    return k + ' of ' + g['fn'] if g.get('fn') else k


def evidence(pid, thorough, seed, res, owned, failed, undecided, histories, hits, kf, rc, violations, conc_note, t0):
    os.makedirs(os.path.join(HERE, 'evidence'), exist_ok=True)
    ok = res is not None and not failed and not undecided
    e = dict(property=pid, tier='thorough' if thorough else 'quick', seed=seed, level='proof' if ok else 'other', violations=violations)
    goals = res.goals if res else []
    by = {}
    secs = {}
    fns = {}
    for g in goals:
        if g['status'] == 'unsat':
            by[g['solver']] = by.get(g['solver'], 0) + 1
        secs[g['solver']] = secs.get(g['solver'], 0) + g['time']
        f = fns.setdefault(g['fn'] or 'lemmas', [0, 0])
        f[0] += 1
        f[1] += g['status'] == 'unsat'
    cov = {}
    if ok:
        ax, vals = trusted(res.text)
        cov = dict(obligations=len(goals), discharged=len(goals) - len(failed),
                   checker_cmd='python3 tool/prop.py %s  (why3 prove; z3-new, cvc5, z3)' % pid,
                   trusted_base=TRUST + ['%d axioms and %d contracts without body in the text given to Why3 (library models, class state, definitions of specification predicates)' % (len(ax), len(vals))])
    else:
        cov = dict(explanation='not decided by the verifier on this tree (%d of %d obligations open; %s); bounded check: %d random histories compared with the reference model' %
                   (len(failed), len(goals), '; '.join(u[:300] for u in undecided) or 'no extraction error', histories))
    cov['functions_under_contract'] = {k: dict(obligations=v[0], discharged=v[1], carries_the_property=k in owned) for k, v in sorted(fns.items())}
    cov['discharged_by'] = by
    cov['solver_seconds'] = {k: round(v, 1) for k, v in secs.items()}
    cov['replay_search'] = dict(histories=histories, mismatching=len(hits), bound='random histories, seed %d; only used to attach a failing input and as a stand-in where extraction fails' % seed, note=conc_note)
    cov['known_findings'] = kf
    e['coverage'] = cov
    e['assumptions'] = TRUST + props.ASSUME.get(pid, [])
    e['wall_s'] = round(time.time() - t0, 1)
    with open(os.path.join(HERE, 'evidence', pid + '.json'), 'w') as f:
        json.dump(e, f, indent=1)


if __name__ == '__main__':
    main()
