"""Search for a failing input: real library (ASan, UBSan) against the reference
model of concrete/model.h, on random histories; shrinking and attribution of the
mismatches to properties."""
import concurrent.futures as cf
import os
import re
import subprocess
import sys

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SAN = ['-fsanitize=address,undefined', '-fno-sanitize=float-cast-overflow', '-fno-sanitize-recover=undefined', '-D_GLIBCXX_ASSERTIONS']
ENV = dict(os.environ, ASAN_OPTIONS='detect_leaks=0:abort_on_error=0', UBSAN_OPTIONS='print_stacktrace=1', LC_ALL='C')
FAST = dict(ENV, ASAN_OPTIONS='detect_leaks=0:abort_on_error=0:detect_stack_use_after_return=0:malloc_context_size=1:quarantine_size_mb=16:max_malloc_fill_size=0')


class BuildError(Exception):
    pass


def build(repo, out, single=False):
    """Compile the engine with the library of the working tree."""
    os.makedirs(out, exist_ok=True)
    src = [] if single else sorted(os.path.join(repo, 'src', f) for f in os.listdir(os.path.join(repo, 'src')) if f.endswith('.cpp'))
    units = [os.path.join(HERE, 'concrete', 'engine.cpp')] + src
    last = ''
    for cxx in ('clang++', 'g++'):
        def comp(u):
            o = os.path.join(out, os.path.basename(u) + '.o')
            cmd = [cxx, '-std=c++17', '-O1', '-g', '-w'] + SAN + ['-I', os.path.join(repo, 'include')]
            if cxx == 'g++':
                cmd.remove('-fno-sanitize=float-cast-overflow')
            if single:
                cmd += ['-DSINGLE', '-DVERIF_SINGLE="%s"' % os.path.join(repo, 'single_include/blet/args.h')]
            p = subprocess.run(cmd + ['-c', u, '-o', o], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
            return p.returncode, p.stdout, o
        with cf.ThreadPoolExecutor(6) as ex:
            rs = list(ex.map(comp, units))
        if all(r[0] == 0 for r in rs):
            e = os.path.join(out, 'engine')
            p = subprocess.run([cxx] + [x for x in SAN if cxx != 'g++' or 'float' not in x] + [r[2] for r in rs] + ['-o', e],
                               stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
            if p.returncode == 0:
                for r in rs:
                    os.unlink(r[2])
                return e
            last = p.stdout
        else:
            last = '\n'.join(r[1] for r in rs if r[0])
    raise BuildError(last[-2000:])


def search(engine, seed, secs, out, workers):
    os.makedirs(out, exist_ok=True)
    err = open(os.path.join(out, 'stderr.txt'), 'ab')
    ps = [subprocess.Popen([engine, '--search', str(seed * 64 + w), str(secs), out, str(w)], stdout=subprocess.PIPE, stderr=err, env=FAST, text=True)
          for w in range(workers)]
    done = 0
    for p in ps:
        o = p.communicate()[0]
        m = re.search(r'DONE (\d+)', o)
        if m:
            done += int(m.group(1))
    err.close()
    fs = sorted(os.path.join(out, f) for f in os.listdir(out) if f.endswith('.script'))
    return done, fs


def execute(engine, path):
    """(kind, message, signature) of the first mismatch, or None."""
    try:
        p = subprocess.run([engine, '--script', path], stdout=subprocess.PIPE, stderr=subprocess.PIPE, env=ENV, timeout=60)
        out, err, rc = p.stdout.decode('utf8', 'replace'), p.stderr.decode('utf8', 'replace'), p.returncode
    except subprocess.TimeoutExpired:
        return None
    m = re.search(r'^MISMATCH (.*) @@ (.*)$', out, re.M)
    if m:
        return m.group(2).split('|')[0], m.group(1), m.group(2)
    if out.rstrip().endswith('END'):
        return None
    m = re.search(r'(ERROR: AddressSanitizer: [\w-]+|runtime error: [^\n]*)', err)
    frames = re.findall(r'#\d+ \S+ in (blet::[^\n(]*)', err)
    if m:
        msg = m.group(1)
    elif rc in (-24, -9, 137, 152):
        msg = 'the call does not end'
    elif rc == 0:
        msg = 'the process ended inside the call (exit)'
    else:
        msg = 'the process died (status %d) %s' % (rc, err.strip()[:200])
    return 'crash', msg + (' in ' + frames[0] if frames else ''), 'crash|' + re.sub(r'\d+', 'N', msg)[:60] + (frames[0] if frames else '')


def read(path):
    return [l.split() for l in open(path, encoding='utf8') if l.strip() and not l.startswith('#')]


def write(path, s):
    with open(path, 'w', encoding='utf8') as f:
        f.write(''.join(' '.join(l) + '\n' for l in s))


MINARGS = {'parse': 2, 'add': 1, 'remove': 1, 'defaults': 2, 'vector': 0, 'check': 99, 'valid': 99, 'validkeep': 99, 'dest': 99, 'flag': 99,
           'action': 99, 'nargs': 99, 'width': 99}


def shrink(engine, path, sig, budget=400):
    """Smallest history found with the same mismatch."""
    tmp = path + '.tmp'
    best = read(path)
    n = [0]

    def still(s):
        if n[0] >= budget:
            return False
        n[0] += 1
        write(tmp, s)
        r = execute(engine, tmp)
        return r is not None and r[0] == sig[0] and (sig[0] != 'crash' or r[2] == sig[2])
    changed = True
    while changed and n[0] < budget:
        changed = False
        for i in range(len(best) - 1, -1, -1):
            if i < len(best):
                c = best[:i] + best[i + 1:]
                if c and still(c):
                    best, changed = c, True
        for i in range(len(best)):
            l = best[i]
            lo = MINARGS.get(l[0], 99)
            if l[0] == 'parse':
                lo = 1
            j = len(l) - 1
            while j >= 1 and len(l) > 1 + lo:
                if j > (1 if l[0] in ('parse', 'defaults') else 0):
                    c = best[:i] + [l[:j] + l[j + 1:]] + best[i + 1:]
                    if still(c):
                        best, changed = c, True
                        l = best[i]
                j -= 1
        # simpler words
        for i in range(len(best)):
            if best[i][0] in ('help', 'description', 'epilog') and len(best[i][-1]) > 30:
                l = best[i][:-1] + [best[i][-1][:len(best[i][-1]) // 2].rstrip('%0123456789')]
                c = best[:i] + [l] + best[i + 1:]
                if still(c):
                    best, changed = c, True
    if os.path.exists(tmp):
        os.unlink(tmp)
    return best


def unq(w):
    return '' if w == '%_' else re.sub(r'%([0-9a-f]{2})', lambda m: chr(int(m.group(1), 16)), w)


def attribute(s, kind, msg):
    """The properties a (shrunk) failing history concerns."""
    last = s[-1][0] if s else ''
    t = set()
    base = kind.split('.')[0]
    obs = kind.split('.')[-1]
    if kind == 'crash':
        t.add('C22')
    if base == 'add':
        t |= {'C03', 'C04'}
    if base == 'flag':
        t |= {'C03', 'C04'}
    if base == 'remove':
        t |= {'C05', 'C04'}
    if base == 'clear':
        t.add('C05')
    if base == 'config':
        t.add('C06')
        if obs == 'registry':
            t.add('C04')
        if obs in ('value', 'defaults', 'additional'):
            t.add('C07')
    if base == 'conv':
        t.add('C17')
    if base in ('defaults', 'values') or obs == 'defaults':
        t.add('C07')
    if base == 'dest' or (base == 'crash' and last == 'dest'):
        t.add('C18')
        if obs == 'array':
            t.add('C23')
        if obs in ('registry',):
            t.add('C04')
        if obs == 'kind':
            t.add('C06')
        if obs in ('defaults', 'value'):
            t.add('C07')
    if kind == 'valid.owner':
        t |= {'C15', 'C22'}
    if base == 'builtin':
        t.add('C16')
    if base == 'vector' or (kind == 'crash' and last == 'vector'):
        t.add('C21')
    if kind == 'crash':
        t |= {'add': {'C03', 'C04'}, 'flag': {'C03', 'C04'}, 'remove': {'C05', 'C04'}, 'clear': {'C05'}, 'action': {'C06'}, 'nargs': {'C06', 'C07'},
              'defaults': {'C07'}, 'usage': {'C20'}, 'check': {'C16'}, 'valid': {'C15'}, 'required': {'C19'}}.get(last, set())
    if (kind == 'crash' or base == 'config') and any(l[0] == 'remove' for l in s):
        t |= {'C04', 'C05'}
    if (kind == 'crash' or base == 'config') and any(l[0] == 'clear' for l in s):
        t.add('C05')
    if base == 'usage' or kind == 'clear.usage':
        t.add('C20')
        words = [l for l in s if l[0] in ('add', 'flag', 'required')]
        if len(words) > 1:
            t |= {'C19'}
        if any(l[0] == 'defaults' for l in s):
            t.add('C07')
    if last != 'parse':
        if any(l[0] == 'parse' for l in s) and base not in ('usage', 'conv'):
            t.add('C13')
        return t
    # a parse
    words = [unq(w) for w in s[-1][2:]]
    opts = [l for l in s if l[0] == 'add' and len(l) > 1 and (l[1].startswith('-') or len(l) > 2)]
    poss = [l for l in s if l[0] == 'add' and len(l) == 2 and not l[1].startswith('-')]
    acts = [l[2] for l in s if l[0] == 'action' and len(l) > 2]
    nargs = [l[2] for l in s if l[0] == 'nargs' and len(l) > 2]
    short = [w for w in words if len(w) > 1 and w[0] == '-' and w[1] != '-']
    longs = [w for w in words if len(w) > 2 and w.startswith('--')]
    if 'vector' not in kind and base != 'usage':
        if '--' in words:
            t |= {'C01', 'C11'}
        if any('=' in w for w in short + longs):
            t.add('C02')
        if '-' in words or any(w in ('--', '') for w in words):
            t.add('C01')
        if any(len(w.split('=')[0]) > 2 for w in short):
            t.add('C09')
        alt = any(l[0] == 'alt' for l in s)
        if longs or (alt and short):
            t.add('C10')
        if poss or obs == 'additional' or any(l[0] == 'strict' for l in s):
            t.add('C11')
        if '7' in acts or '6' in acts or '43' in nargs:
            t.add('C12')
        if (short or longs) and opts:
            t.add('C08')
        if not (short or longs or poss) and not t:
            t.add('C01')
        if any(l[0] == 'parse' for l in s[:-1]) or (base == 'parse' and any(l[0] == 'defaults' for l in s)):
            t.add('C13')
        if base == 'parse' and any(l[0] == 'defaults' for l in s):
            t.add('C07')
        if base == 'parse' and any(l[0] == 'remove' for l in s):
            t |= {'C04', 'C05'}
        if base == 'parse' and any(l[0] == 'flag' for l in s):
            t.add('C04')
    if any(l[0] == 'required' for l in s) or re.search(r'Required|Help|Version|required|exit', msg + kind):
        t.add('C14')
    vals = [l[2] for l in s if l[0] in ('valid', 'validkeep') and len(l) > 2]
    if vals or 'Valid' in msg or 'valid' in kind:
        t.add('C15')
        if any(v in ('number', 'minmax', 'choice', 'path', 'file', 'dir') for v in vals):
            t.add('C16')
    ds = [l[2] for l in s if l[0] == 'dest' and len(l) > 2]
    if ds:
        t.add('C18')
        if any(re.match(r'char\d', d) for d in ds):
            t.add('C23')
    if 'C22' in t or kind in ('parse.safety',):
        t.add('C22')
    # kind errors show up when an option of this kind is parsed
    if base == 'parse' and acts + nargs and obs in ('kind',):
        t.add('C06')
    return t


def triage(engine, files, limit=16, per=2):
    """Distinct mismatches, shrunk: dicts tags, script, message."""
    seen, picked = {}, []
    with cf.ThreadPoolExecutor(8) as ex:
        rs = list(ex.map(lambda f: (f, execute(engine, f)), files[:160]))
    for f, r in rs:
        if r is None:
            continue
        if seen.setdefault(r[2], 0) < per and len(picked) < limit:
            seen[r[2]] += 1
            picked.append((f, r))
    res = []

    def one(fr):
        f, r = fr
        s = shrink(engine, f, (r[0], r[1], r[2]))
        p = f + '.min'
        write(p, s)
        q = execute(engine, p) or r
        return dict(tags=sorted(attribute(s, q[0], q[1])), script=s, message=q[1], kind=q[0], sig=q[2])
    with cf.ThreadPoolExecutor(8) as ex:
        res = list(ex.map(one, picked))
    return res


if __name__ == '__main__':
    import argparse
    import tempfile
    ap = argparse.ArgumentParser()
    ap.add_argument('--repo', default='/repo')
    ap.add_argument('--secs', type=float, default=10)
    ap.add_argument('--seed', type=int, default=1)
    ap.add_argument('--single', action='store_true')
    a = ap.parse_args()
    d = tempfile.mkdtemp()
    e = build(a.repo, d, a.single)
    n, fs = search(e, a.seed, a.secs, os.path.join(d, 'found'), 8)
    print(n, 'histories', len(fs), 'mismatching')
    for r in triage(e, fs):
        print(r['tags'], r['message'])
        for l in r['script']:
            print('     ', ' '.join(l))
    import shutil
    shutil.rmtree(d)
