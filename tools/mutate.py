#!/usr/bin/env python3
"""Mutation campaign over the code under test (used to look for gaps in the checks; no check runs it).

mutate.py gen REPO > mutants.jsonl              list single-line mutants of REPO's sources
mutate.py run REPO SCRATCH mutants.jsonl OUT.jsonl [--workers N] [--time S] [--pick RE] [--shard i/n]
Every mutant is compiled in SCRATCH (never in REPO), the simulations are run on it with one seed for a few
seconds per property, and the first property that reports a violation is written down; mutants nobody reports
are listed as "survived"."""
import sys, os, re, json, subprocess, shutil, argparse, hashlib, threading, queue, glob, time
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))

FILES = """src/adjacency.cpp src/async_blockilu_factor.cpp src/async_ilu_factor.cpp src/blockmatrices.ipp
src/bsrmatrix.cpp src/coomatrix.cpp src/dynamic_array_list.hpp src/helper_algorithms.cpp src/helper_algorithms.hpp
src/ilu_pattern.cpp src/levelschedule.cpp src/matrix_properties.cpp src/rawsrmatrixutils.cpp
src/relaxation_chaotic.cpp src/reorderingscaling.cpp src/sai.cpp src/sai.hpp src/scmatrix.cpp src/solverfactory.cpp
src/solverops_base.cpp src/solverops_ilu0.cpp src/solverops_jacobi.cpp src/solverops_levels_ilu0.cpp
src/solverops_levels_sgs.cpp src/solverops_sai.cpp src/solverops_sgs.cpp
src/blas/blas1.cpp src/blas/matvecs.cpp src/blas/matvecs.hpp src/kernels/kernels_ilu0_factorize.hpp
src/kernels/kernels_ilu_apply.hpp src/kernels/kernels_relaxation.hpp src/kernels/kernels_sgs.hpp
src/utils/prefix_sum.cpp include/arrayview.hpp include/linearoperator.hpp include/solverops_ilu0.hpp
include/solverops_base.hpp include/solverops_jacobi.hpp include/solverops_sgs.hpp include/solverops_levels_sgs.hpp
include/solverops_levels_ilu0.hpp include/blockmatrices.hpp include/srmatrixdefs.hpp include/scmatrixdefs.hpp
include/relaxation_chaotic.hpp include/coomatrix.hpp include/reorderingscaling.hpp src/blasted_petsc.cpp
src/utils/blasted_petsc_io.cpp src/utils/cmdoptions.cpp include/blasted_petsc_ext.hpp""".split()

ORDER = {
 'solverops_jacobi': [2,11,1,5,6], 'solverops_sgs_sai': [17,12], 'sai': [17], 'solverops_sgs': [1,11,2,6,10],
 'solverops_levels': [3,10], 'levelschedule': [3], 'async_ilu': [5,6,4,10,14], 'async_blockilu': [5,6,4,10,14],
 'solverops_ilu0': [4,5,6,10], 'blockmatrices': [7,18,8], 'bsrmatrix': [7,18], 'coomatrix': [8,12,9],
 'scmatrix': [15,7,10], 'reorderingscaling': [16,9,8], 'ilu_pattern': [5,4], 'matrix_properties': [14,10,5],
 'rawsrmatrixutils': [9,8,15,18], 'relaxation_chaotic': [11,1], 'adjacency': [9], 'helper': [4,5,9],
 'matvecs': [7,15], 'blas1': [7], 'prefix_sum': [9,15], 'kernels_ilu_apply': [6,4], 'kernels_ilu0': [4,5],
 'kernels_relax': [2,11], 'kernels_sgs': [1,11], 'blasted_petsc_io': [20], 'cmdoptions': [20], 'blasted_petsc': [19], 'arrayview': [18], 'srmatrixdefs': [18], 'solverfactory': [10,13],
}
ALL = list(range(1, 21))

def strip_comments(src):
    """mask comments and string literals with spaces, keep offsets"""
    out = list(src); i = 0; n = len(src)
    while i < n:
        if src.startswith('//', i):
            while i < n and src[i] != '\n': out[i] = ' '; i += 1
        elif src.startswith('/*', i):
            j = src.find('*/', i); j = n if j < 0 else j + 2
            for k in range(i, j):
                if out[k] != '\n': out[k] = ' '
            i = j
        elif src[i] == '"':
            j = i + 1
            while j < n and src[j] != '"': j += 2 if src[j] == '\\' else 1
            for k in range(i, min(j + 1, n)): out[k] = ' ' if k not in (i, j) else '"'
            i = j + 1
        else: i += 1
    return ''.join(out)

RULES = [
 ('lt-le', r'(?<![<\-=#])<(?![<=])(?=[^<>;]*;[^;]*\))', '<='), ('le-lt', r'<=', '<'), ('gt-ge', r'(?<=\s)>(?=[=\s]?[^>=&*])(?!=)', '>='),
 ('ge-gt', r'>=', '>'), ('eq-ne', r'==', '!='), ('ne-eq', r'!=', '=='), ('and-or', r'&&', '||'), ('or-and', r'\|\|', '&&'),
 ('pluseq', r'\+=', '-='), ('minuseq', r'-=', '+='), ('pluseq-set', r'[+\-*/]=', '='),
 ('plus1', r'\+\s*1\b', ''), ('minus1', r'(?<=[\w\])])\s*-\s*1\b', ''), ('plus-minus', r'(?<=[\w\])])\s*\+\s*(?=[\w(])', '-'),
 ('minus-plus', r'(?<=[\w\])])\s*-\s*(?=[\w(])(?!>)', '+'), ('mul-div', r'(?<=[\w\])])\s*\*\s*(?=[\w(])', '/'), ('mul-add', r'(?<=[\w\])])\s*\*\s*(?=[\w(])', '+'),
 ('div-mul', r'(?<=[\w\])])\s*/\s*(?=[\w(])', '*'),
 ('zero-one', r'(?<![\w.\]])0(?![\w.])', '1'), ('one-zero', r'(?<![\w.\]])1(?![\w.])', '0'), ('f1-0', r'(?<![\w.])1\.0\b', '0.0'), ('f0-1', r'(?<![\w.])0\.0\b', '1.0'),
 ('true', r'\btrue\b', 'false'), ('false', r'\bfalse\b', 'true'), ('abs', r'std::abs', ''), ('not', r'(?<=\()!(?=[\w(])', ''),
 ('incr', r'\+\+', '--'), ('diag+1', r'(diagind\[[^\]]*\])', r'(\1+1)'), ('diag-row', r'\bdiagind\[', 'browptr['), ('end-next', r'browendptr\[(\w+)\]', r'browptr[\1+1]'),
 ('row-col', r'\bRowMajor\b', 'ColMajor'), ('max-min', r'std::max', 'std::min'), ('min-max', r'std::min(?!us)', 'std::max'),
 ('sqrt', r'std::sqrt', ''), ('inv', r'\.inverse\(\)', ''), ('transpose', r'\.transpose\(\)', ''), ('noalias', r'\bFORWARD\b', 'INVERSE'), ('inv-fwd', r'\bINVERSE\b', 'FORWARD'),
 ('const-false-if', r'\bif\s*\((?=.*\)\s*\{?\s*$)', 'if(false && '), ('if-true', r'\bif\s*\((?=.*\)\s*\{?\s*$)', 'if(true || '),
 ('ij', r'\[i\]', '[j]'), ('ji', r'\[j\]', '[i]'), ('brk', r'\bbreak\b', 'continue'), ('delarr', r'delete\s*\[\]\s*\w+;', ';'),
]

def gen(repo):
    seen = set()
    for f in FILES:
        p = os.path.join(repo, f)
        if not os.path.exists(p): continue
        src = open(p).read(); lines = src.split('\n'); masked = strip_comments(src).split('\n')
        def emit(ln, kind, new):
            if new == lines[ln]: return None
            key = (f, ln, new)
            if key in seen: return None
            seen.add(key)
            return {'id': hashlib.sha1(repr(key).encode()).hexdigest()[:10], 'file': f, 'line': ln + 1, 'kind': kind, 'old': lines[ln], 'new': new}
        for ln, m in enumerate(masked):
            s = m.strip()
            if not s or s.startswith('template') or s.startswith('using') or s.startswith('namespace') or 'static_assert' in s: continue
            r = []
            if s.startswith('#'):
                if s.startswith('#pragma omp'):
                    l = lines[ln]
                    if 'simd' in s and 'for' not in s: continue
                    if 'parallel for' not in s: r.append(emit(ln, 'omp-del', ''))  # otherwise only serialised
                    if 'nowait' in s: r.append(emit(ln, 'omp-wait', l.replace('nowait', '')))
                    elif re.search(r'\b(for|single|sections)\b', s) and 'parallel' not in s: r.append(emit(ln, 'omp-nowait', l + ' nowait'))
                    for c in re.findall(r'(?:private|firstprivate|lastprivate|reduction|if|num_threads|schedule)\([^)]*\)', s):
                        if c.startswith('schedule'): continue
                        r.append(emit(ln, 'omp-clause', l.replace(c, '')))
                    if 'single' in s: r.append(emit(ln, 'omp-master', re.sub(r'single', 'master', l)))
                for x in r:
                    if x: yield x
                continue
            for kind, pat, rep in RULES:
                for mm in re.finditer(pat, m):
                    new = lines[ln][:mm.start()] + mm.expand(rep) + lines[ln][mm.end():]
                    if kind in ('const-false-if', 'if-true'):
                        # the closing parenthesis stays where it is: a && (b || c) needs none, "true || x" neither
                        pass
                    r.append(emit(ln, kind, new))
            if s.endswith(';') and not re.match(r'(return|const|int|double|scalar|index|using|typedef|public|private|std::vector|std::string|bool|break|continue|friend|virtual|extern|static|throw|ext)\b', s) \
               and not re.match(r'[\w:<>,\s*&]+\s+[\w]+\s*(=|;|\()', s) and s.count('(') == s.count(')') and s.count('{') == s.count('}'):
                r.append(emit(ln, 'del', re.match(r'\s*', lines[ln]).group(0) + ';'))
            if re.match(r'throw\b', s) and s.endswith(';'): r.append(emit(ln, 'nothrow', ';'))
            for x in r:
                if x: yield x

LIBF = "-std=c++14 -O2 -g1 -fopenmp -fsanitize=thread -msse4.2 -DEIGEN_DONT_PARALLELIZE -UNDEBUG -U_FORTIFY_SOURCE -w".split()
SIMF = "-std=c++17 -O2 -g1 -fopenmp -fno-strict-aliasing -U_FORTIFY_SOURCE -w".split()
WRAP = ['-Wl,--wrap=' + s for s in "malloc calloc realloc free posix_memalign aligned_alloc memcpy memmove memset pthread_mutex_lock pthread_mutex_unlock pthread_mutex_trylock pthread_rwlock_rdlock pthread_rwlock_wrlock pthread_rwlock_unlock pthread_once".split()]

def prep(repo, scratch):
    base = scratch + '/base'
    if not os.path.exists(base + '/simrun'):
        subprocess.check_call(['bash', HERE + '/sim/build.sh', base, repo])
    # dependencies
    deps = {}
    for o in glob.glob(base + '/lib/*.o'):
        b = os.path.basename(o)[:-2]
        if b.startswith('utils_') and not b.endswith('.cpp'): s = repo + '/src/utils/' + b[6:] + '.cpp'
        elif b == 'blasted_petsc': s = repo + '/src/blasted_petsc.cpp'
        elif b == 'sut_shim': s = HERE + '/sim/sut_shim.cpp'
        else:
            for d in ('', 'blas/', 'utils/'):
                t = repo + '/src/' + d + (b[len(d):] if d and b.startswith(d[:-1] + '_') else b)
                if os.path.exists(t): s = t
        r = subprocess.check_output(['g++', '-MM', '-std=c++14', '-fopenmp', '-I' + repo + '/include', '-I' + repo + '/src', '-I' + HERE + '/sim/petsc/include', '-isystem', '/usr/include/eigen3', s], text=True)
        deps[b] = (s, [os.path.realpath(x) for x in r.replace('\\\n', ' ').split()[1:]])
    return base, deps

def worker(k, a, base, deps, q, out, lock):
    w = f'{a.scratch}/w{k}'
    shutil.rmtree(w, ignore_errors=True); os.makedirs(w)
    shutil.copytree(a.repo + '/src', w + '/repo/src'); shutil.copytree(a.repo + '/include', w + '/repo/include')
    rr = os.path.realpath(a.repo)
    while True:
        try: m = q.get_nowait()
        except queue.Empty: return
        f = m['file']; p = f'{w}/repo/{f}'; orig = open(f'{a.repo}/{f}').read()
        L = orig.split('\n')
        assert L[m['line'] - 1] == m['old']
        L[m['line'] - 1] = m['new']
        open(p, 'w').write('\n'.join(L))
        res = dict(m); t0 = time.time()
        try:
            objs = []; bad = False; same = True
            for b, (s, d) in deps.items():
                o = f'{base}/lib/{b}.o'
                if os.path.realpath(f'{rr}/{f}') in d:
                    src = s if s.startswith(HERE) else s.replace(a.repo, w + '/repo', 1)
                    no = f'{w}/{b}.o'
                    r = subprocess.run(['g++', *LIBF, f'-I{w}/repo/include', f'-I{w}/repo/src', '-I' + HERE + '/sim/petsc/include', '-I/usr/include/eigen3', '-c', src, '-o', no], stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL)
                    if r.returncode: bad = True; break
                    o = no
                objs.append(o)
            if bad: res['result'] = 'nocompile'
            else:
                r = subprocess.run(['ld', '-r', '--force-group-allocation', '-d', '-T', HERE + '/sim/sut.ld', '-o', w + '/sut.o', *objs], stderr=subprocess.PIPE)
                r2 = subprocess.run(['g++', '-no-pie', '-o', w + '/simrun', w + '/sut.o', *sorted(glob.glob(base + '/sim/*.o')), *WRAP], stderr=subprocess.PIPE)
                if r.returncode or r2.returncode: res['result'] = 'nolink'
                else:
                    order = []
                    for key, ps in ORDER.items():
                        if os.path.basename(f).startswith(key): order += ps
                    order += [x for x in ALL if x not in order]
                    if a.props: order = [int(x) for x in a.props.split(',')]
                    res['result'] = 'survived'
                    for pr in order:
                        of = f'{w}/out.json'
                        if os.path.exists(of): os.remove(of)
                        try:
                            r = subprocess.run([w + '/simrun', 'run', '--prop', f'P{pr:02d}', '--seed', str(a.seed), '--runs', '10000000', '--time', str(a.time), '--worker', '0', '--nworkers', '1', '--out', of],
                                               stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL, timeout=a.time * 3 + 25)
                            try: d = json.load(open(of))
                            except Exception: d = None
                            if d is None: res['result'] = 'killed'; res['by'] = f'P{pr:02d}'; res['how'] = f'crash rc={r.returncode}'; break
                            if d['violation']: res['result'] = 'killed'; res['by'] = f'P{pr:02d}'; res['how'] = d['cls']; res['n'] = d['runs']; res['msg'] = d['msg'][:160]; break
                        except subprocess.TimeoutExpired:
                            res['result'] = 'killed'; res['by'] = f'P{pr:02d}'; res['how'] = 'hang'; break
        finally:
            open(p, 'w').write(orig)
        res['secs'] = round(time.time() - t0, 1)
        with lock:
            out.write(json.dumps(res) + '\n'); out.flush()

def main():
    if sys.argv[1] == 'gen':
        for m in gen(sys.argv[2]): print(json.dumps(m))
        return
    ap = argparse.ArgumentParser(); ap.add_argument('cmd'); ap.add_argument('repo'); ap.add_argument('scratch'); ap.add_argument('mutants'); ap.add_argument('out')
    ap.add_argument('--workers', type=int, default=8); ap.add_argument('--time', type=float, default=3); ap.add_argument('--pick'); ap.add_argument('--seed', type=int, default=1)
    ap.add_argument('--props'); ap.add_argument('--sample', type=float, default=1)
    a = ap.parse_args()
    os.makedirs(a.scratch, exist_ok=True)
    base, deps = prep(a.repo, a.scratch)
    done = set()
    if os.path.exists(a.out):
        for l in open(a.out): done.add(json.loads(l)['id'])
    q = queue.Queue()
    for l in open(a.mutants):
        m = json.loads(l)
        if m['id'] in done: continue
        if a.pick and not re.search(a.pick, m['file'] + ' ' + m['kind']): continue
        if a.sample < 1 and int(m['id'][:6], 16) / float(1 << 24) > a.sample: continue
        q.put(m)
    print(q.qsize(), 'mutants', flush=True)
    lock = threading.Lock()
    with open(a.out, 'a') as out:
        ts = [threading.Thread(target=worker, args=(k, a, base, deps, q, out, lock)) for k in range(a.workers)]
        [t.start() for t in ts]; [t.join() for t in ts]
main()
