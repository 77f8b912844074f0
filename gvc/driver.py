"""Builds contract harnesses from /repo's current tree and runs the three readings."""
import os, sys, json, time, subprocess, shutil, tempfile, re, traceback, hashlib
from concurrent.futures import ProcessPoolExecutor, as_completed

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get('GA_REPO', '/repo')
sys.path.insert(0, os.path.join(VERIF, 'gvc'))

MPIINC = ['/usr/lib/x86_64-linux-gnu/openmpi/include']


def incs(work):
    d = ['ma', 'LinAlg/lapack+blas', 'global/src', 'global/testing', 'gparrays', 'pario/dra', 'pario/eaf', 'pario/elio',
         'pario/sf', 'gaf2c', 'tcgmsg', 'tcgmsg/tcgmsg-mpi', 'comex/src-armci', 'comex/src-common']
    return (['-DHAVE_CONFIG_H', '-I' + os.path.join(work, 'gen'), '-I' + os.path.join(VERIF, 'cfg'),
             '-I' + os.path.join(VERIF, 'gvc'), '-I' + os.path.join(VERIF, 'specs'), '-I' + REPO] +
            ['-I' + os.path.join(REPO, x) for x in d] + ['-I' + x for x in MPIINC])


def gen_headers(work):
    g = os.path.join(work, 'gen')
    os.makedirs(g, exist_ok=True)
    for src, out, pfx in (('global/src/ga-papi.h', 'ga', 'pnga_'), ('gparrays/gp-papi.h', 'gp', 'pgp_')):
        p = os.path.join(REPO, src)
        if not os.path.exists(p):
            continue
        t = open(p).read()
        w = re.sub('PAPI', 'WAPI', t)
        w = w.replace('pnga_', 'wnga_').replace('pgp_', 'wgp_')
        w = '\n'.join(l for l in w.split('\n') if 'typedef' not in l)
        open(os.path.join(g, out + '-wapi.h'), 'w').write(w + '\n')
        o = []
        for l in t.split('\n'):
            l = l.replace('PAPI', 'WAPIDEFS')
            l = re.sub(r'^.*p(n?g[ap]_.*)\(.*$', r'#define w\1 p\1', l) if out == 'ga' else re.sub(r'^.*p(gp_.*)\(.*$', r'#define w\1 p\1', l)
            if l.startswith(' ') or l.startswith('/*') or l.startswith(' *') or 'typedef' in l:
                continue
            o.append(l)
        open(os.path.join(g, out + '-wapidefs.h'), 'w').write('\n'.join(o) + '\n')


def sh(cmd, timeout=300, **kw):
    try:
        return subprocess.run(cmd, capture_output=True, text=True, timeout=timeout, **kw)
    except subprocess.TimeoutExpired as e:
        return subprocess.CompletedProcess(cmd, 124, (e.stdout or b'').decode('latin1') if isinstance(e.stdout, bytes) else (e.stdout or ''), 'timeout')


class BuildError(Exception):
    pass


def build_gvc(work, src, entry, defs=()):
    """-> (goto.json, symtab.json) for one entry of a harness file"""
    b = os.path.join(work, re.sub(r'\W', '_', os.path.basename(src)) + '__' + entry)
    r = sh(['goto-cc', '-std=gnu17', '-w', '-DVS_GVC'] + list(defs) + incs(work) + ['--function', entry, os.path.join(VERIF, 'specs', src), '-o', b + '.gb'])
    if r.returncode or not os.path.exists(b + '.gb'):
        raise BuildError('goto-cc %s: %s' % (src, (r.stderr + r.stdout)[-1500:]))
    r = sh(['goto-instrument', '--drop-unused-functions', b + '.gb', b + '.d.gb'])
    for flag, out in (('--show-goto-functions', '.f.json'), ('--show-symbol-table', '.s.json')):
        with open(b + out, 'w') as fh:
            subprocess.run(['goto-instrument', '--json-ui', flag, b + '.d.gb'], stdout=fh, stderr=subprocess.DEVNULL, timeout=300)
    return b


def build_native(work, src, defs=(), asan=True):
    out = os.path.join(work, re.sub(r'\W', '_', os.path.basename(src)) + '.' + hashlib.md5(repr(defs).encode()).hexdigest()[:6] + '.exe')
    o1 = out + '.o'
    san = ['-fsanitize=address', '-fno-omit-frame-pointer'] if asan else []
    r = sh(['gcc', '-std=gnu17', '-w', '-g', '-O1', '-fno-strict-aliasing', '-DVS_NATIVE'] + san + list(defs) + incs(work) + ['-c', os.path.join(VERIF, 'specs', src), '-o', o1])
    if r.returncode:
        raise BuildError('gcc %s: %s' % (src, r.stderr[-1500:]))
    o2 = os.path.join(work, 'vs_native%d.o' % asan)
    if not os.path.exists(o2):
        tmp = o2 + '.%d' % os.getpid()
        r = sh(['gcc', '-std=gnu17', '-w', '-g', '-O1'] + san + ['-I' + os.path.join(VERIF, 'gvc'), '-c', os.path.join(VERIF, 'gvc', 'vs_native.c'), '-o', tmp])
        os.rename(tmp, o2)
    r = sh(['gcc'] + san + [o1, o2, '-o', out, '-lm', '-lpthread', '-no-pie', '-Wl,--unresolved-symbols=ignore-all'])
    if r.returncode:
        raise BuildError('link %s: %s' % (src, r.stderr[-1500:]))
    os.unlink(o1)
    return out


SIM_GA = ['base', 'onesided', 'iterator', 'nbutil', 'global.util', 'datatypes', 'decomp', 'collect', 'ga_malloc', 'elem_alg', 'global.npatch',
          'global.nalg', 'global.periodic', 'ghosts', 'select', 'hsort.scat', 'matmul', 'sparse', 'capi', 'DP', 'ga_symmetr', 'thread-safe', 'matrix',
          'sparse.array', 'ga_trace', 'sclstubs', 'peigstubs', 'ga_solve_seq', 'ga_diag_seqc', 'fapi', 'sketch', 'mtwister']


def build_sim(work, port='ts', asan=True, np=8):
    """the real library (GA, ARMCI layer, ComEx port) as np private shared objects for the in-process simulator"""
    from concurrent.futures import ThreadPoolExecutor
    d = os.path.join(work, 'sim-' + port + ('' if asan else '-plain'))
    os.makedirs(d, exist_ok=True)
    san = ['-fsanitize=address', '-fno-omit-frame-pointer'] if asan else []
    base = ['gcc', '-std=gnu17', '-w', '-g1', '-O1', '-fPIC', '-fno-strict-aliasing', '-fvisibility=default'] + san
    # the simulated library has room for 2048 arrays instead of 32768 (a capacity constant; a start up would otherwise touch 60 MB per rank)
    cap = []
    try:
        t = open(os.path.join(REPO, 'global/src/gaconfig.h')).read()
        t2 = re.sub(r'(?m)^(#define\s+MAX_(?:ARRAYS|MUTEXES)\s+)\d+', r'\g<1>2048', t)
        open(os.path.join(work, 'gen', 'sim_gaconfig.h'), 'w').write(t2)
        cap = ['-include', os.path.join(work, 'gen', 'sim_gaconfig.h')]
    except OSError:
        pass
    jobs = [(base + incs(work) + cap + ['-c', os.path.join(REPO, 'global/src', f + '.c')], 'ga_' + f) for f in SIM_GA if os.path.exists(os.path.join(REPO, 'global/src', f + '.c'))]
    jobs.append((base + incs(work) + (['-DSIM_PR'] if port == 'pr' else []) + ['-c', os.path.join(VERIF, 'gvc/sim/sim_ma.c')], 'sim_ma'))
    jobs.append((base + incs(work) + ['-c', os.path.join(REPO, 'gaf2c/gaf2c.c')], 'gaf2c'))
    ci = ['-DHAVE_CONFIG_H', '-I' + os.path.join(VERIF, 'cfg', 'c' + port)] + ['-I' + os.path.join(REPO, 'comex', x) for x in ('src-armci', 'src-common', 'src-mpi' if port == 'ts' else 'src-mpi-pr')] + ['-I' + x for x in MPIINC]
    # operating system services of the progress rank port are those of the simulator
    redirect = ['-D%s=sim_%s' % (f, f) for f in ('shm_open', 'shm_unlink', 'ftruncate', 'mmap', 'munmap', 'close', 'sem_open', 'sem_close', 'sem_post', 'sem_wait', 'sem_unlink', 'gethostname', 'fstatfs', 'exit', 'getpid', 'sched_setaffinity', 'pthread_setaffinity_np')] + ['-U_FORTIFY_SOURCE'] if port == 'pr' else []
    for dd in ('src-armci', 'src-mpi' if port == 'ts' else 'src-mpi-pr'):
        for f in sorted(os.listdir(os.path.join(REPO, 'comex', dd))):
            if f.endswith('.c') and f != 'hello.c':
                jobs.append((base + ci + redirect + ['-c', os.path.join(REPO, 'comex', dd, f)], dd + '_' + f[:-2]))
    shared = os.path.join(work, 'sim-obj' + ('' if asan else '-plain'))
    os.makedirs(shared, exist_ok=True)

    def cc(j):
        # the objects of GA itself do not depend on the port
        o = os.path.join(shared if j[1][:3] in ('ga_', 'gaf') else d, j[1] + '.o')
        r = sh(j[0] + ['-o', o]) if not os.path.exists(o) else subprocess.CompletedProcess([], 0)
        return o, r
    with ThreadPoolExecutor(8) as ex:
        rs = list(ex.map(cc, jobs))
    for o, r in rs:
        if r.returncode:
            raise BuildError('sim %s: %s' % (os.path.basename(o), r.stderr[-800:]))
    so = os.path.join(d, 'libsim.so')
    r = sh(['gcc', '-shared', '-Wl,-Bsymbolic', '-Wl,-z,lazy'] + (['-Wl,--wrap=comex_malloc', '-Wl,--wrap=comex_free'] if port == 'ts' else []) + san + [o for o, _ in rs] + ['-lm', '-o', so])
    if r.returncode:
        raise BuildError('sim link: ' + r.stderr[-1500:])
    for i in range(np):
        shutil.copy(so, os.path.join(d, 'libsim_%d.so' % i))
    r = sh(['gcc', '-std=gnu17', '-w', '-g', '-O1'] + san + (['-DSIM_PR'] if port == 'pr' else []) + ['-I' + os.path.join(VERIF, 'gvc')] + ['-I' + x for x in MPIINC] + ['-c', os.path.join(VERIF, 'gvc/sim/sim_mpi.c'), '-o', os.path.join(d, 'sim_mpi.o')])
    if r.returncode:
        raise BuildError('sim mpi: ' + r.stderr[-800:])
    for o, _ in rs:
        if os.path.dirname(o) == d:
            os.unlink(o)
    return d


def build_simexe(work, simdir, src, defs=(), asan=True):
    out = os.path.join(simdir, re.sub(r'\W', '_', os.path.basename(src)) + '.' + hashlib.md5(repr(defs).encode()).hexdigest()[:6] + '.exe')
    san = ['-fsanitize=address', '-fno-omit-frame-pointer'] if asan else []
    nat = os.path.join(simdir, 'vs_native.%s.o' % os.path.basename(out))
    for c, o in ((os.path.join(VERIF, 'specs', src), out + '.o'), (os.path.join(VERIF, 'gvc', 'vs_native.c'), nat)):
        r = sh(['gcc', '-std=gnu17', '-w', '-g', '-O1', '-fno-strict-aliasing', '-DVS_NATIVE'] + san + list(defs) + ['-I' + os.path.join(VERIF, 'gvc', 'sim')] + incs(work) + ['-c', c, '-o', o])
        if r.returncode:
            raise BuildError('gcc %s: %s' % (c, r.stderr[-1500:]))
    r = sh(['gcc', '-rdynamic'] + san + [out + '.o', nat, os.path.join(simdir, 'sim_mpi.o'), '-o', out, '-lm', '-ldl', '-lpthread', '-no-pie', '-Wl,--unresolved-symbols=ignore-all'])
    if r.returncode:
        raise BuildError('link %s: %s' % (src, r.stderr[-1500:]))
    return out


_cache = {}


def gvc_job(b, entry, cases, opts, label):
    """run one proof case in this process"""
    import gvc
    t0 = time.time()
    res = {'label': label, 'cases': cases, 'undecided': None, 'obl': [], 'time': 0}
    try:
        import resource
        lim = int(opts.get('mem', 6) * (1 << 30))
        resource.setrlimit(resource.RLIMIT_AS, (lim, lim))
    except Exception:
        pass
    eng = None
    try:
        gb = gvc.load(b + '.f.json', b + '.s.json')
        o = dict(opts)
        if 'unit' in o:
            sys.path.insert(0, os.path.join(VERIF, 'specs'))
            import units
            for u in units.UNITS:
                if (u['prop'], u['name']) == o['unit']:
                    o['invs'] = u.get('invs', [])
        o['deadline'] = min(time.time() + opts.get('budget', 120), opts.get('wall', 1e18))
        eng = gvc.Engine(gb, cases, o)
        eng.main(entry)
    except gvc.Undecided as e:
        res['undecided'] = '%s: %s' % (type(e).__name__, e)
    except StopIteration:
        pass
    except MemoryError:
        res['undecided'] = 'memory'
    except Exception as e:
        res['undecided'] = 'engine: %s: %s' % (type(e).__name__, e)
        if os.environ.get('GVC_TRACE'):
            traceback.print_exc()
    if eng is not None:
        res['obl'] = eng.obl
        res['assumed'] = {k: sorted(v) for k, v in eng.assumed.items()}
        res['funcs'] = sorted(eng.used_funcs)
        res['invs'] = dict(eng.used_invs)
        # loop invariants of the specification that found no loop: what is refuted without them says nothing about the code
        cut = {k.rsplit(':', 1)[0] for k in eng.used_invs}
        named = {f for f in eng.used_funcs if any(re.fullmatch(v.get('func', '.*'), f) for v in eng.invs)}
        res['lost'] = bool(eng.invs) and (not eng.inv_hit or bool((named & cut) - eng.inv_hit))
        res['solver_time'] = eng.solver_time
        res['queries'] = eng.nqueries
        res['backends'] = eng.backends
        res['where'] = getattr(eng, 'lastsrc', None)
    res['time'] = time.time() - t0
    return res
