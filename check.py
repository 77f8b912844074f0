#!/usr/bin/env python3-vt
"""check.py <property> [--thorough]   exit 0: held / exit 1 + VIOLATION line."""
import os, sys, json, time, tempfile, shutil, subprocess, re, random, signal
from concurrent.futures import ProcessPoolExecutor, as_completed, ThreadPoolExecutor
HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, os.path.join(HERE, 'gvc'))
sys.path.insert(0, os.path.join(HERE, 'specs'))
import driver, units

T0 = time.time()
NPROC = max(2, min(8, os.cpu_count() or 4))


def log(*a):
    print('[%6.1f]' % (time.time() - T0), *a, flush=True)


def native_run(exe, entry, cases, secs, seed, out, replay=None):
    if isinstance(exe, tuple):      # simulator: plain build for volume, sanitized build for memory errors
        a = native_run(exe[0], entry, cases, secs * 0.5, seed, out, replay)
        if a['fail']:
            return a
        b = native_run(exe[1], entry, cases, secs * 0.5, seed + 500, out, replay)
        b['runs'] += a['runs']
        b['ok'] += a['ok']
        for k, v in a['reach'].items():
            b['reach'][k] = b['reach'].get(k, 0) + v
        return b
    cmd = [exe, '--entry', entry]
    if replay:
        cmd += ['--replay', replay]
    else:
        cmd += ['--time', '%.2f' % secs, '--seed', str(seed)]
    for k, v in cases.items():
        cmd += ['--case', '%s=%d' % (k, v)]
    cmd += ['--out', out]
    r = driver.sh(cmd, timeout=secs * 2 + 60, cwd=os.path.dirname(exe))
    d = {'rc': r.returncode, 'runs': 0, 'ok': 0, 'label': None, 'reach': {}}
    m = re.search(r'RUNS (\d+) OK (\d+) REJECTED (\d+)', r.stdout)
    if m:
        d['runs'], d['ok'] = int(m.group(1)), int(m.group(2))
    for m in re.finditer(r'REACH (\S+) (\d+)', r.stdout):
        d['reach'][m.group(1)] = int(m.group(2))
    m = re.search(r'FAIL (.*)', r.stdout)
    if m:
        d['label'] = m.group(1).strip()
    d['fail'] = r.returncode == 1 and m is not None
    return d


def stop_pool(pool):
    ps = list((pool._processes or {}).values())
    try:
        pool.shutdown(wait=False, cancel_futures=True)
    except Exception:
        pass
    for p in ps:
        try:
            p.kill()
        except Exception:
            pass


def write_model(path, cases, model):
    with open(path, 'w') as f:
        for k, v in cases.items():
            f.write('%s i 1 %d\n' % (k, v))
        for e in model or []:
            if e[1] in ('i', 'f'):
                f.write('%s %s 1 %s\n' % (e[0], e[1], e[2]))
            elif e[1] in ('a', 'b'):
                f.write('%s %s %d %s\n' % (e[0], e[1], e[2], ' '.join(str(x) for x in e[3])))


def replay_models(results, nat, violations, deadline, seed, work, k0):
    """failed obligations: replay the verifier's model on the real code"""
    failed = [(u, c, o) for u, c, r in results for o in r['obl'] if o['status'] != 'proved']
    k = 0
    for u, c, o in failed:
        exe = nat.get((u['src'], tuple(u.get('defs', ()))))
        if o['status'] != 'failed' or not exe or not o.get('model') or not u.get('native', True):
            continue
        if k > 40 or time.time() > deadline + 60:
            break
        k += 1
        mf = os.path.join(work, 'm%d.in' % (k0 + k))
        write_model(mf, c, o['model'])
        out = os.path.join(work, 'm%d.out' % (k0 + k))
        d = native_run(exe, u['entry'], c, 10, seed, out, replay=mf)
        if d['fail']:
            log('REPLAYED %s %s: %s' % (u['name'], c, d['label']))
            violations.append((u, c, d['label'], out, 'counterexample of obligation "%s" (%s) replayed on the real code' % (o['label'], o['where'])))
            break
    return failed


def main():
    prop = sys.argv[1]
    thorough = '--thorough' in sys.argv or os.environ.get('VERIF_TIER') == 'thorough'
    seed = int(os.environ.get('VERIF_SEED', '1') or 1)
    P = units.PROPS[prop]
    us = [u for u in units.UNITS if u['prop'] == prop]
    if os.environ.get('VS_ONLY'):
        us = [u for u in us if re.search(os.environ['VS_ONLY'], u['name'])]
    wall = float(os.environ.get('VS_WALL', 1500 if thorough else 400))
    deadline = T0 + wall
    work = tempfile.mkdtemp(prefix='vs-%s-' % prop)
    rdir = os.path.join(HERE, 'replay')
    os.makedirs(rdir, exist_ok=True)
    os.makedirs(os.path.join(HERE, 'evidence'), exist_ok=True)
    try:
        rc = run(prop, P, us, thorough, seed, deadline, work, rdir)
    finally:
        shutil.rmtree(work, ignore_errors=True)
    # no waiting for worker pools that were stopped early
    sys.stdout.flush()
    sys.stderr.flush()
    os._exit(rc)


def run(prop, P, us, thorough, seed, deadline, work, rdir):
    driver.gen_headers(work)
    known = [l.strip() for l in open(os.path.join(HERE, 'known-findings.txt'))] if os.path.exists(os.path.join(HERE, 'known-findings.txt')) else []
    known = [l for l in known if l and not l.startswith('#')]
    # ---------------- build everything from the current tree
    gb, nat, berr = {}, {}, {}
    gkeys = sorted({(u['src'], u['entry'], tuple(u.get('defs', ()))) for u in us if u.get('gvc', True) and not u.get('sim')})
    nkeys = sorted({(u['src'], tuple(u.get('defs', ()))) for u in us if u.get('native', True) and not u.get('sim')})
    skeys = sorted({(u['src'], tuple(u.get('defs', ())), u['sim']) for u in us if u.get('sim')})
    for port in sorted({k[2] for k in skeys}):
        try:
            with ThreadPoolExecutor(2) as ex:
                ds = list(ex.map(lambda a: driver.build_sim(work, port, asan=a), (0, 1)))
            with ThreadPoolExecutor(NPROC) as ex:
                todo = [k for k in skeys if k[2] == port]
                fs = [(k, [ex.submit(driver.build_simexe, work, ds[a], k[0], k[1], a) for a in (0, 1)]) for k in todo]
                for k, f in fs:
                    try:
                        nat[(k[0], k[1])] = tuple(x.result() for x in f)
                    except Exception as e:
                        berr[('s', k)] = str(e)[-600:]
        except Exception as e:
            berr[('s', port)] = str(e)[-600:]
    with ThreadPoolExecutor(NPROC) as ex:
        fs = {}
        for k in nkeys:
            fs[ex.submit(driver.build_native, work, k[0], k[1])] = ('n', k)
        for k in gkeys:
            fs[ex.submit(driver.build_gvc, work, k[0], k[1], k[2])] = ('g', k)
        for f in as_completed(fs):
            kind, k = fs[f]
            try:
                (gb if kind == 'g' else nat)[k] = f.result()
            except Exception as e:
                berr[(kind, k)] = str(e)[-600:]
    log('built %d proof units and %d native harnesses from %s' % (len(gb), len(nat), driver.REPO))
    for k, e in berr.items():
        log('BUILD-FAILED %s: %s' % (k, e[:500]))
    # ---------------- proof and native jobs
    jobs, njobs = [], []
    for u in us:
        if u.get('sim'):
            u['gvc'] = False
        cs = list(u.get('cases', [{}]))
        if thorough:
            cs += list(u.get('thorough', []))
        for c in cs:
            o = dict(units.DEFAULTS)
            o.update(u.get('opts', {}))
            o['unit'] = (prop, u['name'])
            if thorough:
                o['budget'] = o.get('budget', 120) * 4
            o['wall'] = deadline
            jobs.append((u, c, o))
        for c in u.get('ncases', cs if not u.get('gvc', True) else (u.get('cases', [{}]))):
            njobs.append((u, c))
    results, violations = [], []
    nres = []
    pool = ProcessPoolExecutor(NPROC, max_tasks_per_child=1)
    tpool = ThreadPoolExecutor(2 if jobs else NPROC)
    nt = max(0.3, min(units.NATIVE_T * (6 if thorough else 1), (120.0 if thorough else 60.0) * (2 if jobs else NPROC) / max(1, len(njobs))))
    nsim = sum(1 for u, c in njobs if u.get('sim'))
    st = max(1.0, min(12.0, units.SIM_T / max(1, nsim))) * (6 if thorough else 1)
    if nsim:
        tpool = ThreadPoolExecutor(6 if jobs else NPROC)
    nf = {}
    for i, (u, c) in enumerate(njobs):
        exe = nat.get((u['src'], tuple(u.get('defs', ()))))
        if exe and u.get('native', True):
            nf[tpool.submit(native_run, exe, u['entry'], c, u.get('nsecs', st if u.get('sim') else nt), seed, os.path.join(work, 'n%d.out' % i))] = (u, c, os.path.join(work, 'n%d.out' % i))
    gf = {}
    # hardest (most dimensions) first, so that the tail is short
    jobs.sort(key=lambda j: -sum(j[1].values()) - 100 * j[0].get('weight', 0))
    for u, c, o in jobs:
        b = gb.get((u['src'], u['entry'], tuple(u.get('defs', ()))))
        if b and u.get('gvc', True):
            gf[pool.submit(driver.gvc_job, b, u['entry'], c, o, u['name'])] = (u, c)
        elif u.get('gvc', True):
            results.append((u, c, {'obl': [], 'undecided': 'build', 'time': 0}))
    for f in as_completed(nf):
        u, c, out = nf[f]
        try:
            d = f.result()
        except Exception as e:
            d = {'rc': -1, 'runs': 0, 'ok': 0, 'fail': False, 'label': str(e), 'reach': {}}
        nres.append((u, c, d))
        if d['fail']:
            log('NATIVE-FAIL %s %s: %s' % (u['name'], c, d['label']))
            violations.append((u, c, d['label'], out, 'native execution of the contract on the real code'))
    if violations:
        # a concrete failing input on the real code decides; proofs are no longer needed
        for f in gf:
            f.cancel()
        stop_pool(pool)
    else:
        try:
            for f in as_completed(gf, timeout=max(5, deadline - time.time() + 30)):
                u, c = gf[f]
                try:
                    r = f.result()
                except Exception as e:
                    r = {'obl': [], 'undecided': 'crash: %s' % e, 'time': 0}
                results.append((u, c, r))
                bad = [o for o in r['obl'] if o['status'] != 'proved']
                if bad or r['undecided'] or os.environ.get('VS_V'):
                    log('%s %s: %d obligations, %d open, undecided=%s (%.1fs) %s' % (
                        u['name'], c, len(r['obl']), len(bad), r['undecided'], r['time'], [(o['status'], o['label'], o['where']) for o in bad][:3]))
        except Exception as e:
            log('proof jobs stopped: %s' % type(e).__name__)
            for f, (u, c) in gf.items():
                if not f.done():
                    results.append((u, c, {'obl': [], 'undecided': 'time', 'time': 0}))
        stop_pool(pool)
        failed = replay_models(results, nat, violations, deadline, seed, work, 0)
        again = [(u, c, o) for u, c, o in jobs for v, d, r in results if v is u and d is c and r['undecided'] != 'build' and (r['undecided'] or any(x['status'] != 'proved' for x in r['obl']))]
        if not violations and again and time.time() < deadline - 20:
            # once more with more time per query: nothing is decided by a time limit that was too short
            log('%d cases once more with more time' % len(again))
            results = [x for x in results if not any(x[0] is u and x[1] is c for u, c, o in again)]
            pool = ProcessPoolExecutor(NPROC, max_tasks_per_child=1)
            gf = {}
            for u, c, o in again:
                o = dict(o, patience=4, budget=o.get('budget', 120) * 2)
                gf[pool.submit(driver.gvc_job, gb[(u['src'], u['entry'], tuple(u.get('defs', ())))], u['entry'], c, o, u['name'])] = (u, c)
            try:
                for f in as_completed(gf, timeout=max(5, deadline - time.time() + 30)):
                    u, c = gf[f]
                    try:
                        r = f.result()
                    except Exception as e:
                        r = {'obl': [], 'undecided': 'crash: %s' % e, 'time': 0}
                    results.append((u, c, r))
                    bad = [o for o in r['obl'] if o['status'] != 'proved']
                    if bad or r['undecided']:
                        log('%s %s: %d obligations, %d open, undecided=%s (%.1fs) %s' % (u['name'], c, len(r['obl']), len(bad), r['undecided'], r['time'], [(o['status'], o['label'], o['where']) for o in bad][:3]))
            except Exception as e:
                log('proof jobs stopped: %s' % type(e).__name__)
                for f, (u, c) in gf.items():
                    if not any(v is u and d is c for v, d, r in results):
                        results.append((u, c, {'obl': [], 'undecided': 'time', 'time': 0}))
            stop_pool(pool)
            failed = replay_models(results, nat, violations, deadline, seed, work, 100)
        undec = {}
        for u, c, r in results:
            if r['undecided'] or any(o['status'] != 'proved' for o in r['obl']):
                undec[(u['name'], json.dumps(c, sort_keys=True))] = (u, c)
        if not violations and undec:
            # bounded stand-in / deeper search on exactly the undecided units
            secs = max(2.0, min(60.0, (60.0 if not thorough else 240.0) * NPROC / len(undec)))
            todo = [(u, c) for u, c in undec.values() if nat.get((u['src'], tuple(u.get('defs', ())))) and u.get('native', True)]
            with ThreadPoolExecutor(NPROC) as ex:
                fs = {}
                for i, (u, c) in enumerate(todo):
                    out = os.path.join(work, 's%d.out' % i)
                    fs[ex.submit(native_run, nat[(u['src'], tuple(u.get('defs', ())))], u['entry'], c, secs, seed + 77, out)] = (u, c, out)
                for f in as_completed(fs):
                    u, c, out = fs[f]
                    d = f.result()
                    nres.append((u, c, d))
                    if d['fail']:
                        violations.append((u, c, d['label'], out, 'search on the real code after an obligation failed'))
        if not violations:
            base = {}
            bf = os.path.join(HERE, 'specs', 'baseline.json')
            if os.path.exists(bf):
                base = json.load(open(bf))
            lost = [(u, c) for u, c, r in results if r.get('lost')]
            for u, c, o in failed:
                if any(u is v and c == d for v, d in lost):
                    continue
                if o['status'] == 'failed' and o['kind'] == 'user' and u['name'] + ' ' + json.dumps(c, sort_keys=True) in base.get(prop, []):
                    violations.append((u, c, o['label'], o, 'obligation refuted by the verifier'))
                    break
    # ---------------- report
    rc = 0
    for u, c, label, data, how in violations[:1]:
        rp = os.path.join(rdir, '%s-%s.txt' % (prop, re.sub(r'\W', '_', u['name'])))
        noinp = isinstance(data, dict)
        with open(rp, 'w') as f:
            f.write('# property %s\n# unit %s: harness specs/%s entry %s cases %s defs %s\n# failed: %s\n# found by: %s\n' % (
                prop, u['name'], u['src'], u['entry'], json.dumps(c), ' '.join(list(u.get('defs', ())) + (['sim:' + u['sim']] if u.get('sim') else [])), label, how))
            if noinp:
                f.write('# obligation at %s\n# goal: %s\n# verifier model: %s\n' % (data['where'], data.get('goal', '').replace('\n', ' '), json.dumps(data.get('model'))))
            else:
                f.write('# replay: python3-vt /verif/replay.py <this file>\n')
                try:
                    f.write(open(data).read())
                except OSError:
                    pass
        print('FAILED unit=%s case=%s obligation=%s' % (u['name'], json.dumps(c), label))
        print('VIOLATION property=%s replay=%s%s' % (prop, rp, ' no-failing-input-found' if noinp else ''), flush=True)
        rc = 1
    for l in known:
        if l.startswith('property=%s ' % prop):
            print('KNOWN-FINDING: ' + l)
    evidence(prop, P, us, thorough, seed, results, nres, berr, violations, rc)
    log('%s: %s' % (prop, 'VIOLATION' if rc else 'held'))
    return rc


def evidence(prop, P, us, thorough, seed, results, nres, berr, violations, rc):
    tot = sum(len(r['obl']) for _, _, r in results)
    ok = sum(1 for _, _, r in results for o in r['obl'] if o['status'] == 'proved')
    und = [{'unit': u['name'], 'case': c, 'why': r['undecided'] or [(o['status'], o['label'], o['where']) for o in r['obl'] if o['status'] != 'proved'][:5]}
           for u, c, r in results if r['undecided'] or any(o['status'] != 'proved' for o in r['obl'])]
    bad = {(d['unit'], json.dumps(d['case'], sort_keys=True)) for d in und}
    good = [(u, c, r) for u, c, r in results if (u['name'], json.dumps(c, sort_keys=True)) not in bad]
    backends, assumed, funcs, invs = {}, {}, set(), {}
    for u, c, r in results:
        for k, v in (r.get('backends') or {}).items():
            backends[k] = backends.get(k, 0) + v
        for k, v in (r.get('assumed') or {}).items():
            assumed.setdefault(k, set()).update(v)
        funcs.update(r.get('funcs') or [])
        for k, v in (r.get('invs') or {}).items():
            invs[k] = v
    runs = sum(d['runs'] for _, _, d in nres)
    okr = sum(d['ok'] for _, _, d in nres)
    pd = sum(len(r['obl']) for _, _, r in good)
    bounded = [{'unit': u['name'], 'bound': u.get('bound', 'random concrete inputs within the harness bounds'), 'why': u.get('why', '')} for u in us if not u.get('gvc', True)]
    bounded += [{'unit': d['unit'], 'case': d['case'], 'bound': 'native random search only', 'why': str(d['why'])} for d in und]
    # a proof only when every unit is under contract and every obligation was discharged; parts checked by bounded execution make it mixed
    level = 'proof' if tot and not (und or berr or rc or bounded) else 'other'
    tb = list(units.TRUSTED) + list(P.get('trusted', []))
    for k, v in assumed.items():
        tb.append('assumed %s: %s' % (k, ', '.join(sorted(map(str, v)))[:400]))
    cov = {
        'obligations': tot, 'discharged': ok,
        'checker_cmd': 'python3-vt /verif/check.py %s%s' % (prop, ' --thorough' if thorough else ''),
        'trusted_base': tb,
        'units': sorted({u['name'] for u in us}),
        'cases_proved': len(good), 'cases_total': len(results),
        'obligations_in_fully_proved_cases': pd,
        'functions_under_contract': sorted(f for f in funcs if not f.startswith(('vs_', '__'))),
        'loop_invariants_inferred': len(invs),
        'discharged_by_backend': backends,
        'solver_time_s': round(sum(r.get('solver_time') or 0 for _, _, r in results), 2),
        'bounded_stand_ins': bounded, 'undischarged': und[:40],
        'evaluations': runs, 'distinct_nontrivial': okr,
        'rule': 'native executions of the same contracts on the real code; non-trivial = the precondition held',
        'samples': [{'unit': u['name'], 'case': c, 'runs': d['runs'], 'accepted': d['ok'], 'reach': d['reach']} for u, c, d in nres[:6]],
        'build_errors': {str(k): v for k, v in berr.items()},
        'explanation': P.get('explanation', '') or ('contract obligations generated from the current tree by gvc and discharged per case; '
                       'cases not discharged are listed under undischarged and covered only by the bounded native reading'),
    }
    ev = {'property': prop, 'tier': 'thorough' if thorough else 'quick', 'seed': seed, 'level': level, 'coverage': cov,
          'assumptions': tb, 'wall_s': round(time.time() - T0, 2), 'violations': len(violations)}
    json.dump(ev, open(os.path.join(HERE, 'evidence', prop + '.json'), 'w'), indent=1, default=str)
    log('%d/%d obligations discharged in %d cases (%d fully proved), %d native runs (%d accepted)' % (ok, tot, len(results), len(good), runs, okr))
    if os.environ.get('VS_BASELINE'):
        bf = os.path.join(HERE, 'specs', 'baseline.json')
        b = json.load(open(bf)) if os.path.exists(bf) else {}
        b[prop] = sorted(u['name'] + ' ' + json.dumps(c, sort_keys=True) for u, c, r in good)
        json.dump(b, open(bf, 'w'), indent=1, sort_keys=True)


if __name__ == '__main__':
    main()
