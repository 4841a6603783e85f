#!/usr/bin/env python3
"""check.py PROPERTY [quick|thorough]      decide one property on /repo's working tree
check.py --replay FILE                   re-run a replay file on the real code"""
import sys, os, json, re, time, subprocess, shutil, concurrent.futures, multiprocessing
V = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get('VERIF_REPO', '/repo')
sys.path.insert(0, V)
import props

PY = 'python3-vt'
IRFLAGS = ['-std=c++17', '-O1', '-g', '-Xclang', '-disable-llvm-passes', '-D_DISABLE_CONSTEXPR_MUTEX_CONSTRUCTOR',
           '-fconstexpr-steps=100000000', '-Wno-everything']
NATFLAGS = ['-std=c++17', '-O1', '-g', '-fsanitize=address,undefined', '-fno-sanitize=alignment,pointer-overflow,vptr',
            '-fno-sanitize-recover=all', '-DVC_TRACK_NEW', '-DVC_NATIVE', '-D_DISABLE_CONSTEXPR_MUTEX_CONSTRUCTOR',
            '-fconstexpr-steps=100000000', '-Wno-everything']
INC = ['-I' + REPO + '/include', '-I' + V + '/drivers', '-isystem', V + '/stubs', '-DVC_REPO="' + REPO + '"', '-I' + REPO]
NATENV = dict(os.environ, ASAN_OPTIONS='detect_leaks=0:quarantine_size_mb=16:allocator_may_return_null=1:detect_stack_use_after_return=0',
              UBSAN_OPTIONS='print_stacktrace=0')


def sh(cmd, timeout=300, **kw):
    return subprocess.run(cmd, capture_output=True, text=True, timeout=timeout, **kw)


def tool(path, src, cmd):
    if not os.path.exists(path) or os.path.getmtime(path) < os.path.getmtime(src):
        r = sh(cmd, 600)
        if r.returncode:
            print(r.stderr[-3000:])
            sys.exit(2)


def tools():
    os.makedirs(V + '/build', exist_ok=True)
    t = V + '/build/ir2json'
    tool(t, V + '/tools/ir2json.cpp', ['/usr/bin/clang++-18', '-std=c++17', '-O1', '-I/usr/include/llvm-18', '-I/usr/include/llvm-c-18',
                                       V + '/tools/ir2json.cpp', '-o', t, '-L/usr/lib/llvm-18/lib', '-lLLVM-18'])
    rt = V + '/build/vc_rt.o'
    tool(rt, V + '/native/vc_rt.cpp', ['/usr/bin/clang++-18'] + NATFLAGS + ['-I' + V + '/drivers', '-c', V + '/native/vc_rt.cpp', '-o', rt])


def build_ir(mod, d):
    """compile the driver, and with it the code of /repo it includes, to IR"""
    m = props.MODULES.get(mod, {})
    bc, obc, js = '%s/%s.bc' % (d, mod), '%s/%s.opt.bc' % (d, mod), '%s/%s.json' % (d, mod)
    r = sh(['/usr/bin/clang++-18'] + IRFLAGS + INC + m.get('flags', []) + ['-emit-llvm', '-c', '%s/drivers/%s.cpp' % (V, mod), '-o', bc], 300)
    if r.returncode:
        return None, r.stderr[-3000:]
    r = sh(['/usr/bin/opt-18', '-passes=' + m.get('passes', 'function(sroa)'), bc, '-o', obc], 300)
    if r.returncode:
        return None, r.stderr[-3000:]
    with open(js, 'w') as f:
        r = subprocess.run([V + '/build/ir2json', obc], stdout=f, stderr=subprocess.PIPE, text=True, timeout=300)
    if r.returncode:
        return None, r.stderr[-3000:]
    # constants of the code, for the input search
    with open(js) as f:
        txt = f.read()
    ints = sorted({int(x) for x in re.findall(r'\["i",\d+,"(\d+)"\]', txt) if 6 < int(x)})
    flts = sorted({int(x) for x in re.findall(r'\["f",64,"(\d+)"\]', txt)})
    with open('%s/%s.dict' % (d, mod), 'w') as f:
        f.write('\n'.join(map(str, ints[:3000] + flts[:300])) + '\n')
    return js, None


def build_native(mod, d):
    m = props.MODULES.get(mod, {})
    exe = '%s/%s.native' % (d, mod)
    r = sh(['/usr/bin/clang++-18'] + NATFLAGS + INC + m.get('flags', []) + ['%s/drivers/%s.cpp' % (V, mod), V + '/build/vc_rt.o', '-rdynamic', '-ldl']
           + m.get('native_flags', []) + ['-o', exe], 400)
    if r.returncode:
        return None, r.stderr[-3000:]
    return exe, None


def native_replay(exe, driver, path):
    """-> (outcome, output)"""
    try:
        r = sh([exe, 'replay', driver, path], 90, env=NATENV)
    except subprocess.TimeoutExpired:
        return 'FAILED', 'does not terminate'
    o = r.stdout + r.stderr
    if 'FAILED driver=' in o or (r.returncode not in (0, 3, 4, 77)):
        return 'FAILED', o[-2500:]
    return ('PASSED' if 'PASSED' in r.stdout else 'OTHER'), o[-500:]


def native_search(jobs, secs, d, seed):
    """jobs: (exe, driver, dict). Random / boundary inputs through the contracts on the real code, 8 processes."""
    per = max(2.0, secs * 7 / max(1, len(jobs))) if len(jobs) > 7 else secs
    work = []
    if len(jobs) <= 7:
        k = 0
        while len(work) < 8:
            work.append(jobs[k % len(jobs)] + (seed * 1000 + k,))
            k += 1
    else:
        work = [j + (seed * 1000 + k,) for k, j in enumerate(jobs)]

    found = []
    stats = []

    def one(w):
        exe, drv, dic, sd = w
        if found:
            return
        out = '%s/search.%s.%d' % (d, drv, sd)
        try:
            r = sh([exe, 'search', str(sd), '%.1f' % per, out, dic, drv], per + 150, env=NATENV)
        except subprocess.TimeoutExpired:
            return
        o = r.stdout + r.stderr
        if r.returncode != 0 and os.path.exists(out):
            oc, txt = native_replay(exe, drv, out)  # confirm
            if oc == 'FAILED':
                found.append((drv, out, o[-2500:] + '\n--- confirmed by replay:\n' + txt))
        elif r.returncode == 0:
            x = re.search(r'OK runs=(\d+) completed=(\d+) covers=(.*)', r.stdout)
            if x:
                stats.append((drv, int(x.group(1)), int(x.group(2)), x.group(3)))
    with concurrent.futures.ThreadPoolExecutor(8) as ex:
        list(ex.map(one, work))
    return found, stats


def write_replay(pid, mod, driver, header, body):
    d = V + '/build/replays'
    os.makedirs(d, exist_ok=True)
    p = '%s/%s-%s.replay' % (d, pid, driver)
    with open(p, 'w') as f:
        f.write('# property %s\n# module %s\n# driver %s\n# rerun: python3 %s/check.py --replay %s\n' % (pid, mod, driver, V, p))
        for l in header.split('\n'):
            f.write('# ' + l + '\n')
        f.write(body)
    return p


def replay_file(path):
    tools()
    t = open(path).read()
    mod = re.search(r'^# module (\S+)', t, re.M).group(1)
    drv = re.search(r'^# driver (\S+)', t, re.M).group(1)
    print(t if len(t) < 4000 else t[:4000] + '...')
    if not any(l and not l.startswith('#') for l in t.split('\n')):
        print('no input recorded: the file names the obligation the verifier did not discharge')
        return 1
    d = '%s/build/replaytmp' % V
    os.makedirs(d, exist_ok=True)
    exe, err = build_native(mod, d)
    if not exe:
        print(err)
        return 2
    oc, o = native_replay(exe, drv, path)
    print(oc, o)
    return 1 if oc == 'FAILED' else 0


def main():
    if len(sys.argv) > 2 and sys.argv[1] == '--replay':
        sys.exit(replay_file(sys.argv[2]))
    if sys.argv[1:] == ['--setup']:
        tools()
        sys.exit(0)
    pid = sys.argv[1]
    tier = sys.argv[2] if len(sys.argv) > 2 else os.environ.get('VERIF_TIER', 'quick')
    seed = int(os.environ.get('VERIF_SEED', '1'))
    P = props.PROPS[pid]
    t0 = time.time()
    tools()
    d = '%s/build/%s' % (V, pid)
    shutil.rmtree(d, ignore_errors=True)
    os.makedirs(d)
    mods = sorted({u['module'] for u in P['units']})
    with concurrent.futures.ThreadPoolExecutor(8) as ex:
        irs = dict(zip(mods, ex.map(lambda m: build_ir(m, d), mods)))
        natf = {m: ex.submit(build_native, m, d) for m in mods}
        for m in mods:
            if irs[m][0] is None:
                print('ERROR: the contract driver %s does not compile against the current tree:\n%s' % (m, irs[m][1]))
                sys.exit(2)
        nats = {m: natf[m].result() for m in mods}
    for m in mods:
        if nats[m][0] is None:
            print('ERROR: native build of %s failed:\n%s' % (m, nats[m][1]))
            sys.exit(2)
    jobs = []
    for u in P['units']:
        for drv in u['drivers']:
            jobs.append((u, drv))
    jobs.sort(key=lambda j: -props.WEIGHT.get(j[1], 1))
    limit = P.get('limit', 380 if tier == 'quick' else 3000)

    def prove(j):
        u, drv = j
        out = '%s/%s.res' % (d, drv)
        rem = limit - (time.time() - t0)
        cmd = [PY, V + '/vcg/worker.py', irs[u['module']][0], drv, out, '%.0f' % max(20, rem)] + u.get('contracts', [])
        try:
            r = sh(cmd, max(20, rem) + 60)
            err = r.stderr[-1500:]
        except subprocess.TimeoutExpired:
            err = 'worker timed out'
        if os.path.exists(out):
            return json.load(open(out))
        return dict(driver=drv, error=err or 'worker died', obligations=[], covers=[], loops=[], stats={}, backends={}, inlined={}, contracts={},
                    assumptions=[], wall=0)
    with concurrent.futures.ThreadPoolExecutor(8) as ex:
        results = list(ex.map(prove, jobs))
    tp = time.time()
    # ---- verdict of the proof
    bad = []  # (unit, driver, description, result)
    tot = disc = 0
    backends, inl, contr, assum, loops = {}, {}, {}, set(), []
    inst = 0
    smt_s = 0.0
    need_cov = 0
    for (u, drv), r in zip(jobs, results):
        if r['error']:
            bad.append((u, drv, 'not discharged: ' + r['error'], r))
        for o in r['obligations']:
            tot += 1
            inst += o['instances']
            if o['failed']:
                bad.append((u, drv, 'obligation %s at %s not discharged (%s)' % (o['name'], o['where'], o['reason']), r))
            else:
                disc += 1
        for k, v in r['backends'].items():
            backends[k] = backends.get(k, 0) + v
        for k, v in r['inlined'].items():
            inl[k] = inl.get(k, 0) + v
        for k, v in r['contracts'].items():
            contr[k] = contr.get(k, 0) + v
        assum |= set(r['assumptions'])
        loops += [dict(driver=drv, loop=l['loop'], invariants=len(l['invariants'])) for l in r['loops']]
        smt_s += sum(v for k, v in r['stats'].items() if k.endswith('_s'))
        # vacuity: every cover label of the driver must be reachable
        js = props.covers(u['module'], drv, irs[u['module']][0])
        for c in js:
            need_cov += 1
            if drv + ':' + c not in r['covers'] and not r['error'] and not any(o['failed'] for o in r['obligations']):
                bad.append((u, drv, 'vacuous: label %s is not reachable any more' % c, r))
        if not r['error'] and not r['obligations']:
            bad.append((u, drv, 'no obligation generated', r))
    # ---- known findings
    known = props.known(pid)
    failures = []
    for u, drv, desc, r in bad:
        failures.append((u, drv, desc, r))
    violation = None
    searched = None
    if failures:
        # 1. replay of countermodels, 2. search for a concrete failing input with the same contracts on the real code
        for u, drv, desc, r in failures:
            for k, rp in enumerate(r.get('replays', [])):
                p = '%s/cm.%s.%d' % (d, drv, k)
                open(p, 'w').write('\n'.join(rp['lines']) + '\n')
                oc, o = native_replay(nats[u['module']][0], drv, p)
                if oc == 'FAILED':
                    violation = (u['module'], drv, '%s\ncountermodel of %s replayed on the real code:\n%s' % (desc, rp['obligation'], o),
                                 open(p).read())
                    break
            if violation:
                break
        if not violation:
            cand = []
            for u, drv, desc, r in failures:
                for dv in [drv] + P.get('companions', {}).get(drv, P.get('search', [])):
                    m = u['module']
                    for uu in P['units']:
                        if dv in uu['drivers'] + uu.get('native_only', []):
                            m = uu['module']
                    if (m, dv) not in cand:
                        cand.append((m, dv))
            found, searched = native_search([(nats[m][0], dv, '%s/%s.dict' % (d, m)) for m, dv in cand[:40]], P.get('search_s', 100 if tier == 'quick' else 600), d, seed)
            if found:
                drv, f, o = found[0]
                m = [m for m, dv in cand if dv == drv][0]
                violation = (m, drv, 'obligations not discharged:\n%s\nfailing input found by search on the real code:\n%s'
                             % ('\n'.join(x[2] for x in failures[:20]), o), open(f).read())
    else:
        # the proof stands: a short run of the same contracts on the real code, as a check of the verifier itself
        al = [(nats[u['module']][0], dv, '%s/%s.dict' % (d, u['module'])) for u in P['units'] for dv in u['drivers'] + u.get('native_only', [])]
        found, searched = native_search(al, P.get('smoke_s', 8 if tier == 'quick' else 120), d, seed)
        if found:
            drv, f, o = found[0]
            m = [u['module'] for u in P['units'] if drv in u['drivers'] + u.get('native_only', [])][0]
            violation = (m, drv, 'every obligation was discharged, yet the contract fails on the real code (verifier and code disagree):\n' + o, open(f).read())
            failures = [(None, drv, 'native run', None)]
    for k in known:
        print('KNOWN-FINDING: property=%s %s' % (pid, k))
    ev = dict(property=pid, tier=tier, seed=seed, level='proof',
              coverage=dict(obligations=tot, discharged=disc, obligation_instances=inst,
                            checker_cmd='python3 /verif/check.py %s %s' % (pid, tier),
                            trusted_base=props.TRUSTED + P.get('trusted', []),
                            backends=backends, solver_seconds=round(smt_s, 1), drivers=[j[1] for j in jobs],
                            functions_under_contract=sorted(k for k in inl if not k.startswith(('drv_', 'std::', 'void std::', '__')))[:400],
                            callee_contracts_used=contr, cover_labels_required=need_cov,
                            loops_with_inferred_invariants=loops[:200],
                            native_runs=[dict(driver=a, runs=b, completed=c) for a, b, c, _ in (searched or [])][:60],
                            undischarged=[x[2] for x in failures][:50]),
              wall_s=round(time.time() - t0, 1), assumptions=sorted(assum) + P.get('assumptions', []), violations=[])
    rc = 0
    if failures:
        if violation:
            m, drv, hdr, body = violation
            p = write_replay(pid, m, drv, hdr, body)
            line = 'VIOLATION property=%s replay=%s' % (pid, p)
        else:
            u, drv, desc, r = failures[0]
            hdr = '\n'.join(x[2] for x in failures[:30])
            for o in r['obligations']:
                if o['failed']:
                    hdr += '\n--- %s: verifier output: %s\nmodel: %s\npath: %s' % (o['name'], o['reason'], json.dumps(o['model'])[:3000], ' / '.join(o['trace'] or [])[-1500:])
                    break
            p = write_replay(pid, u['module'], drv, hdr, '')
            line = 'VIOLATION property=%s replay=%s no-failing-input-found' % (pid, p)
        for x in failures[:12]:
            print('  ' + x[1] + ': ' + x[2])
        print(line)
        ev['violations'] = [line]
        rc = 1
    else:
        print('OK property=%s obligations=%d discharged=%d backends=%s proof_s=%.0f total_s=%.0f' % (pid, tot, disc, backends, tp - t0, time.time() - t0))
    os.makedirs(V + '/evidence', exist_ok=True)
    with open('%s/evidence/%s.json' % (V, pid), 'w') as f:
        json.dump(ev, f, indent=1)
    if rc == 0:
        shutil.rmtree(d, ignore_errors=True)
    sys.exit(rc)


main()
