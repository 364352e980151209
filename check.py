#!/opt/veriftools/pyvenv/bin/python
"""Decide one property: contracts against the bodies extracted from /repo, then replay.

usage: check.py <ID> [quick|thorough]
"""
import os, sys, time, json, tempfile, shutil, subprocess, importlib, signal, traceback
import multiprocessing as mp
import concurrent.futures as cf

HERE = os.path.dirname(os.path.abspath(__file__))
sys.path[:0] = [os.path.join(HERE, 'vc'), os.path.join(HERE, 'props')]
sys.setrecursionlimit(20000)
import cast, frame, prove

CXX = ['g++', '-std=gnu++17', '-w', '-fopenmp', '-g1']
LINK = ['-lgsl', '-lgslcblas', '-lpng', '-lz',
        '/usr/lib/x86_64-linux-gnu/hdf5/serial/libhdf5_cpp.so',
        '/usr/lib/x86_64-linux-gnu/hdf5/serial/libhdf5.so', '-lm']


class UnitTimeout(Exception):
    pass


def _alarm(s, f):
    raise UnitTimeout()


UNITS = None
BENCH = None
LIMIT = 200
PTO = 8000


def run_unit(i):
    name, fn = UNITS[i][:2]
    signal.signal(signal.SIGALRM, _alarm)
    signal.alarm(LIMIT)
    t0 = time.time()
    st0 = dict(prove.STATS)
    try:
        r = BENCH.unit(name, fn, timeout=PTO)
        signal.alarm(0)
        fl = []
        for o, res in r.failed:
            fl.append(dict(label=o.label, where=str(o.where), kind=o.kind, status=res.status,
                           goal=str(o.goal)[:1500], model=str(res.model)[:3000] if res.model else ''))
        d = dict(name=name, status=r.status, detail=r.detail, obls=r.obls, disch=r.disch, failed=fl,
                 fns=r.fns, contracts=r.contracts, libs=r.libs, paths=r.paths, loops=r.loops, time=r.time)
    except UnitTimeout:
        d = dict(name=name, status='unknown', detail='time limit', obls=0, disch=0, failed=[], fns=[],
                 contracts=[], libs=[], paths=0, loops=0, time=time.time() - t0)
    except BaseException as e:
        signal.alarm(0)
        d = dict(name=name, status='unsupported', detail='internal %s: %s %s' % (type(e).__name__, e, traceback.format_exc()[-800:]),
                 obls=0, disch=0, failed=[], fns=[], contracts=[], libs=[], paths=0, loops=0, time=time.time() - t0)
    d['stats'] = {k: prove.STATS[k] - st0.get(k, 0) for k in prove.STATS if isinstance(prove.STATS[k], (int, float))}
    return d


def sh(cmd, timeout=600, **kw):
    try:
        p = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=timeout, **kw)
        return p.returncode, p.stdout.decode('utf8', 'replace')
    except subprocess.TimeoutExpired as e:
        return 124, (e.stdout or b'').decode('utf8', 'replace')


def build_harness(h, work, cfg):
    """compile the replay driver with the real sources; returns (binary | None, log)"""
    inc = ['-I' + cfg, '-I' + os.path.join(cast.REPO, 'include'), '-I' + os.path.join(cast.REPO, 'src'),
           '-I/usr/include/hdf5/serial', '-I' + os.path.join(HERE, 'replay')]
    san = h.get('san', 'address')
    flags = ['-O1'] + (['-fsanitize=' + san, '-fno-sanitize-recover=all', '-fno-omit-frame-pointer'] if san else [])
    flags += h.get('flags', [])
    out = os.path.join(work, 'h')
    os.makedirs(out, exist_ok=True)
    jobs = []
    link = h.get('link', [])
    if link == 'all':
        link = []
        for d, _, fs in os.walk(os.path.join(cast.REPO, 'src')):
            link += [os.path.relpath(os.path.join(d, f), cast.REPO) for f in sorted(fs)
                     if f.endswith('.cpp') and f not in ('Vector.cpp', 'ConfigurationSFile.cpp', 'SFile_MAT.Matlab.cpp')]
    for s in link:
        if os.path.exists(os.path.join(cast.REPO, s)):
            jobs.append((os.path.join(cast.REPO, s), os.path.join(out, s.replace('/', '_') + '.o')))
    jobs.append((os.path.join(HERE, 'replay', h['src']), os.path.join(out, 'main.o')))
    defs = ['-DHAS_LIBPNG', '-D_FILE_OFFSET_BITS=64']
    logs = []
    ok = True

    def one(j):
        return sh(CXX + flags + defs + inc + ['-c', j[0], '-o', j[1]], timeout=400)
    with cf.ThreadPoolExecutor(6) as tp:
        for j, (rc, lg) in zip(jobs, tp.map(one, jobs)):
            if rc:
                ok = False
                logs.append('%s:\n%s' % (j[0], lg[-3000:]))
    if not ok:
        return None, '\n'.join(logs)
    exe = os.path.join(out, 'h')
    rc, lg = sh(CXX + flags + [j[1] for j in jobs] + LINK + ['-o', exe], timeout=200)
    if rc:
        # code may have moved between files: take every library source that compiles
        have = set(j[0] for j in jobs)
        more = []
        for d, _, fs in os.walk(os.path.join(cast.REPO, 'src')):
            for f in sorted(fs):
                q = os.path.join(d, f)
                if f.endswith('.cpp') and q not in have and f not in ('Vector.cpp', 'ConfigurationSFile.cpp', 'SFile_MAT.Matlab.cpp'):
                    more.append((q, os.path.join(out, q.replace('/', '_') + '.o')))
        with cf.ThreadPoolExecutor(8) as tp:
            good = [j for j, (r, l) in zip(more, tp.map(one, more)) if r == 0]
        rc, lg = sh(CXX + flags + [j[1] for j in jobs + good] + LINK + ['-o', exe], timeout=200)
        if rc:
            return None, lg[-3000:]
    return exe, ''


def run_harness(exe, work, seed, tier, h):
    """-> (status ok|fail|error, n, text)"""
    env = dict(os.environ)
    scratch = os.path.join(work, 'scratch')
    os.makedirs(scratch, exist_ok=True)
    env['ASAN_OPTIONS'] = 'detect_leaks=%d:abort_on_error=0:exitcode=99:allocator_may_return_null=1:handle_segv=1:detect_stack_use_after_return=0' % h.get('leaks', 0)
    env['UBSAN_OPTIONS'] = 'print_stacktrace=0'
    env['OMP_NUM_THREADS'] = '2'
    env['TMPDIR'] = scratch
    env['HCASE'] = os.path.join(scratch, 'case.txt')
    rc, out = sh(['prlimit', '--fsize=1000000000', exe, str(seed), tier], timeout=240 if tier == 'quick' else 600, cwd=scratch, env=env)
    n = 0
    for l in out.splitlines():
        if l.startswith('OK '):
            n = int(l.split()[1])
    if rc == 0 and n > 0:
        return 'ok', n, out[-2000:]
    case = ''
    try:
        case = open(env['HCASE'], 'rb').read().split(b'\0')[0].decode('utf8', 'replace').strip()
    except OSError:
        pass
    if rc == 0:
        return 'error', n, 'driver gave no verdict: ' + out[-2000:]
    fl = [l for l in out.splitlines() if l.startswith('FAIL')]
    head = fl[0] if fl else 'FAIL (exit %d) while executing case: %s' % (rc, case)
    if rc == 124:
        head = 'FAIL (does not terminate) in case: ' + case
    return 'fail', n, head + '\ncase: ' + case + '\n' + out[-6000:]


def findings(pid):
    p = os.path.join(HERE, 'known_findings.txt')
    out = []
    if os.path.exists(p):
        for l in open(p):
            l = l.strip()
            if l.startswith('finding: property=%s ' % pid):
                out.append(l[len('finding: property=%s ' % pid):])
    return out


def main():
    global UNITS, BENCH, LIMIT, PTO
    pid = sys.argv[1]
    tier = sys.argv[2] if len(sys.argv) > 2 else os.environ.get('VERIF_TIER', 'quick')
    if tier not in ('quick', 'thorough'):
        tier = 'quick'
    seed = int(os.environ.get('VERIF_SEED', '1') or 1)
    t0 = time.time()
    if tier == 'thorough':
        LIMIT, PTO = 900, 60000
    work = tempfile.mkdtemp(prefix='verif_%s_' % pid)
    evd = os.path.join(HERE, 'evidence')
    os.makedirs(evd, exist_ok=True)
    log = []
    try:
        m = importlib.import_module(pid)
        m.TIER = tier
        h = getattr(m, 'HARNESS', None)
        hpool = cf.ThreadPoolExecutor(1)
        res = []
        extract = ''
        BENCH = frame.Bench(pid, work)
        hfut = None
        try:
            m.load(BENCH)
            UNITS = m.units(BENCH)
        except Exception as e:
            extract = '%s: %s' % (type(e).__name__, e)
            log.append('extraction failed: ' + traceback.format_exc()[-1500:])
            UNITS = []
        if h:
            hproc_cfg = BENCH.cfg
        ctx = mp.get_context('fork')
        if UNITS:
            # processes are forked before any thread of this process exists
            pool = ctx.Pool(min(8, len(UNITS)), maxtasksperchild=None)
            asy = pool.map_async(run_unit, range(len(UNITS)), chunksize=1)
        if h:
            hfut = hpool.submit(build_harness, h, work, hproc_cfg)
        if UNITS:
            try:
                res = asy.get(timeout=600 if tier == 'quick' else 7200)
            except mp.TimeoutError:
                extract = 'proof time limit'
                res = []
            pool.terminate()
            pool.join()
        hst, hn, htxt = 'none', 0, ''
        if h:
            exe, lg = hfut.result()
            if exe is None:
                hst, htxt = 'error', 'replay driver does not build against this tree: ' + lg
            else:
                hst, hn, htxt = run_harness(exe, work, seed, tier, h)
        kf = findings(pid)
        proved = [r for r in res if r['status'] == 'proved']
        refuted = [r for r in res if r['status'] == 'refuted']
        undec = [r for r in res if r['status'] not in ('proved', 'refuted')]
        obl = sum(r['obls'] for r in res)
        dis = sum(r['disch'] for r in res)
        complete = bool(res) and not refuted and not undec and not extract
        # ---------------------------------------------------------------- verdict
        viol = None
        rp = os.path.join(evd, 'replay-%s.txt' % pid)
        if hst == 'fail':
            viol = ''
        elif refuted:
            viol = ' no-failing-input-found'
        elif hst in ('error', 'none') and not complete:
            viol = None
        for r in res:
            mark = '' if r['status'] == 'proved' else '   ' + r['detail'].splitlines()[0][:160] if r['detail'] else ''
            log.append('%-11s %3d/%3d %6.1fs %s%s' % (r['status'], r['disch'], r['obls'], r['time'], r['name'], mark))
            for f in r['failed']:
                log.append('      %s: %s  at %s\n         goal %s' % (f['status'], f['label'], f['where'], f['goal'][:300]))
        print('\n'.join(log))
        print('%s: %d units, %d proved, %d refuted, %d undecided; obligations %d/%d; replay driver: %s (%d cases); %.1fs' % (
            pid, len(res), len(proved), len(refuted), len(undec), dis, obl, hst, hn, time.time() - t0))
        if hst == 'error':
            print('replay driver: ' + htxt[-1500:])
        backs = {}
        for r in res:
            for k, v in r['stats'].items():
                backs[k] = backs.get(k, 0) + v
        for k in backs:
            if isinstance(backs[k], float):
                backs[k] = round(backs[k], 2)
        fns = sorted(set(f for r in res for f in r['fns']))
        cons = sorted(set(f for r in res for f in r['contracts']))
        libs = sorted(set(f for r in res for f in r['libs']))
        bounded = []
        if not complete or hst == 'ok':
            bounded.append('replay driver %s: %d concrete cases on the compiled sources (bounded; never counted as proved)' % (h and h['src'], hn))
        for r in undec:
            bounded.append('undecided by the verifier on this tree, covered by the bounded driver only: %s (%s)' % (r['name'], r['detail'].splitlines()[0][:200] if r['detail'] else r['status']))
        ev = dict(property=pid, tier=tier, seed=seed, level='proof',
                  coverage=dict(obligations=obl, discharged=dis,
                                checker_cmd='/verif/check.py %s %s' % (pid, tier),
                                trusted_base=['clang 18 front end (AST of /repo sources)', 'VC generator /verif/vc (symbolic execution, loop rule)',
                                              'z3 %s' % prove.z3.get_version_string(), 'cvc5 1.1.2', 'algebraic normal form (sympy polynomial rings)']
                                + ['assumed contract: ' + l for l in libs],
                                functions_under_contract=fns, callee_contracts_used=cons,
                                units=len(res), units_proved=len(proved), units_refuted=len(refuted), units_undecided=len(undec),
                                extraction_error=extract, backends=backs,
                                solver_s=backs.get('time', 0),
                                bounded=bounded, replay_cases=hn,
                                unit_results=[dict(name=r['name'], status=r['status'], obligations=r['obls'], discharged=r['disch'],
                                                   paths=r['paths'], loops=r['loops'], s=round(r['time'], 2)) for r in res]),
                  assumptions=['floating point arithmetic treated as real arithmetic (rounding not modelled)',
                               'external functions obey the assumed contracts listed in the trusted base',
                               'allocation succeeds; no other thread or process changes the data'] + list(getattr(m, 'ASSUME', [])),
                  wall_s=round(time.time() - t0, 2), violations=0 if viol is None else 1)
        json.dump(ev, open(os.path.join(evd, pid + '.json'), 'w'), indent=1)
        for k in kf:
            print('KNOWN-FINDING: property=%s %s' % (pid, k))
        if viol is not None:
            with open(rp, 'w') as f:
                f.write('property %s, seed %d, tier %s\n' % (pid, seed, tier))
                if refuted:
                    f.write('\nFailed obligations (verifier output):\n')
                    for r in refuted:
                        f.write('\nunit: %s   %s\n' % (r['name'], r['detail']))
                        for x in r['failed']:
                            f.write('  obligation: %s\n  at: %s\n  verdict: %s\n  goal: %s\n  model: %s\n' % (
                                x['label'], x['where'], x['status'], x['goal'], x['model']))
                if hst == 'fail':
                    f.write('\nReplay on the compiled code (driver %s, arguments: %d %s):\n%s\n' % (h['src'], seed, tier, htxt))
                elif h:
                    f.write('\nReplay driver: %s, %d cases, none failed\n%s\n' % (hst, hn, htxt[-1500:]))
            if refuted:
                print('failed obligation: %s' % (refuted[0]['failed'][0]['label'] if refuted[0]['failed'] else refuted[0]['detail']))
            if hst == 'fail':
                print(htxt[:1500])
            print('VIOLATION property=%s replay=%s%s' % (pid, rp, viol))
            return 1
        if complete or hst == 'ok':
            return 0
        print('no verdict: %s' % (extract or 'undecided obligations and no replay driver'))
        return 2
    finally:
        shutil.rmtree(work, ignore_errors=True)


if __name__ == '__main__':
    sys.exit(main())
