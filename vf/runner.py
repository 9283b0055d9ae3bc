"""Runs one property's check: extract the IR of /repo's current functions, discharge the obligations of every job,
run the native (bounded) conformance harnesses, write the evidence, report.

  python3-vt -m vf.runner <PROPERTY> [quick|thorough]
Exit status is 0 (held on everything explored) or 1 (with a VIOLATION line); nothing else."""
import warnings
warnings.simplefilter('ignore')
import os, sys, re, json, time, shutil, subprocess, tempfile, traceback, importlib, signal
from concurrent.futures import ThreadPoolExecutor

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get('VERIF_REPO', '/repo')
PREFIX = '/opt/vp/prefix'
CLANGXX = '/usr/bin/clang++-18'
OPT = '/usr/bin/opt-18'
GXX = '/usr/bin/g++'
BASE_FLAGS = ['-DSOFA_PBRPC_ENABLE_DETAILED_LOGGING', '-include', '/opt/vp/compat.h', '-w', '-Wno-register']
NCPU = int(os.environ.get('VERIF_JOBS', '8'))


class Prop:
    def __init__(self, pid, level='proof'):
        self.pid = pid
        self.level = level
        self.tus = {}
        self.jobs = []
        self.natives = []
        self.assumptions = []
        self.trusted = []

    def tu(self, name, text, flags=(), passes='lowerinvoke,sroa'):
        self.tus[name] = (text, list(flags), passes)

    def job(self, name, tu, tier='quick'):
        def deco(fn):
            self.jobs.append((name, tu, tier, fn))
            return fn
        return deco

    def native(self, name, src, repo=(), flags=(), args=(), thorough_args=(), timeout=240, thorough_timeout=800,
               san='address,undefined', libs=(), opt='-O1', what='', proto=''):
        self.natives.append(dict(name=name, src=src, repo=list(repo), flags=list(flags), args=list(args),
                                 thorough_args=list(thorough_args), timeout=timeout,
                                 thorough_timeout=thorough_timeout, san=san, libs=list(libs), opt=opt, what=what, proto=proto))


def sh(cmd, timeout=600, **kw):
    return subprocess.run(cmd, capture_output=True, text=True, timeout=timeout, errors='replace', **kw)


class Build:
    def __init__(self, scratch):
        self.scratch = scratch
        self.gen = os.path.join(scratch, 'gen')

    def inc(self):
        return ['-I' + self.gen, '-I' + REPO + '/src', '-I' + PREFIX + '/include', '-I' + VERIF + '/native']

    def protos(self):
        """generate the protobuf sources from the current .proto files into the scratch directory"""
        d = os.path.join(self.gen)
        os.makedirs(d, exist_ok=True)
        src = REPO + '/src'
        ps = sorted(f for f in os.listdir(src + '/sofa/pbrpc') if f.endswith('.proto'))
        r = sh([PREFIX + '/bin/protoc', '-I' + src, '-I' + PREFIX + '/include', '--cpp_out=' + d] +
               ['sofa/pbrpc/' + p for p in ps], cwd=src)
        if r.returncode != 0:
            raise RuntimeError('protoc failed: ' + r.stderr[-2000:])

    def tu(self, name, text, flags, passes='lowerinvoke,sroa'):
        cc = os.path.join(self.scratch, name + '.cc')
        ll = os.path.join(self.scratch, name + '.ll')
        l2 = os.path.join(self.scratch, name + '.2.ll')
        open(cc, 'w').write(text)
        r = sh([CLANGXX] + BASE_FLAGS + flags + self.inc() +
               ['-O0', '-Xclang', '-disable-O0-optnone', '-S', '-emit-llvm', cc, '-o', ll])
        if r.returncode != 0:
            return None, 'extraction of %s failed:\n%s' % (name, r.stderr[:4000])
        r = sh([OPT, '-S', '-passes=' + passes, ll, '-o', l2])
        if r.returncode != 0:
            return None, 'opt failed: ' + r.stderr[:2000]
        os.unlink(ll)
        return l2, ''

    def native(self, n, pool):
        """compile harness + needed repo sources in parallel, link"""
        d = os.path.join(self.scratch, 'n_' + n['name'])
        os.makedirs(d, exist_ok=True)
        fl = BASE_FLAGS + n['flags'] + self.inc() + [n['opt'], '-g1', '-fno-omit-frame-pointer', '-std=gnu++17', '-pthread']
        if n['san']:
            fl += ['-fsanitize=' + n['san'], '-fno-sanitize-recover=undefined', '-fno-sanitize=vptr,alignment']
        srcs = [os.path.join(VERIF, 'native', n['src'])]
        if n['proto']:
            r = sh([PREFIX + '/bin/protoc', '-I' + VERIF + '/native', '-I' + REPO + '/src', '-I' + PREFIX + '/include', '--cpp_out=' + d, n['proto']])
            if r.returncode != 0:
                return None, 'native harness %s: protoc failed:\n%s' % (n['name'], r.stderr[:3000])
            fl = fl + ['-I' + d]
            srcs.append(os.path.join(d, n['proto'].replace('.proto', '.pb.cc')))
        for r in n['repo']:
            if r == '*':
                sd = REPO + '/src/sofa/pbrpc'
                srcs += [os.path.join(sd, f) for f in sorted(os.listdir(sd)) if f.endswith('.cc') and not f.endswith('.pb.cc') and f != 'boost_system_error_code.cc']
                srcs += [os.path.join(self.gen, 'sofa/pbrpc', f) for f in sorted(os.listdir(self.gen + '/sofa/pbrpc')) if f.endswith('.pb.cc')]
            elif r.endswith('.pb.cc'):
                srcs.append(os.path.join(self.gen, 'sofa/pbrpc', r))
            else:
                srcs.append(os.path.join(REPO, 'src/sofa/pbrpc', r))
        objs = []

        def one(k_s):
            k, s = k_s
            o = os.path.join(d, '%d.o' % k)
            extra = [] if k == 0 else [f for f in ()]
            r = sh([CLANGXX, '-c', s, '-o', o] + fl + extra)
            return o, (r.returncode, s, r.stderr[:3000])
        futs = [pool.submit(one, x) for x in enumerate(srcs)]
        for f in futs:
            o, (rc, s, err) = f.result()
            if rc != 0:
                return None, 'native harness %s: compiling %s failed:\n%s' % (n['name'], s, err)
            objs.append(o)
        exe = os.path.join(d, n['name'])
        link = [CLANGXX] + objs + ['-o', exe, '-pthread'] + (['-fsanitize=' + n['san']] if n['san'] else []) + \
            ['-L' + PREFIX + '/lib'] + n['libs']
        r = sh(link)
        if r.returncode != 0:
            return None, 'native harness %s: link failed:\n%s' % (n['name'], r.stderr[:3000])
        return exe, ''


def run_job(payload):
    """in a forked child: returns a plain dict"""
    prop, jname, ll, fn, tier, budget = payload
    t0 = time.time()
    out = dict(job=jname, results=[], inlined=[], contracts=[], loops=[], bounded=[], nq=0, solver_s=0.0, covers=0,
               undecided=0)
    from . import engine as E, std, cont
    try:
        m = E.Module(ll)
        eng = E.Engine(m)
        std.install(eng)
        cont.install(eng)
        eng.seqcheck = cont.seqcheck
        eng.cur = jname
        eng.tier = tier
        eng.deadline = time.time() + budget
        try:
            fn(eng)
        except E.Unsupported as e:
            tb = traceback.extract_tb(sys.exc_info()[2])[-1]
            eng.results.append(E.Result('%s/verifier-reach' % jname, 'unsupported', detail='%s (%s:%d; in %s)' % (
                e, os.path.basename(tb.filename), tb.lineno, '>'.join(eng.demangled(f)[:80] for f in eng.current_fn[-3:]))))
        except Exception as e:
            eng.results.append(E.Result('%s/verifier-reach' % jname, 'unsupported', detail=traceback.format_exc()[-1500:]))
        eng.gather()
        for r in eng.results:
            d = dict(name=r.name, status=r.status, t=round(r.time_s, 3), solver=r.solver, detail=r.detail)
            if r.model_s:
                d['model'] = r.model_s
            elif r.model is not None:
                try:
                    d['model'] = '; '.join(str(x) + '=' + str(r.model[x]) for x in list(r.model.decls())[:40]
                                           if x.arity() == 0)[:3000]
                except Exception:
                    pass
            out['results'].append(d)
        out['inlined'] = sorted(eng.inlined)
        out['contracts'] = sorted({(lab, bool(tr), nm[:160]) for lab, tr, nm in getattr(eng, 'used', set())})
        out['loops'] = [(a[:120], len(c)) for a, b, c in eng.loop_info]
        out['loops_detail'] = [(a[:100], b, c) for a, b, c in eng.loop_info]
        out['bounded'] = eng.bounded
        out['nq'] = eng.nqueries
        out['solver_s'] = round(eng.solver_time, 2)
        out['covers'] = eng.covers
    except Exception:
        out['results'].append(dict(name=jname + '/extract', status='unsupported', t=0, solver='-', detail=traceback.format_exc()[-2000:]))
    out['wall'] = round(time.time() - t0, 2)
    return out


def forked(payload, rfd_timeout):
    """run_job in a forked child with a hard time limit"""
    r, w = os.pipe()
    pid = os.fork()
    if pid == 0:
        os.close(r)
        signal.signal(signal.SIGINT, signal.SIG_DFL)
        try:
            d = run_job(payload)
            data = json.dumps(d).encode()
        except BaseException:
            data = json.dumps(dict(job=payload[1], results=[dict(name=payload[1] + '/verifier', status='unsupported',
                              t=0, solver='-', detail=traceback.format_exc()[-1500:])], inlined=[], contracts=[],
                              loops=[], bounded=[], nq=0, solver_s=0, covers=0, wall=0)).encode()
        with os.fdopen(w, 'wb') as f:
            f.write(data)
        os._exit(0)
    os.close(w)
    return pid, r


def run_jobs(payloads, hard, slots):
    """a small process pool on fork"""
    import select
    todo = list(payloads)
    running = {}
    outs = []
    while todo or running:
        while todo and len(running) < slots:
            p = todo.pop(0)
            pid, r = forked(p, hard)
            running[r] = (pid, p, time.time(), [])
        rl, _, _ = select.select(list(running), [], [], 1.0)
        for r in rl:
            b = os.read(r, 1 << 20)
            pid, p, t0, buf = running[r]
            if b:
                buf.append(b)
                continue
            os.close(r)
            os.waitpid(pid, 0)
            del running[r]
            try:
                outs.append(json.loads(b''.join(buf)))
            except Exception:
                outs.append(dead(p, 'verifier process died'))
        now = time.time()
        for r in list(running):
            pid, p, t0, buf = running[r]
            if now - t0 > hard:
                os.kill(pid, signal.SIGKILL)
                os.waitpid(pid, 0)
                os.close(r)
                del running[r]
                outs.append(dead(p, 'time limit %ds' % hard))
    return outs


def dead(p, why):
    return dict(job=p[1], results=[dict(name=p[1] + '/verifier', status='unsupported', t=0, solver='-', detail=why)],
                inlined=[], contracts=[], loops=[], bounded=[], nq=0, solver_s=0, covers=0, wall=0)


def known():
    fs = []
    p = os.path.join(VERIF, 'known_findings.txt')
    if os.path.exists(p):
        for l in open(p):
            m = re.match(r'finding: property=(\S+) key=(\S+) (.*)', l)
            if m:
                fs.append(m.groups())
    return fs


def run_native(exe, n, tier, seed, d):
    env = dict(os.environ)
    env['ASAN_OPTIONS'] = 'detect_leaks=0:abort_on_error=0:exitcode=99:allocator_may_return_null=1:detect_stack_use_after_return=1'
    env['UBSAN_OPTIONS'] = 'print_stacktrace=1:halt_on_error=1:exitcode=98'
    env['VERIF_SEED'] = str(seed)
    env['VERIF_TIER'] = tier
    env['TMPDIR'] = d
    args = n['thorough_args'] if tier == 'thorough' and n['thorough_args'] else n['args']
    to = n['thorough_timeout'] if tier == 'thorough' else n['timeout']
    t0 = time.time()
    so, se = open(os.path.join(d, n['name'] + '.out'), 'wb'), open(os.path.join(d, n['name'] + '.err'), 'wb')
    p = subprocess.Popen([exe] + [str(a) for a in args], stdout=so, stderr=se, cwd=d, env=env, start_new_session=True)
    hung = False
    try:
        rc = p.wait(timeout=to)
    except subprocess.TimeoutExpired:
        hung = True
        os.killpg(p.pid, signal.SIGKILL)
        rc = p.wait()
    try:
        os.killpg(p.pid, signal.SIGKILL)
    except OSError:
        pass
    so.close(), se.close()
    out = open(os.path.join(d, n['name'] + '.out'), errors='replace').read()
    err = open(os.path.join(d, n['name'] + '.err'), errors='replace').read()
    res = dict(name=n['name'], rc=rc, wall=round(time.time() - t0, 2), fails=[], cases=0, samples=[], err=err[-6000:], hung=hung)
    done = False
    for l in out.split('\n'):
        if l.startswith('FAIL '):
            m = re.match(r'FAIL key=(\S+) ?(.*)', l)
            if m:
                res['fails'].append((m.group(1), m.group(2)[:3000]))
        elif l.startswith('CASES '):
            res['cases'] += int(l.split()[1])
        elif l.startswith('SAMPLE '):
            res['samples'].append(l[7:400])
        elif l.startswith('DONE'):
            done = True
    last = ''
    for l in err.split('\n'):
        if l.startswith('LASTCASE '):
            last = l[9:]
    if hung:
        res['fails'].append(('hang', 'harness did not finish in %ds; last case: %s' % (to, last)))
    elif rc != 0 and not res['fails'] or (rc not in (0, 1)):
        kind = 'asan' if 'AddressSanitizer' in err else 'ubsan' if 'runtime error' in err else 'crash'
        summ = re.search(r'SUMMARY: .*', err) or re.search(r'runtime error: .*', err) or re.search(r'.*(Check failed|CHECK failed|terminate called).*', err)
        res['fails'].append((kind, 'rc=%d %s; last case: %s' % (rc, summ.group(0)[:300] if summ else err[-300:], last)))
    elif not done and not res['fails']:
        res['fails'].append(('incomplete', 'harness ended without DONE; last case: ' + last))
    return res


def main():
    pid = sys.argv[1]
    tier = sys.argv[2] if len(sys.argv) > 2 else os.environ.get('VERIF_TIER', 'quick')
    only = os.environ.get('VERIF_ONLY')
    seed = int(os.environ.get('VERIF_SEED', '1') or 1)
    t0 = time.time()
    mod = importlib.import_module('props.' + pid)
    prop = mod.PROP
    scratch = tempfile.mkdtemp(prefix='vf_%s_' % pid)
    evdir = os.environ.get('VERIF_EVID') or os.path.join(VERIF, 'evidence')
    os.makedirs(evdir, exist_ok=True)
    replay = os.path.join(evdir, 'replay-%s.txt' % pid)
    if os.path.exists(replay):
        os.unlink(replay)
    problems = []
    jouts, nres = [], []
    try:
        b = Build(scratch)
        try:
            b.protos()
        except Exception as e:
            problems.append(str(e))
        jobs = [j for j in prop.jobs if (j[2] == 'quick' or tier == 'thorough') and (not only or re.search(only, j[0]))]
        natives = prop.natives if not only or only == 'native' else []
        natives = [] if os.environ.get('VERIF_NONATIVE') else natives
        needed = {j[1] for j in jobs}
        lls = {}
        pool = ThreadPoolExecutor(NCPU)
        lpool = ThreadPoolExecutor(4)
        tf = {nm: pool.submit(b.tu, nm, *prop.tus[nm]) for nm in prop.tus if nm in needed}
        nf = [(n, lpool.submit(b.native, n, pool)) for n in natives]
        for nm, f in tf.items():
            ll, err = f.result()
            if ll is None:
                problems.append(err)
            lls[nm] = ll
        budget = 420 if tier == 'quick' else 780
        # natives start as soon as they are built, on their own threads
        def nat(nfut):
            n, fut = nfut
            exe, err = fut.result()
            if exe is None:
                return n, None, err
            d = os.path.join(scratch, 'run_' + n['name'])
            os.makedirs(d, exist_ok=True)
            return n, run_native(exe, n, tier, seed, d), ''
        rpool = ThreadPoolExecutor(max(1, len(nf)))
        rf = [rpool.submit(nat, x) for x in nf]
        from . import engine as E
        E.JOBSERVER = os.pipe()
        os.write(E.JOBSERVER[1], b'+' * (NCPU + 1))
        payloads = [(prop.pid, j[0], lls[j[1]], j[3], tier, budget) for j in jobs if lls.get(j[1])]
        jouts = run_jobs(payloads, budget + 60, NCPU)
        for f in rf:
            n, r, err = f.result()
            if r is None:
                problems.append(err)
            else:
                nres.append(r)
        pool.shutdown(), lpool.shutdown(), rpool.shutdown()
    except Exception:
        problems.append('check machinery: ' + traceback.format_exc()[-3000:])
    finally:
        if not os.environ.get('VERIF_KEEP'):
            shutil.rmtree(scratch, ignore_errors=True)
        else:
            print('kept', scratch)

    obl = [r for j in jouts for r in j['results']]
    failed = [r for r in obl if r['status'] != 'proved']
    for j in jouts:
        if not j['results']:
            problems.append('job %s generated no obligations' % j['job'])
        elif not any(r['status'] != 'proved' for r in j['results']) and j['covers'] == 0:
            problems.append('job %s: no reachability cover (vacuous)' % j['job'])
    kf = known()
    hits, viol = [], []
    for r in nres:
        for key, what in r['fails']:
            k = [x for x in kf if x[0] == pid and x[1] == key]
            if k:
                hits.append((key, k[0][2]))
            else:
                viol.append((r['name'], key, what, r['err']))
    kfo = []
    for r in list(failed):
        k = [x for x in kf if x[0] == pid and x[1] == 'obligation:' + r['name'].replace(' ', '_')]
        if k:
            kfo.append(r)
            failed.remove(r)
            hits.append((k[0][1], k[0][2]))
    verdict = 0
    lines = []
    if viol or failed or problems:
        verdict = 1
        with open(replay, 'w') as f:
            f.write('property %s\n' % pid)
            f.write('re-run: cd %s && ./check %s %s (VERIF_SEED=%d)\n' % (VERIF, pid, tier, seed))
            for nm, key, what, err in viol:
                f.write('\n== failing input replayed on the real code (native harness %s, key %s)\n%s\n--- stderr\n%s\n' % (nm, key, what, err))
            for r in failed:
                f.write('\n== obligation not discharged: %s\nverifier: %s (%s, %.2fs)\n%s\n%s\n' % (
                    r['name'], r['status'], r['solver'], r['t'], r.get('detail', ''), 'counterexample: ' + r['model'] if r.get('model') else ''))
            for p in problems:
                f.write('\n== not verified: %s\n' % p)
        lines.append('VIOLATION property=%s replay=%s%s' % (pid, replay, '' if viol else ' no-failing-input-found'))
    for key, what in sorted(set(hits)):
        lines.append('KNOWN-FINDING: property=%s %s' % (pid, what))

    fns = sorted({f for j in jouts for f in j['inlined']})
    repo_fns = [f for f in fns if re.match(r'(?!std::|boost::|__gnu)', f)]
    tc = sorted({lab for j in jouts for lab, tr, nm in j['contracts'] if tr})
    back = {}
    for r in obl:
        if r['status'] == 'proved':
            back[r['solver']] = back.get(r['solver'], 0) + 1
    ev = dict(property=pid, tier=tier, seed=seed, level=prop.level, wall_s=round(time.time() - t0, 2),
              coverage=dict(
                  obligations=len(obl) - len(kfo), discharged=len([r for r in obl if r['status'] == 'proved']),
                  checker_cmd='./check %s %s' % (pid, tier),
                  trusted_base=['clang-18 front end and opt lowerinvoke,sroa (IR of /repo source)', 'vf verification-condition generator', 'z3 5.3 / cvc5 1.4',
                                ] + prop.trusted + ['assumed contract: ' + x for x in tc],
                  jobs=[dict(job=j['job'], obligations=len(j['results']), discharged=len([r for r in j['results'] if r['status'] == 'proved']),
                             queries=j['nq'], solver_s=j['solver_s'], wall_s=j.get('wall', 0), covers=j['covers'], loops=j['loops'],
                             bounded=j['bounded']) for j in jouts],
                  functions_verified=repo_fns[:400], library_functions_executed_from_their_bodies=len(fns) - len(repo_fns),
                  backends=back, solver_s=round(sum(j['solver_s'] for j in jouts), 2),
                  bounded_standins=[dict(harness=r['name'], cases=r['cases'], wall_s=r['wall'], samples=r['samples'][:5]) for r in nres],
                  failed=[dict(name=r['name'], status=r['status'], detail=r.get('detail', '')[:600]) for r in failed][:60],
                  evaluations=sum(r['cases'] for r in nres),
              ),
              assumptions=prop.assumptions, violations=[dict(harness=a, key=k, what=w[:1000]) for a, k, w, e in viol] +
              [dict(obligation=r['name'], status=r['status']) for r in failed][:50] + [dict(problem=p[:600]) for p in problems])
    with open(os.path.join(evdir, pid + '.json'), 'w') as f:
        json.dump(ev, f, indent=1)
    for l in lines:
        print(l)
    if os.environ.get('VERIF_VERBOSE'):
        for j in jouts:
            print('%-40s obl %4d fail %3d q %5d solver %6.1f wall %6.1f covers %d' % (
                j['job'], len(j['results']), len([r for r in j['results'] if r['status'] != 'proved']), j['nq'], j['solver_s'], j.get('wall', 0), j['covers']))
            seen = {}
            for r in j['results']:
                if r['status'] != 'proved':
                    k = r['name']
                    seen[k] = seen.get(k, 0) + 1
                    if seen[k] <= 2:
                        print('   ', r['status'], k, r.get('detail', '')[:1200], (r.get('model') or '')[:300] if os.environ['VERIF_VERBOSE'] == '2' else '')
        for r in nres:
            print('native %s cases %d wall %.1f fails %s' % (r['name'], r['cases'], r['wall'], r['fails'][:8]))
        for p in problems:
            print('PROBLEM', p)
    print('%s %s: %d/%d obligations discharged, %d native cases, %.1fs' % (
        pid, 'OK' if verdict == 0 else 'FAILED', ev['coverage']['discharged'], ev['coverage']['obligations'], ev['coverage']['evaluations'], ev['wall_s']))
    sys.stdout.flush()
    os._exit(verdict)


if __name__ == '__main__':
    try:
        main()
    except SystemExit:
        raise
    except BaseException:
        traceback.print_exc()
        p = sys.argv[1] if len(sys.argv) > 1 else '?'
        rp = os.path.join(os.environ.get('VERIF_EVID') or os.path.join(VERIF, 'evidence'), 'replay-%s.txt' % p)
        try:
            open(rp, 'w').write('check machinery failed\n' + traceback.format_exc())
        except Exception:
            pass
        print('VIOLATION property=%s replay=%s no-failing-input-found' % (p, rp))
        sys.stdout.flush()
        os._exit(1)
