"""Driver: builds the code under verification, runs every contract of a
property through the prover, replays refutations on the compiled code, writes
evidence, prints the verdict."""
import gc, os, sys, time, json, pickle, signal, resource, traceback, collections, hashlib
from . import build as B, execu, prove, mach, terms as T
from .execu import Fault, Unsupported

import ctypes
_LIBC = ctypes.CDLL(None)
VERIF = B.VERIF
EVID = os.environ.get('VP_EVID', os.path.join(VERIF, 'evidence'))
REPLAY = os.path.join(EVID, 'replay')
NPROC = int(os.environ.get('VP_JOBS', '8'))
SEED = int(os.environ.get('VERIF_SEED', '1') or 1)
TIER = os.environ.get('VERIF_TIER', 'quick')
FLAGS = {'chacha-avx2': ('avx2',), 'chacha-avx512': ('avx2', 'avx512f', 'avx512vl')}
SCEN = {'sse2': 'chacha-sse2', 'sse41': 'chacha-sse2', 'avx': 'chacha-sse2', 'avx2-no-os': 'chacha-sse2',
        'avx2-xcr0': 'chacha-sse2', 'avx2': 'chacha-avx2', 'avx512f-only': 'chacha-avx2',
        'avx512-no-os': 'chacha-avx2', 'avx512': 'chacha-avx512'}


def cpu_has(flags):
    try:
        for l in open('/proc/cpuinfo'):
            if l.startswith('flags'):
                have = set(l.split())
                return all(f in have for f in flags)
    except OSError:
        pass
    return False


class Task:
    """one contract: a program over the real code with requires/ensures"""

    def __init__(self, name, flavour, prog, cpu=None, secrets=None, post=None, weight=1.0, timeout=240,
                 native=True, funcs='', bounded=None, only_safe=False, max_paths=4000, hooks=None, z3_ms=20000,
                 native_only=False):
        self.name, self.flavour, self.prog, self.cpu = name, flavour, prog, cpu
        self.secrets, self.post, self.weight, self.timeout = secrets, post, weight, timeout
        self.only_safe = only_safe      # functional clauses belong to other properties
        self.native, self.bounded, self.max_paths = native, bounded, max_paths
        self.hooks, self.z3_ms = hooks, z3_ms
        self.native_only = native_only  # a differential run of the compiled code: bounded, never counted as proved
        self.fault_kinds = None         # faults that belong to the property (None: all)
        self.retw = None
        self.pad = {}       # bytes found undefined by the symbolic run (padding)
        if os.environ.get('VP_TIMEOUT'):
            self.timeout = float(os.environ['VP_TIMEOUT'])

    def native_flavour(self):
        f = self.flavour
        rel = '-rel' if f.endswith('-rel') else ''
        f = f[:len(f) - len(rel)]
        if f == 'chacha-auto':
            f = SCEN.get(self.cpu, f)
            if f == 'chacha-avx512':
                f = 'chacha-avx2'
        elif f == 'chacha-auto512':
            f = SCEN.get(self.cpu, f)
        if f in FLAGS and not cpu_has(FLAGS[f]):
            return None
        return f + rel


PROGS = {}


def program(flavour):
    p = PROGS.get(flavour)
    if p is None:
        d = B.build(flavour)
        p = execu.Program(d['ll'])
        p.build = d
        PROGS[flavour] = p
    return p


def retw_of(p):
    tab = {}
    for n, f in p.funcs.items():
        if f.ret is not None:
            tab[n[1:]] = f.ret.n if f.ret.k == 'i' else None
    return lambda fn: tab.get(fn)


def run_task(task):
    """in a child process -> result dict"""
    T.reset()
    P = program(task.flavour)
    pv = prove.Prover(SEED, task.z3_ms)
    t0 = time.time()
    pv.stop_at = t0 + task.timeout
    r = dict(task=task.name, flavour=task.flavour, cpu=task.cpu, obls=[], error=None, unsupported=None)
    if task.native_only:
        r.update(stats={}, solver_s=0.0, terms=0, wall=0.0)
        return r
    try:
        obls, info = mach.explore(task, P, task.cpu, pv, task.secrets, task.max_paths, t0 + task.timeout, task.hooks)
        r['obls'] = obls
        r['info'] = dict(paths=info['paths'], calls=info['calls'], steps=info['steps'], notes=info['notes'])
        r['events'] = [(e[0], e[1], e[2], T.show(e[3], 3)) for e in info['events']]
        r['funcs'] = sorted(set(execu.demangle(f if isinstance(f, str) else f.name) for f in info['funcs']))
        if task.post:
            task.post(task, r, info)
    except Unsupported as e:
        r['unsupported'] = str(e)
    except Fault as e:
        r['unsupported'] = 'fault outside a path: %s' % e
    except RecursionError:
        r['unsupported'] = 'recursion limit'
    except MemoryError:
        r['unsupported'] = 'out of memory'
    except Exception as e:
        r['unsupported'] = 'engine: %r' % e
        r['error'] = traceback.format_exc()
    r['stats'] = dict(pv.stats)
    r['solver_s'] = pv.solver_s
    r['terms'] = T.count()
    r['wall'] = time.time() - t0
    return r


def fork_map(items, fn, nproc, timeout_of, weight_of=lambda x: 1.0, deadline=None, stop=None):
    """runs fn(item) in child processes; -> results in order (dict(timeout=True) when killed)"""
    order = sorted(range(len(items)), key=lambda i: -weight_of(items[i]))
    res = [None] * len(items)
    running = {}
    tmp = os.path.join(B.BUILD, 'tmp.%d' % os.getpid())
    os.makedirs(tmp, exist_ok=True)
    k = 0
    sys.stdout.flush()
    sys.stderr.flush()
    gc.collect()
    gc.freeze()
    gc.set_threshold(100000, 50, 50)
    while k < len(order) or running:
        while k < len(order) and len(running) < nproc and not (deadline and time.time() > deadline):
            i = order[k]
            k += 1
            pid = os.fork()
            if pid == 0:
                code = 0
                try:
                    os.setpgid(0, 0)
                    _LIBC.prctl(1, signal.SIGKILL)
                    resource.setrlimit(resource.RLIMIT_AS, (7 << 30, 7 << 30))
                    sys.setrecursionlimit(20000)
                    r = fn(items[i])
                    with open(os.path.join(tmp, '%d.new' % i), 'wb') as f:
                        pickle.dump(r, f)
                    os.rename(os.path.join(tmp, '%d.new' % i), os.path.join(tmp, '%d' % i))
                except BaseException:
                    traceback.print_exc()
                    code = 9
                sys.stdout.flush()
                sys.stderr.flush()
                os._exit(code)
            try:
                os.setpgid(pid, pid)
            except OSError:
                pass
            running[pid] = (i, time.time())
        if deadline and time.time() > deadline and k < len(order):
            for i in order[k:]:
                res[i] = dict(timeout=True)
            k = len(order)
        if not running:
            break
        try:
            pid, st = os.waitpid(-1, os.WNOHANG)
        except ChildProcessError:
            break
        if pid == 0:
            now = time.time()
            for p, (i, t) in list(running.items()):
                if now - t > timeout_of(items[i]) + 20 or (deadline and now > deadline + 10):
                    try:
                        os.killpg(p, signal.SIGKILL)
                    except OSError:
                        try:
                            os.kill(p, signal.SIGKILL)
                        except OSError:
                            pass
            time.sleep(0.005)
            continue
        if pid not in running:
            continue
        i, t = running.pop(pid)
        f = os.path.join(tmp, '%d' % i)
        if os.path.exists(f):
            with open(f, 'rb') as fh:
                res[i] = pickle.load(fh)
            os.unlink(f)
            if stop and stop(items[i], res[i]):
                for j in order[k:]:
                    res[j] = dict(skipped=True)
                k = len(order)
                for p, (j, _) in running.items():
                    res[j] = dict(skipped=True)
                    for kill in (os.killpg, os.kill):
                        try:
                            kill(p, signal.SIGKILL)
                        except OSError:
                            pass
                for p in running:
                    try:
                        os.waitpid(p, 0)
                    except OSError:
                        pass
                break
        else:
            res[i] = dict(timeout=True, signal=st)
    import shutil
    shutil.rmtree(tmp, ignore_errors=True)
    return res


def native(task, assigns):
    """run the contract on the compiled code; None when that is not possible"""
    f = task.native_flavour()
    if f is None or not task.native:
        return None
    try:
        P = program(f)
    except B.BuildError:
        return None
    return mach.run_native(task, P.build['so'], assigns, retw_of(P), seed=SEED)


def traces(task, pairs):
    f = task.native_flavour()
    tr = f and mach.tracer_lib(B.BUILD)
    if not tr:
        return []
    try:
        P = program(f)
    except B.BuildError:
        return []
    return mach.run_traces(task, P.build['so'], tr, pairs, retw_of(P), task.secrets, seed=SEED)


def cpu_model(task, asg):
    """(leaf 0 eax, leaf 1 ecx, leaf 1 edx, leaf 7 ebx, xcr0) of the counterexample or of the named CPU"""
    if task.cpu is None:
        return None
    if task.cpu == 'any':
        g = lambda k, d=0: asg.get(k, d)
        return (g('cpuid.0.0.eax', 7), g('cpuid.1.0.ecx'), g('cpuid.1.0.edx', 0x07808000), g('cpuid.7.0.ebx'), g('xcr0'))
    c = mach.CPUS[task.cpu]
    return (7, c['cpuid'](1, 0)[2], c['cpuid'](1, 0)[3], c['cpuid'](7, 0)[1], c['xcr0'])


SETS = [(0, 0, 0), (1 << 9 | 1, 0, 0), (1 << 9 | 1 | 1 << 19 | 1 << 20 | 1 << 23, 0, 0),
        (0x7fffffff & ~(3 << 26), 0xffffffff, 0xe7), (0x7fffffff, 0xffffffff, 1), (0x7fffffff, 0xffffffff, 7),
        (0x7fffffff & ~(1 << 12), 0, 7), (0x7fffffff, 0xffffffff, 0xe7), (0x7fffffff, 0x7fffffff, 0xe7), (0x7fffffff, 0x0000ffff, 0xe7)]


def cpu_replay(task, r):
    """dispatch: the compiled code on a stand-in CPU, instruction by instruction"""
    bad = [o for o in r['obls'] if o.status == 'refuted']
    r['replays'] = []
    r['native'] = dict(runs=0, clauses=0, errors=0, sample=None)
    tr = mach.tracer_lib(B.BUILD)
    if not tr or not cpu_has(FLAGS['chacha-avx512']):
        return r
    P = program(task.flavour)
    todo = [(o.assign or {}, cpu_model(task, o.assign or {})) for o in bad[:3]]
    if bad or r['unsupported'] or any(o.status == 'unknown' for o in r['obls']) or task.cpu != 'any':
        todo += [({}, (7, e, 0x07808000, b, x)) for e, b, x in SETS] if task.cpu == 'any' else [({}, cpu_model(task, {}))]
    else:
        e, b, x = SETS[sum(map(ord, task.name)) % len(SETS)]
        todo.append(({}, (7, e, 0x07808000, b, x)))
    for asg, c in todo:
        for y in mach.run_cpu(task, P.build['so'], tr, {k: (list(v) if isinstance(v, tuple) else v) for k, v in asg.items()}, c, retw_of(P), SEED):
            r['native']['runs'] += y['status'] != 'skip'
            r['native']['clauses'] += y['checked']
            if y['status'] == 'fail':
                r['replays'].append((y['failures'][0][0], y))
                return r
    return r


def trace_replay(task, r):
    """constant time: two runs of the compiled code, instruction by instruction, that differ in secrets only"""
    bad = [o for o in r['obls'] if o.status == 'refuted']
    unknown = r['unsupported'] or r.get('error') or any(o.status == 'unknown' for o in r['obls'])
    pairs = [o.assign for o in bad[:2] if o.assign] + [({}, None)] * (4 if bad else 12 if unknown else 1 if TIER == 'quick' else 4)
    x = traces(task, pairs)
    r['replays'] = [(y['failures'][0][0], y) for y in x if y['status'] == 'fail'][:1]
    r['native'] = dict(runs=sum(2 for y in x if y['status'] != 'skip'), clauses=sum(y['checked'] for y in x), errors=0, sample=None)
    return r


def task_and_replay(task):
    r = run_task(task)
    if task.native == 'trace':
        return trace_replay(task, r)
    if task.native == 'cpu':
        return cpu_replay(task, r)
    n = []
    # counterexamples are replayed on the compiled code
    bad = [o for o in r['obls'] if o.status == 'refuted']
    r['replays'] = []
    for o in bad[:3]:
        asg = {k: (list(v) if isinstance(v, tuple) else v) for k, v in (o.assign or {}).items() if not k.startswith('undef!')}
        o.assign = asg
        x = native(task, [asg])
        if x and x[0]['status'] in ('fail', 'crash'):
            r['replays'].append((o.name, x[0]))
    unknown = r['unsupported'] or r.get('error') or any(o.status == 'unknown' for o in r['obls'])
    # seeded concrete runs: a differential check of the engine against the
    # compiled code, and the bounded stand-in where the engine gave no answer
    k = 0
    if task.native_only:
        k = task.bounded
    elif bad and not r['replays']:
        k = 60
    elif unknown:
        k = (task.bounded or 200)
    elif not bad and task.native is True:
        k = 3 if TIER == 'quick' else 24
    r['native'] = None
    if k:
        x = native(task, [{} for _ in range(k)])
        if x is not None:
            r['native'] = dict(runs=sum(1 for y in x if y['status'] != 'skip'),
                               clauses=sum(y['checked'] for y in x),
                               errors=sum(1 for y in x if y['status'] == 'error'),
                               sample=x[0]['used'] if x else None)
            for y in x:
                if y['status'] in ('fail', 'crash'):
                    r['replays'].append((y['failures'][0][0], y))
                    break
    return r


def known_findings(pid):
    try:
        d = json.load(open(os.path.join(VERIF, 'known_findings.json')))
    except OSError:
        return []
    return [x for x in d.get('findings', []) if x.get('property') == pid and x.get('status') == 'known']


def matches(known, t, r):
    names = [o.name for o in r['obls'] if o.status == 'refuted'] + [c for c, _ in r.get('replays', [])]
    for x in known:
        if x['contract'] in t.name and all(x['clause'] in n for n in names):
            return x
    return None


def short(v):
    s = json.dumps(v)
    return s if len(s) < 1500 else s[:1500] + '...'


TRUSTED = [
    'rustc/LLVM front half: the obligations are about the optimised LLVM IR of the real crates (opt-level 2, overflow checks and debug assertions on); code generation from that IR to machine code is trusted',
    'this engine (IR parser, symbolic executor, memory model, term normaliser); cross-checked on every run against the compiled code on concrete inputs',
    'z3 for goals the normaliser does not close',
    'the specifications in /verif/specs (self-tested against published test vectors on every run)',
    'dependency crates (cipher, block-buffer, rand_core, inout, hybrid-array, cpufeatures) are not assumed: their code is executed as part of the obligations, except core::fmt and the panic machinery',
]


def run_check(pid, tasks, assumptions=(), pre=None, deadline_s=None, extra=None, level='proof'):
    t0 = time.time()
    os.makedirs(REPLAY, exist_ok=True)
    deadline = t0 + (deadline_s or (780 if TIER == 'quick' else 5400))
    flavours = sorted(set(t.flavour for t in tasks) | set(f for f in (t.native_flavour() for t in tasks) if f))
    errs = {}
    br = fork_map(flavours, lambda f: safe_build(f), 4, lambda f: 600)
    for f, r in zip(flavours, br):
        if not r or r.get('timeout') or r.get('err'):
            errs[f] = (r or {}).get('err', 'build timed out')
    if errs:
        for f, e in errs.items():
            print('BUILD-ERROR %s\n%s' % (f, e))
        if any(t.flavour in errs for t in tasks):
            print('ERROR property=%s the code under verification does not build' % pid)
            return 2
    for f in flavours:
        if f not in errs:
            program(f)
    extra_obls = []
    if pre:
        extra_obls = pre()
    def confirmed(t, r):
        # one violation shown on the compiled code settles the property: the rest of the contracts is not run
        return bool(r.get('replays')) and not matches(known_findings(pid), t, r)

    res = fork_map(tasks, task_and_replay, NPROC, lambda t: t.timeout, lambda t: t.weight, deadline,
                   None if os.environ.get('VP_ALL') else confirmed)
    skipped = sum(1 for r in res if r and r.get('skipped'))
    # tasks killed by time: bounded stand-in
    late = [i for i, r in enumerate(res) if r is None or r.get('timeout')]
    if late:
        def standin(i):
            t = tasks[i]
            x = traces(t, [({}, None)] * 12) if t.native == 'trace' else cpu_replay(t, rr)['replays'] and None if t.native == 'cpu' else native(t, [{} for _ in range(t.bounded or 100)])
            rr = dict(task=t.name, flavour=t.flavour, cpu=t.cpu, obls=[], error=None, unsupported='no answer within the time limit',
                      replays=[], native=None, stats={}, solver_s=0.0, wall=0.0, funcs=[], info={}, events=[])
            if x is not None:
                rr['native'] = dict(runs=sum(1 for y in x if y['status'] != 'skip'), clauses=sum(y['checked'] for y in x),
                                    errors=sum(1 for y in x if y['status'] == 'error'), sample=x[0]['used'])
                for y in x:
                    if y['status'] in ('fail', 'crash'):
                        rr['replays'].append((y['failures'][0][0], y))
                        break
            return rr
        for i, r in zip(late, fork_map(late, standin, NPROC, lambda i: 60)):
            if r is None or r.get('timeout'):
                t = tasks[i]
                r = dict(task=t.name, flavour=t.flavour, cpu=t.cpu, obls=[], error=None, unsupported='no answer within the time limit',
                         replays=[], native=None, stats={}, solver_s=0.0, wall=0.0, funcs=[], info={}, events=[])
            res[i] = r

    # ------------------------------------------------------------- verdict
    known = known_findings(pid)
    total = disch = 0
    how = collections.Counter()
    funcs = set()
    viol = []
    bounded = []
    notes = []
    solver = 0.0
    stats = collections.Counter()
    samples = []
    nat = nclauses = 0
    goals = 0
    kfs = {}
    paths = calls = steps = 0
    for e in extra_obls:
        total += 1
        if e['status'] == 'proved':
            disch += 1
            how[e['how']] += 1
        elif e['status'] == 'violation':
            viol.append((e['task'], e['name'], None, e.get('detail', '')))
    for t, r in zip(tasks, res):
        if r.get('skipped'):
            continue
        solver += r.get('solver_s', 0)
        stats.update(r.get('stats', {}))
        funcs |= set(r.get('funcs', []))
        inf = r.get('info') or {}
        paths += inf.get('paths', 0)
        calls += inf.get('calls', 0)
        steps += inf.get('steps', 0)
        for x in inf.get('notes', []):
            if (t.name, x) not in notes:
                notes.append((t.name, x))
        nn = r.get('native')
        if nn:
            nat += nn['runs']
            nclauses += nn['clauses']
        replays = r.get('replays', [])
        ref = [o for o in r['obls'] if o.status == 'refuted']
        unk = [o for o in r['obls'] if o.status == 'unknown']
        for o in r['obls']:
            if o.status == 'proved':
                total += 1
                disch += 1
                goals += o.goals
                how[o.how] += 1
        if len(samples) < 4 and r['obls']:
            o = r['obls'][0]
            samples.append(dict(contract=t.name, target=[t.flavour, t.cpu], clause=o.name, status=o.status, by=o.how, goals=o.goals))
        if ref or replays:
            kf = matches(known, t, r)
            if kf:
                if kf['what'] not in kfs:
                    print('KNOWN-FINDING: property=%s %s' % (pid, kf['what']))
                kfs.setdefault(kf['what'], []).extend('%s: %s' % (t.name, c) for c in sorted(set([o.name for o in ref] + [c for c, _ in replays])))
                continue
            total += len(ref)
            viol.append((t, ref, replays, r))
        weak = [x for x in inf.get('notes', []) if 'observation only' in x or 'layout not found' in x]
        if r['unsupported'] or unk or weak:
            bounded.append(dict(contract=t.name, target=[t.flavour, t.cpu], why=r['unsupported'] or (unk[0].how if unk else weak[0]),
                                clauses=sorted(set(o.name for o in unk))[:10],
                                native_runs=(nn or {}).get('runs', 0)))
            if r.get('error') and os.environ.get('VP_DEBUG'):
                print(r['error'])
        if not r['obls'] and not r['unsupported'] and not t.native_only:
            print('ERROR property=%s contract %s produced no obligation (vacuous)' % (pid, t.name))
            return 2
    rc = 0
    seen = set()
    for v in viol:
        rc = 1
        if isinstance(v[0], str):
            path = os.path.join(REPLAY, '%s-%s.json' % (pid, v[0].replace('/', '_')))
            json.dump(dict(property=pid, contract=v[0], clause=v[1], output=v[3]), open(path, 'w'), indent=1)
            print('VIOLATION property=%s replay=%s no-failing-input-found' % (pid, path))
            continue
        t, ref, replays, r = v
        h = hashlib.sha1((t.name + t.flavour + str(t.cpu)).encode()).hexdigest()[:8]
        path = os.path.join(REPLAY, '%s-%s.json' % (pid, h))
        d = dict(property=pid, contract=t.name, target=dict(flavour=t.flavour, cpu=t.cpu, native=t.native_flavour()),
                 failed_obligations=[dict(clause=o.name, path=o.path, detail=o.detail, by=o.how, counterexample=o.assign) for o in ref],
                 replay=[dict(clause=c, status=y['status'], failures=y['failures'], inputs=y['used']) for c, y in replays])
        json.dump(d, open(path, 'w'), indent=1, default=str)
        cl = ', '.join(sorted(set([o.name for o in ref] + [c for c, _ in replays])))[:300]
        print('FAILED %s [%s/%s]: %s' % (t.name, t.flavour, t.cpu, cl))
        if len(seen) < 12:
            print('VIOLATION property=%s replay=%s%s' % (pid, path, '' if replays else ' no-failing-input-found'))
        seen.add(path)
    cov = dict(
        obligations=total, discharged=disch, goals_equated=goals,
        checker_cmd='cd /verif && VERIF_TIER=%s python3-vt checks/run.py %s' % (TIER, pid),
        trusted_base=TRUSTED,
        back_ends=dict(how), solver_seconds=round(solver, 2), solver_stats={k: int(v) for k, v in stats.items()},
        contracts=len(tasks), contracts_not_run_after_a_violation=skipped, symbolic_paths=paths, calls_under_contract=calls, ir_steps=steps,
        functions_under_contract=sorted(f for f in funcs if f and not f.startswith('core::'))[:400],
        functions_count=len(funcs),
        native_runs=nat, native_clauses_checked=nclauses,
        bounded_standins=bounded, known_findings=kfs, notes=['%s: %s' % n for n in notes][:60], samples=samples)
    if extra:
        cov.update(extra(res) if callable(extra) else extra)
    ev = dict(property=pid, tier=TIER if TIER in ('quick', 'thorough') else 'quick', seed=SEED, level=level, coverage=cov,
              assumptions=list(assumptions), wall_s=round(time.time() - t0, 2), violations=len(viol))
    os.makedirs(EVID, exist_ok=True)
    with open(os.path.join(EVID, pid + '.json'), 'w') as f:
        json.dump(ev, f, indent=1, default=str)
    print('%s: %d/%d obligations discharged (%s), %d contracts, %d bounded stand-ins, %d native runs, %.1fs' % (
        pid, disch, total, ', '.join('%s %d' % kv for kv in how.most_common(4)), len(tasks), len(bounded), nat, time.time() - t0))
    for b in bounded[:30]:
        print('  bounded: %s %s: %s %s' % (b['contract'], b['target'], b['why'], b['clauses']))
    if os.environ.get('VP_VERBOSE'):
        grp = collections.Counter()
        for t, r in zip(tasks, res):
            if r.get('skipped'):
                continue
            grp['.'.join(t.name.split('.')[:2]) + ' ' + t.flavour] += r.get('wall', 0)
        print('  by group:', ', '.join('%s %.0fs' % kv for kv in grp.most_common(30)))
        for t, r in sorted(zip(tasks, res), key=lambda x: -x[1].get('wall', 0))[:15]:
            print('  %6.1fs %s [%s/%s] paths=%s' % (r.get('wall', 0), t.name, t.flavour, t.cpu, (r.get('info') or {}).get('paths')))
        for n in notes:
            print('  note', n)
    return rc


def safe_build(f):
    try:
        B.build(f)
        return dict(ok=True)
    except B.BuildError as e:
        return dict(err=str(e))
