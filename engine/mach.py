"""The two machines a contract runs on.

A contract is a Python function `prog(m)` that allocates memory, calls entry
points of the harness and states requires/ensures.  On SymM the calls are
executed symbolically on the IR and every `ensure` becomes a proof obligation
for all inputs; on NatM the very same function runs the compiled code on one
concrete assignment (replay of a counterexample, or the bounded stand-in).
"""
import ctypes, os, random, signal, struct, sys, time, traceback, zlib, pickle, mmap
from . import terms as T
from . import execu, prove
from .execu import Fault, Unsupported

# ---------------------------------------------------------------- CPU models
BASE = {'sse', 'sse2', 'fxsr', 'mmx', 'x87', 'cx8', 'cmov', 'cmpxchg8b'}
L41 = {'sse3', 'ssse3', 'sse4.1', 'sse4.2', 'popcnt', 'crc32', 'cx16', 'sahf'}
LAVX2 = {'xsave', 'avx', 'avx2', 'fma', 'bmi', 'bmi2', 'lzcnt', 'movbe', 'f16c'}
L512 = {'avx512f', 'avx512vl', 'avx512bw', 'avx512dq', 'avx512cd', 'evex512'}


def _cpuid(ecx1, ebx7, edx1=(1 << 25) | (1 << 26) | (1 << 15) | (1 << 24)):
    def q(leaf, sub):
        if leaf == 0:
            return (7, 0x756e6547, 0x6c65746e, 0x49656e69)
        if leaf == 1:
            return (0x306c3, 0, ecx1, edx1)
        if leaf == 7 and sub == 0:
            return (0, ebx7, 0, 0)
        return (0, 0, 0, 0)
    return q


_e41 = (1 << 0) | (1 << 9) | (1 << 19) | (1 << 20) | (1 << 23) | (1 << 13)
_eavx = _e41 | (1 << 26) | (1 << 27) | (1 << 28) | (1 << 12)
CPUS = {
    'sse2': dict(features=frozenset(BASE), cpuid=_cpuid(0, 0), xcr0=0),
    'sse41': dict(features=frozenset(BASE | L41), cpuid=_cpuid(_e41, 0), xcr0=0),
    # AVX2 in CPUID, but the OS has not enabled the AVX state
    'avx2-no-os': dict(features=frozenset(BASE | L41), cpuid=_cpuid(_eavx & ~(1 << 27) & ~(1 << 26), 1 << 5), xcr0=0),
    'avx2-xcr0': dict(features=frozenset(BASE | L41 | {'xsave'}), cpuid=_cpuid(_eavx, 1 << 5), xcr0=1),
    'avx': dict(features=frozenset(BASE | L41 | {'xsave', 'avx'}), cpuid=_cpuid(_eavx & ~(1 << 12), 0), xcr0=7),
    'avx2': dict(features=frozenset(BASE | L41 | LAVX2), cpuid=_cpuid(_eavx, (1 << 5) | (1 << 3) | (1 << 8)), xcr0=7),
    'avx512f-only': dict(features=frozenset(BASE | L41 | LAVX2 | {'avx512f', 'evex512'}),
                         cpuid=_cpuid(_eavx, (1 << 5) | (1 << 3) | (1 << 8) | (1 << 16)), xcr0=0xe7),
    'avx512-no-os': dict(features=frozenset(BASE | L41 | LAVX2),
                         cpuid=_cpuid(_eavx, (1 << 5) | (1 << 3) | (1 << 8) | (1 << 16) | (1 << 31)), xcr0=7),
    'avx512': dict(features=frozenset(BASE | L41 | LAVX2 | L512),
                   cpuid=_cpuid(_eavx, (1 << 5) | (1 << 3) | (1 << 8) | (1 << 16) | (1 << 31)), xcr0=0xe7),
}
# every CPU and OS: CPUID and XCR0 are arbitrary inputs of the contract
CPUS['any'] = dict(any=True)


class Ptr:
    __slots__ = ('name', 'addr', 'size', 'obj', 'mis')

    def __init__(self, name, addr, size, obj):
        self.name, self.addr, self.size, self.obj = name, addr, size, obj

    def __add__(self, k):
        return Ptr(self.name, self.addr + k, self.size - k, self.obj)


class PathStop(Exception):
    pass


class LeakFound(Exception):
    pass


class Ctx:
    """path context for the executor"""

    def __init__(self, prover, prefix, pending, secrets=None):
        self.pv = prover
        self.prefix = prefix
        self.trace = []
        self.pending = pending
        self.pc = []
        self.known = {}
        self.stats = prover.stats
        self.events = []
        self.secrets = secrets
        self._sup = {}
        self.clauses = []
        self.where = None
        self.witness = None

    def _secret(self, n):
        if not self.secrets:
            return None
        for v in T.support([n]):
            nm = v.aux if v.op == 'var' else v.aux[0]
            if self.secrets(nm):
                return nm
        return None

    def feasible(self, c):
        return self.pv.feasible(self.pc, c)

    def assume_path(self, c):
        if c.op == 'const':
            if not c.aux:
                raise PathStop()
            return
        self.pc.append(c)
        self.learn(c)

    def learn(self, c):
        if self.known.get(c.id) == 1:
            return
        self.known[c.id] = 1
        n = T.not_(c)
        self.known[n.id] = 0
        if c.op == 'and':
            for a in c.args:
                self.learn(a)
        if n.op == 'and':
            self.clauses.append(n)
        # unit propagation over the negated conjunctions
        for k in list(self.clauses):
            left = [a for a in k.args if self.known.get(a.id) != 1]
            if any(self.known.get(a.id) == 0 for a in left):
                continue
            if len(left) == 1:
                self.learn(T.not_(left[0]))

    def decide(self, c, where=None):
        if c.op == 'const':
            return c.aux
        k = self.known.get(c.id)
        if k is not None:
            return k
        i = len(self.trace)
        nc = T.not_(c)
        if i < len(self.prefix):
            v, forced = self.prefix[i]
        else:
            if not self.feasible(c):
                v, forced = 0, True
                self.stats['branches_discharged'] += 1
            elif not self.feasible(nc):
                v, forced = 1, True
                self.stats['branches_discharged'] += 1
            else:
                v, forced = 1, False
                if where != 'spec':
                    self.leak('branch', c)
                self.pending.append(self.trace + [(0, False)])
        self.trace.append((v, forced))
        cc = c if v else nc
        if forced:
            self.learn(cc)
        else:
            self.pc.append(cc)
            self.learn(cc)
        return v

    def concretize(self, n, what):
        """enumerate the feasible values of a term by forking"""
        for _ in range(600):
            # pick a value consistent with the path
            i = len(self.trace)
            if i < len(self.prefix):
                v = self.prefix[i][2] if len(self.prefix[i]) > 2 else None
            else:
                v = None
            if v is None:
                ok = self.pv.sample_ok(self.pc)
                if ok:
                    v = T.Evaluator(self.pv.samples.env, self.pv.samples.n).run([n])[0][ok[0]]
                else:
                    st, m = self.pv.check(self.pc)
                    if st != 'sat':
                        raise Unsupported('cannot enumerate ' + what)
                    import z3
                    v = m.eval(prove.bv(n, self.pv.z3memo), model_completion=True).as_long()
            c = T.eq(n, T.const(v, n.w))
            i = len(self.trace)
            d = self.decide(c, what)
            if len(self.trace) > i:
                t = self.trace[i]
                self.trace[i] = (t[0], t[1], v)
                # patch the alternative we may have queued
                if self.pending and len(self.pending[-1]) == i + 1 and not t[1] and i >= len(self.prefix):
                    self.pending[-1][i] = (0, False, v)
            if d:
                return v
        raise Unsupported('too many values for ' + what)

    def leak(self, kind, n):
        """records that a branch condition, address or operand depends on secrets (2-safety: the
        same public inputs and path allow two different values)"""
        s = self._secret(n)
        if not s:
            return
        k = (kind, n.id, len(self.pc))
        if k in self._sup:
            return
        d = self._sup[k] = self.pv.depends(n, self.pc, self.secrets)
        if d is not False:
            self.events.append((kind, s, self.where, n, d))
        if d:
            self.witness = self.pv.witness
            raise LeakFound()

    def note_addr(self, addr):
        if self.secrets:
            self.leak('address', addr)

    def note_op(self, kind, n):
        if self.secrets:
            self.leak(kind, n)


class Obl:
    __slots__ = ('task', 'name', 'path', 'status', 'how', 'detail', 'assign', 'goals')

    def __init__(self, task, name, path, status, how='', detail='', assign=None, goals=1):
        self.task, self.name, self.path, self.status = task, name, path, status
        self.how, self.detail, self.assign, self.goals = how, detail, assign, goals


class SymM:
    kind = 'sym'

    def __init__(self, prog, ctx, cpu, task):
        self.ctx = ctx
        self.ex = execu.Exec(prog, ctx, CPUS.get(cpu) if cpu else None)
        self.task = task
        self.notes = []
        self.goals = []       # (name, [(a,b)])
        self.calls = 0
        self.mem = self.ex.mem

    # inputs -------------------------------------------------------------
    sfx = ''        # appended to input names: independent copies of the inputs (2-safety contracts)

    def inp(self, name, w, special=None):
        name += self.sfx
        if special is not None:
            self.ctx.pv.samples.special[name] = special
        return T.var(name, w)

    def inp_bytes(self, name, n, gran=1):
        """n arbitrary bytes; gran: bytes per underlying variable"""
        out = []
        i = 0
        k = 0
        while i < n:
            g = gran if i + gran <= n else 1
            v = T.var('%s%s.%d' % (name, self.sfx, i), 8 * g)
            for b in range(g):
                out.append(T.extract(v, 8 * b + 7, 8 * b))
            i += g
        return out

    def inp_arr(self, name, n, w):
        return T.avar(name + self.sfx, n, w)

    # memory -------------------------------------------------------------
    def buf(self, name, size, init=None, align=1, mis=1, ro=False):
        if align > 1:
            mis = 0
        a = self.mem.alloc(size, name, align, mis)
        if init is not None:
            for i, b in enumerate(init):
                a.cells[i] = (b, 0)
        a.ro = ro
        return Ptr(name, a.base, size, a)

    def setro(self, p, ro=True):
        p.obj.ro = ro

    def write(self, p, off, bs):
        a = p.obj
        o = p.addr - a.base + off
        for i, b in enumerate(bs):
            self.mem.store_bits(a, o + i, b, 1)

    def write_arr(self, p, off, A):
        """place an array term of byte-multiple elements"""
        a = p.obj
        n = T.alen(A)
        self.mem.make_seg(a, p.addr - a.base + off, n, A.w // 8, A)

    def read_arr(self, p, off, n, esz):
        a = p.obj
        o = p.addr - a.base + off
        c = a.cells[o]
        if c is not None and type(c[0]) is execu.Seg and c[1] == 0 and c[0].n == n and c[0].esz == esz:
            return c[0].A
        return T.alist([self.mem.load_bits(a, o + i * esz, esz) for i in range(n)])

    def read(self, p, n, off=0):
        a = p.obj
        o = p.addr - a.base + off
        return [self.mem.load_bits(a, o + i, 1) for i in range(n)]

    def word(self, p, off, n):
        a = p.obj
        return self.mem.load_bits(a, p.addr - a.base + off, n)

    # calls --------------------------------------------------------------
    def call(self, fn, *args):
        f = self.ex.p.funcs.get('@' + fn)
        if f is None:
            raise Unsupported('no entry point ' + fn)
        av = []
        for (t, n, at), a in zip(f.params, args):
            if isinstance(a, Ptr):
                av.append(T.const(a.addr, 64))
            elif isinstance(a, int):
                av.append(T.const(a, 64 if t.k == 'p' else t.n))
            else:
                av.append(a)
        if len(av) != len(f.params):
            raise Unsupported('entry %s takes %d arguments' % (fn, len(f.params)))
        self.calls += 1
        self.ctx.where = fn
        return self.ex.run(f, av)

    def size(self, fn):
        v = self.call(fn)
        return v.val

    def size_call(self, fn, *args):
        return self.call(fn, *args).val

    def decided_zero(self, v):
        """is the term 0 here? (forks when both are possible)"""
        return bool(self.ctx.decide(T.eq(v, T.const(0, v.w)), 'spec'))

    def skip(self):
        """the clause does not apply to this target"""
        self.ensure_true('not applicable here', T.const(1, 1))

    def same(self, p, q, n):
        a = self.snapshot(p, n)
        b = self.snapshot(q, n)
        return all(x is y for x, y in zip(a, b))

    # logic --------------------------------------------------------------
    def assume(self, c):
        """requires clause"""
        if c.op == 'const' and not c.aux:
            raise PathStop()
        if not self.ctx.feasible(c):
            raise PathStop()
        self.ctx.assume_path(c)

    def branch(self, c):
        return bool(self.ctx.decide(c, 'spec'))

    def ensure(self, name, pairs):
        """pairs: list of (actual, expected)"""
        if isinstance(pairs, tuple):
            pairs = [pairs]
        if self.task.only_safe:
            return
        pairs = pairs or [(T.const(0, 1), T.const(0, 1))]
        self.goals.append((name, [(a, T.lift(b, a.w)) for a, b in pairs]))

    def holds(self, pairs):
        """is every pair provably equal here? (used to choose between representations, never as a clause)"""
        return all(r[0] == 'proved' for r in self.ctx.pv.prove([p for p in pairs if p[0] is not p[1]], self.ctx.pc, known=self.ctx.known))

    def ensure_true(self, name, c):
        if self.task.only_safe:
            return
        self.goals.append((name, [(c, T.const(1, 1))]))

    def ensure_bytes(self, name, p, off, expected):
        self.ensure(name, list(zip(self.read(p, len(expected), off), expected)))

    def snapshot(self, p, n=None):
        a = p.obj
        o = p.addr - a.base
        n = a.size - o if n is None else n
        out = []
        for i in range(n):
            c = a.cells[o + i]
            if c is None:
                out.append(None)
            else:
                b = self.mem.load_bits(a, o + i, 1)
                y = b.args[0] if b.op == 'extract' else b
                out.append(None if y.op == 'var' and y.aux.startswith('undef!') else b)
        return out

    def clone(self, p):
        """bitwise copy of an object"""
        q = self.buf(p.name + "'", p.size, align=max(p.obj.align, 1))
        self.mem.copy(T.const(q.addr, 64), T.const(p.addr, 64), p.size)
        return q

    def state_eq(self, name, A, B, observe=None, mask=None):
        """object A is an instance of the canonical object B"""
        if self.task.only_safe:
            return
        sa = self.snapshot(A)
        sb = self.snapshot(B)
        pairs = []
        for i, (x, y) in enumerate(zip(sa, sb)):
            if y is None or (mask is not None and not mask[i]):
                continue
            if x is None:
                x = self.mem.undef(8)
            if x is not y:
                pairs.append((x, y))
        if pairs:
            rs = self.ctx.pv.prove(pairs, self.ctx.pc, known=self.ctx.known)
            if all(r[0] == 'proved' for r in rs):
                self.goals.append((name, pairs))
                return
            if observe is not None:
                # the private representation differs: fall back to what callers can observe
                self.note('%s: representation differs, compared by observation only' % name)
                x = observe(self, self.clone(A))
                y = observe(self, self.clone(B))
                self.goals.append((name + ' (observed)', list(zip(x, y))))
                return
        self.goals.append((name, pairs or [(T.const(0, 1), T.const(0, 1))]))

    def note(self, s):
        if s not in self.notes:
            self.notes.append(s)

    # ---- 2-safety clauses
    def erased(self, name, A, B, n=None):
        """objects A and B (same operation, independent secrets) hold the same bytes"""
        n = A.size if n is None else n
        sa, sb = self.snapshot(A, n), self.snapshot(B, n)
        pad = self.task.pad.setdefault(name, set())
        pairs = []
        for i, (x, y) in enumerate(zip(sa, sb)):
            if x is None or y is None:
                pad.add(i)
            elif x is not y:
                pairs.append((x, y))
        self.goals.append((name, pairs or [(T.const(0, 1), T.const(0, 1))]))

    def call_watched(self, fn, *args):
        """runs an entry whose object lives on its own stack -> bytes that object's memory holds at the end"""
        seen = []

        def h(ex, name, a, I):
            al, off = ex.mem.find(a[0], 1, 'watch')
            seen.append((al, off, ex.conc(a[1], 'watch')))
            return None
        self.ex.fn_hooks['@vp_touch'] = h
        self.call(fn, *args)
        if len(seen) != 1:
            raise Unsupported('object not watched')
        al, off, n = seen[0]
        out = []
        for i in range(n):
            c = al.cells[off + i]
            b = None
            if c is not None:
                b = self.mem.load_bits(al, off + i, 1)
                y = b.args[0] if b.op == 'extract' else b
                if y.op == 'var' and y.aux.startswith('undef!'):
                    b = None
            out.append(b)
        return out

    def erased_bytes(self, name, sa, sb):
        pairs = [(x, y) for x, y in zip(sa, sb) if x is not None and y is not None and x is not y]
        self.goals.append((name, pairs or [(T.const(0, 1), T.const(0, 1))]))

    def fmt(self, p, c, alt):
        """-> everything Debug::fmt hands to the formatter"""
        from . import fmtmodel
        fm = fmtmodel.FmtModel(self)
        self.ex.ext_hooks['*'] = fm.hook
        r = self.call(p + '_dbg', c, Ptr('f', fm.formatter(alt).aux, 24, None))
        fm.put('result', r)
        return fm.out

    def same_output(self, name, x, y):
        if [(t, len(v)) for t, v in x] != [(t, len(v)) for t, v in y]:
            self.goals.append((name, [(T.const(0, 1), T.const(1, 1))]))
            return
        self.ensure(name, [(a, b) for (_, u), (_, v) in zip(x, y) for a, b in zip(u, v)])

    def events(self):
        return self.ctx.events


def explore(task, prog_ir, cpu, pv, secrets=None, max_paths=4000, deadline=None, hooks=None):
    """-> (obligations, info)"""
    pending = [[]]
    obls = []
    info = dict(paths=0, events=[], calls=0, steps=0, funcs=set(), notes=[])
    while pending:
        if deadline and time.time() > deadline:
            raise Unsupported('time budget')
        prefix = pending.pop()
        ctx = Ctx(pv, prefix, pending, secrets)
        m = SymM(prog_ir, ctx, cpu, task)
        if hooks:
            m.ex.ext_hooks.update(hooks)
        m.notes = info['notes']
        pid = info['paths']
        info['paths'] += 1
        if info['paths'] > max_paths:
            raise Unsupported('too many paths')
        fault = None
        try:
            task.prog(m)
        except PathStop:
            continue
        except LeakFound:
            info['events'] += [e for e in ctx.events]
            leak_obl(task, ctx, pid, obls)
            return obls, info
        except Fault as e:
            fault = e
            if task.fault_kinds and e.kind not in task.fault_kinds:
                obls.append(Obl(task.name, 'safe', pid, 'proved', 'the path ends in a fault that is another property'))
                continue
        finally:
            info['calls'] += m.calls
            info['steps'] += m.ex.steps
            info['funcs'] |= m.ex.executed
        info['events'] += [e for e in ctx.events]
        # batch all goals of the path
        flat = []
        for g in m.goals:
            flat += g[1]
        res = pv.prove(flat, ctx.pc, known=ctx.known)
        k = 0
        for g in m.goals:
            rs = res[k:k + len(g[1])]
            k += len(g[1])
            bad = [(r, p) for r, p in zip(rs, g[1]) if r[0] == 'refuted']
            unk = [(r, p) for r, p in zip(rs, g[1]) if r[0] == 'unknown']
            if bad:
                r, p = bad[0]
                obls.append(Obl(task.name, g[0], pid, 'refuted', 'simulation/solver', 'goal: %s == %s' % (T.show(p[0], 2), T.show(p[1], 2)), r[1], len(rs)))
            elif unk:
                obls.append(Obl(task.name, g[0], pid, 'unknown', unk[0][0][1], '', None, len(rs)))
            else:
                hows = sorted(set(r[1] for r in rs))
                obls.append(Obl(task.name, g[0], pid, 'proved', '+'.join(hows), '', None, len(rs)))
        if secrets:
            pass            # whether it can panic is another property; the trace up to there counts
        elif fault is not None:
            # the path is feasible unless pc is not
            ok = pv.sample_ok(ctx.pc)
            asg = None
            st = 'refuted'
            if ok:
                asg = pv.assignment_at(ctx.pc, ok[0]) if ctx.pc else {}
            else:
                s, mo = pv.check(ctx.pc)
                if s == 'unsat':
                    st = 'proved'
                elif s == 'sat':
                    asg = pv.model_assignment(mo, ctx.pc)
                else:
                    st = 'unknown'
            if st == 'refuted' or st == 'unknown':
                obls.append(Obl(task.name, 'safe: ' + fault.kind, pid, st, 'symbolic execution', fault.detail, asg))
            else:
                obls.append(Obl(task.name, 'safe', pid, 'proved', 'infeasible path'))
        else:
            obls.append(Obl(task.name, 'safe', pid, 'proved', 'symbolic execution (no panic, no out-of-bounds or misaligned access, frame)'))
        if secrets:
            leak_obl(task, ctx, pid, obls)
        if any(o.status == 'refuted' for o in obls):
            break           # the contract is violated: the remaining paths add nothing
    return obls, info


def leak_obl(task, ctx, pid, obls):
    ev = [e for e in ctx.events if e[4]] or ctx.events
    if not ev:
        obls.append(Obl(task.name, 'no branch, address or divisor depends on secrets', pid, 'proved', 'taint by term support + relational query'))
    else:
        e = ev[0]
        obls.append(Obl(task.name, 'no branch, address or divisor depends on secrets', pid, 'refuted' if e[4] else 'unknown', 'relational query',
                        '%s depending on %s in %s: %s' % (e[0], e[1], e[2], T.show(e[3], 4)), ctx.witness if e[4] else None))


# ------------------------------------------------------------------ native
class NatM:
    kind = 'native'
    PAD = 256

    def __init__(self, lib, assign, seed, task):
        self.lib = lib
        self.assign = assign
        self.rnd = random.Random(seed)
        self.seed = seed
        self.failures = []
        self.bufs = []
        self.used = {}
        self.checked = 0
        self.task = task

    sfx = ''

    def _val(self, name, w, special=None):
        name += self.sfx
        if name in self.assign:
            v = self.assign[name]
        else:
            r = self.rnd.random()
            if special and r < 0.5:
                v = self.rnd.choice(special)
            elif r < 0.08:
                v = 0
            elif r < 0.12:
                v = (1 << w) - 1
            elif r < 0.3 and w >= 16:
                v = (1 << w) - 1 - self.rnd.randrange(40)
            else:
                v = self.rnd.getrandbits(w)
        v &= (1 << w) - 1
        self.used[name] = v
        return v

    def inp(self, name, w, special=None):
        return T.const(self._val(name, w, special), w)

    def inp_bytes(self, name, n, gran=1):
        out = []
        i = 0
        while i < n:
            g = gran if i + gran <= n else 1
            nm = '%s%s.%d' % (name, self.sfx, i)
            if nm in self.assign:
                v = self.assign[nm]
            else:
                v = self.rnd.getrandbits(8 * g)
            self.used[nm] = v
            for b in range(g):
                out.append(T.const(v >> (8 * b), 8))
            i += g
        return out

    def inp_arr(self, name, n, w):
        name += self.sfx
        if name in self.assign:
            v = self.assign[name]
        else:
            v = [self.rnd.getrandbits(w) for _ in range(n)]
        self.used[name] = list(v)
        return T.alist([T.const(x, w) for x in v])

    def buf(self, name, size, init=None, align=1, mis=1, ro=False):
        if align > 1:
            mis = 0
        P = self.PAD
        raw = self._raw(size + 2 * P + 128)
        base = ctypes.addressof(raw)
        a = (base + P + 63) // 64 * 64 + mis
        fill = bytes([0xA5 ^ (self.seed & 0xff)])
        ctypes.memset(base, fill[0], size + 2 * P + 128)
        p = Ptr(name, a, size, raw)
        if init is not None:
            ctypes.memmove(a, bytes([b.val for b in init]), len(init))
        self.bufs.append([p, base, fill, ro, bytes(ctypes.string_at(a, size)) if ro else None])
        return p

    def _raw(self, n):
        return ctypes.create_string_buffer(n)

    def setro(self, p, ro=True):
        for b in self.bufs:
            if b[0].obj is p.obj:
                b[3] = ro
                b[4] = bytes(ctypes.string_at(b[0].addr, b[0].size)) if ro else None

    def write(self, p, off, bs):
        ctypes.memmove(p.addr + off, bytes([b.val for b in bs]), len(bs))

    def write_arr(self, p, off, A):
        n = T.alen(A)
        iw = T.idxw(n)
        b = b''.join(T.aselect(A, T.const(i, iw)).val.to_bytes(A.w // 8, 'little') for i in range(n))
        ctypes.memmove(p.addr + off, b, len(b))

    def read_arr(self, p, off, n, esz):
        b = ctypes.string_at(p.addr + off, n * esz)
        return T.alist([T.const(int.from_bytes(b[i * esz:(i + 1) * esz], 'little'), 8 * esz) for i in range(n)])

    def read(self, p, n, off=0):
        return [T.const(x, 8) for x in ctypes.string_at(p.addr + off, n)]

    def word(self, p, off, n):
        return T.const(int.from_bytes(ctypes.string_at(p.addr + off, n), 'little'), 8 * n)

    def call(self, fn, *args):
        f = getattr(self.lib, fn)
        av = []
        for a in args:
            if isinstance(a, Ptr):
                av.append(ctypes.c_void_p(a.addr))
            elif isinstance(a, int):
                av.append(ctypes.c_uint64(a))
            else:
                v = a.val
                av.append(ctypes.c_uint64(v))
        f.restype = ctypes.c_uint64
        r = f(*av)
        w = self.task.retw(fn)
        return T.const(r, w) if w else None

    def size(self, fn):
        return self.call(fn).val

    def size_call(self, fn, *args):
        return self.call(fn, *args).val

    def decided_zero(self, v):
        return v.val == 0

    def skip(self):
        pass

    def same(self, p, q, n):
        return ctypes.string_at(p.addr, n) == ctypes.string_at(q.addr, n)

    def assume(self, c):
        if not c.val:
            raise PathStop()

    def branch(self, c):
        return bool(c.val)

    def ensure(self, name, pairs):
        if isinstance(pairs, tuple):
            pairs = [pairs]
        self.checked += 1
        if self.task.only_safe:
            return
        for i, (a, b) in enumerate(pairs):
            b = T.lift(b, a.w)
            if a.val != b.val:
                self.failures.append((name, i, a.val, b.val))
                return

    def holds(self, pairs):
        return all(a.val == b.val for a, b in pairs)

    def ensure_true(self, name, c):
        self.checked += 1
        if not c.val and not self.task.only_safe:
            self.failures.append((name, 0, 0, 1))

    def ensure_bytes(self, name, p, off, expected):
        self.ensure(name, list(zip(self.read(p, len(expected), off), expected)))

    def snapshot(self, p, n=None):
        return self.read(p, p.size if n is None else n)

    def clone(self, p):
        q = self.buf(p.name + "'", p.size, align=64)
        ctypes.memmove(q.addr, p.addr, p.size)
        return q

    def note(self, s):
        pass

    def erased(self, name, A, B, n=None):
        n = A.size if n is None else n
        self.checked += 1
        pad = self.task.pad.get(name, ())
        for i, (x, y) in enumerate(zip(ctypes.string_at(A.addr, n), ctypes.string_at(B.addr, n))):
            if x != y and i not in pad:
                self.failures.append((name, i, x, y))
                return

    def call_watched(self, fn, *args):
        return None         # a dead stack slot cannot be read back reliably

    def erased_bytes(self, name, sa, sb):
        pass

    def fmt(self, p, c, alt):
        o = self.buf('fmt', 65536)
        n = self.call(p + '_dbgs', c, o, 65536, T.const(1 if alt else 0, 8)).val
        return [('length', [T.const(n, 64)]), ('text', self.read(o, min(n, 65536)))]

    def same_output(self, name, x, y):
        self.checked += 1
        if x != y and [v.val for _, u in x for v in u] != [v.val for _, u in y for v in u]:
            self.failures.append((name, 0, bytes(v.val & 255 for v in x[1][1][:200]).decode('latin1'), bytes(v.val & 255 for v in y[1][1][:200]).decode('latin1')))

    def state_eq(self, name, A, B, observe=None, mask=None):
        if observe is None or self.task.only_safe:
            return
        self.checked += 1
        x = observe(self, self.clone(A))
        y = observe(self, self.clone(B))
        for i, (a, b) in enumerate(zip(x, y)):
            if a.val != b.val:
                self.failures.append((name + ' (observed)', i, a.val, b.val))
                return

    def events(self):
        return []

    def finish(self):
        P = self.PAD
        for p, base, fill, ro, orig in self.bufs:
            lo = ctypes.string_at(base, p.addr - base)
            hi = ctypes.string_at(p.addr + p.size, P // 2)
            if lo != fill * len(lo) or hi != fill * len(hi):
                self.failures.append(('memory: write outside ' + p.name, 0, 0, 0))
            if ro and ctypes.string_at(p.addr, p.size) != orig:
                self.failures.append(('frame: write to read-only ' + p.name, 0, 0, 0))


ARENA = 32 << 20


class TraceM(NatM):
    """runs a contract on the compiled code one machine instruction at a time; buffers lie at the same
    addresses in every run"""

    def __init__(self, lib, assign, seed, task, tracer, arena):
        NatM.__init__(self, lib, assign, seed, task)
        self.tracer, self.arena, self.top = tracer, arena, 0
        self.traces = []
        self.out = (ctypes.c_uint64 * (2 * 400000))()
        self.rnd2 = None

    def _raw(self, n):
        b = self.top
        self.top = (b + n + 63) // 64 * 64
        if self.top > ARENA:
            raise MemoryError('arena')
        return (ctypes.c_char * n).from_address(ctypes.addressof(self.arena) + b)

    def call(self, fn, *args):
        if fn.endswith('_size') or fn.endswith('_align'):
            return NatM.call(self, fn, *args)
        av = (ctypes.c_uint64 * 10)()
        for i, a in enumerate(args):
            av[i] = (a.addr if isinstance(a, Ptr) else a if isinstance(a, int) else a.val) & ((1 << 64) - 1)
        used = ctypes.c_uint64(0)
        self.tracer.vp_trace.restype = ctypes.c_uint64
        r = self.tracer.vp_trace(ctypes.cast(getattr(self.lib, fn), ctypes.c_void_p), av, self.out, ctypes.c_uint64(400000), ctypes.byref(used))
        self.traces.append((fn, used.value, ctypes.string_at(self.out, 16 * min(used.value, 400000))))
        w = self.task.retw(fn)
        return T.const(r, w) if w else None


def tracer_lib(bdir):
    """the single-stepper, compiled on first use; None when that is not possible"""
    import subprocess
    src = os.path.join(os.path.dirname(os.path.abspath(__file__)), 'tracer.c')
    out = os.path.join(bdir, 'tracer.so')
    if not os.path.exists(out) or os.path.getmtime(out) < os.path.getmtime(src):
        tmp = '%s.%d' % (out, os.getpid())
        r = subprocess.run(['gcc', '-O1', '-fPIC', '-shared', '-fcf-protection=none', '-o', tmp, src], stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
        if r.returncode:
            return None
        os.rename(tmp, out)
    return out


def run_traces(task, so, tracer, pairs, retw, is_secret, seed=1, timeout=100):
    """runs the contract on the compiled code for pairs of assignments that differ in secrets only and compares
    the recorded instruction and address traces.  pairs: [(A, B)]; B None = the public part of A with fresh secrets.
    -> results like run_native"""
    r, w = os.pipe()
    sys.stdout.flush()
    pid = os.fork()
    if pid == 0:
        os.close(r)
        dn = os.open('/dev/null', os.O_WRONLY)
        os.dup2(dn, 1)
        os.dup2(dn, 2)
        try:
            signal.alarm(timeout)
            lib = ctypes.CDLL(so, mode=os.RTLD_NOW)
            tr = ctypes.CDLL(tracer, mode=os.RTLD_NOW)
            arena = mmap.mmap(-1, ARENA)
            buf = (ctypes.c_char * ARENA).from_buffer(arena)
            base = int([l for l in open('/proc/self/maps') if so in l][0].split('-')[0], 16)
            task.retw = retw

            def one(assign, sd):
                T.reset()
                m = TraceM(lib, assign, sd, task, tr, buf)
                try:
                    task.prog(m)
                except PathStop:
                    return None, m
                return m.traces, m

            out = []
            for k, (A, B) in enumerate(pairs):
                sd = seed * 7919 + k
                x, m = one(A, sd)
                if x is None:
                    out.append(dict(status='skip', failures=[], used={}, checked=0, index=k))
                    continue
                A = dict(m.used)
                if B is None:
                    B = {n: v for n, v in A.items() if not is_secret(n)}
                    sd += 7777777
                else:
                    B = dict(A, **B)
                x, m = one(A, sd)       # again, now that everything is initialised
                y, m2 = one(B, sd)
                if x is None or y is None:
                    out.append(dict(status='skip', failures=[], used={}, checked=0, index=k))
                    continue
                fail = []
                if x != y:
                    x2, _ = one(A, sd)
                    y2, m2 = one(dict(m2.used), sd)
                    if x2 == x and y2 == y:
                        for (f, n1, t1), (g, n2, t2) in zip(x, y):
                            if t1 != t2 or n1 != n2:
                                j = next((i for i in range(0, min(len(t1), len(t2)), 16) if t1[i:i + 16] != t2[i:i + 16]), min(len(t1), len(t2)))
                                a, b = (int.from_bytes(t[j:j + 8], 'little') - base for t in (t1, t2))
                                fail.append(('secrets change the executed trace of %s (%d / %d instructions): %s' % (
                                    f, n1, n2, 'another address operand' if a == b else 'another instruction'), j // 16, hex(a), hex(b)))
                                break
                out.append(dict(status='fail' if fail else 'ok', failures=fail, used=dict(A=A, B=dict(m2.used)) if fail else {},
                                checked=sum(t[1] for t in x), index=k))
            with os.fdopen(w, 'wb') as f:
                pickle.dump(out, f)
        except BaseException:
            try:
                if os.environ.get('VP_DEBUG'):
                    with open('/tmp/.vp_trace_err', 'w') as fe:
                        traceback.print_exc(file=fe)
            except Exception:
                pass
            os._exit(77)
        os._exit(0)
    os.close(w)
    with os.fdopen(r, 'rb') as f:
        data = f.read()
    os.waitpid(pid, 0)
    try:
        return pickle.loads(data)
    except Exception:
        return []


def run_cpu(task, so, tracer, assign, cpu, retw, seed=1, timeout=60):
    """runs the contract on the compiled code one instruction at a time on a stand-in CPU: CPUID and XGETBV answer
    what `cpu` (max, ecx1, edx1, ebx7, xcr0) says; -> result like run_native: did an instruction the CPU lacks run?"""
    r, w = os.pipe()
    sys.stdout.flush()
    pid = os.fork()
    if pid == 0:
        os.close(r)
        dn = os.open('/dev/null', os.O_WRONLY)
        os.dup2(dn, 1)
        os.dup2(dn, 2)
        try:
            signal.alarm(timeout)
            lib = ctypes.CDLL(so, mode=os.RTLD_NOW)
            tr = ctypes.CDLL(tracer, mode=os.RTLD_NOW)
            arena = mmap.mmap(-1, ARENA)
            buf = (ctypes.c_char * ARENA).from_buffer(arena)
            maps = [[int(x, 16) for x in l.split()[0].split('-')] for l in open('/proc/self/maps') if so in l]
            lo, hi = min(x[0] for x in maps), max(x[1] for x in maps)
            tr.vp_cpu(*[ctypes.c_uint32(x) for x in cpu[:4]], ctypes.c_uint64(cpu[4]), ctypes.c_uint64(lo), ctypes.c_uint64(hi))
            task.retw = retw
            T.reset()
            m = TraceM(lib, assign, seed, task, tr, buf)
            st = 'ok'
            try:
                task.prog(m)
            except PathStop:
                st = 'skip'
            rip = ctypes.c_uint64(0)
            tr.vp_bad.restype = ctypes.c_char_p
            what = tr.vp_bad(ctypes.byref(rip))
            fail = []
            if what:
                fail = [('%s is executed on a CPU or OS that does not offer it' % what.decode(), hex(rip.value - lo), 0, 0)]
                st = 'fail'
            with os.fdopen(w, 'wb') as f:
                pickle.dump(dict(status=st, failures=fail, used=dict(cpuid=dict(zip(('leaf0.eax', 'leaf1.ecx', 'leaf1.edx', 'leaf7.ebx', 'xcr0'), map(hex, cpu))), **m.used),
                                 checked=sum(x[1] for x in m.traces), index=0), f)
        except BaseException:
            os._exit(77)
        os._exit(0)
    os.close(w)
    with os.fdopen(r, 'rb') as f:
        data = f.read()
    os.waitpid(pid, 0)
    try:
        return [pickle.loads(data)]
    except Exception:
        return []


def run_native(task, so, assigns, retw, timeout=120, seed=1):
    """runs task.prog natively for each assignment, in a forked child.
    -> list of results: dict(status='ok'|'fail'|'crash'|'skip', failures, used)"""
    out = []
    i = 0
    n = len(assigns)
    while i < n:
        r, w = os.pipe()
        sys.stdout.flush()
        pid = os.fork()
        if pid == 0:
            os.close(r)
            dn = os.open('/dev/null', os.O_WRONLY)
            os.dup2(dn, 1)
            os.dup2(dn, 2)
            try:
                import resource
                resource.setrlimit(resource.RLIMIT_CORE, (0, 0))
                signal.alarm(timeout)
                lib = ctypes.CDLL(so)
                task.retw = retw
                with os.fdopen(w, 'wb') as f:
                    for k in range(i, n):
                        pickle.dump(('start', k), f)
                        f.flush()
                        T.reset()
                        m = NatM(lib, assigns[k], seed * 7919 + k, task)
                        st = 'ok'
                        try:
                            # report inputs before anything can crash
                            m_used = m.used
                            _flush_inputs(m, f)
                            task.prog(m)
                            m.finish()
                        except PathStop:
                            st = 'skip'
                        if m.failures:
                            st = 'fail'
                        pickle.dump(('done', k, st, m.failures[:8], dict(m.used), m.checked), f)
                        f.flush()
            except BaseException as e:
                try:
                    sys.stderr.write(repr(e))
                    with open('/tmp/.vp_native_err', 'w') as fe:
                        traceback.print_exc(file=fe)
                except Exception:
                    pass
                os._exit(77)
            os._exit(0)
        os.close(w)
        cur = None
        used = {}
        with os.fdopen(r, 'rb') as f:
            while True:
                try:
                    x = pickle.load(f)
                except EOFError:
                    break
                except Exception:
                    break
                if x[0] == 'start':
                    cur = x[1]
                    used = {}
                elif x[0] == 'inp':
                    used.update(x[1])
                elif x[0] == 'done':
                    out.append(dict(status=x[2], failures=x[3], used=x[4], checked=x[5], index=x[1]))
                    cur = None
                    i = x[1] + 1
        _, st = os.waitpid(pid, 0)
        if cur is not None:
            if os.WIFSIGNALED(st):
                out.append(dict(status='crash', failures=[('abort/signal %d' % os.WTERMSIG(st), 0, 0, 0)], used=dict(assigns[cur], **used), checked=0, index=cur))
            else:
                out.append(dict(status='error', failures=[('native runner error', 0, 0, 0)], used={}, checked=0, index=cur))
            i = cur + 1
        elif i < n and not (os.WIFEXITED(st) and os.WEXITSTATUS(st) == 0):
            out.append(dict(status='error', failures=[('native runner error', 0, 0, 0)], used={}, checked=0, index=i))
            i += 1
    return out


def _flush_inputs(m, f):
    """make every input visible to the parent as soon as it is drawn"""
    ov, oa, ob = m._val, m.inp_arr, m.inp_bytes

    def val(name, w, special=None):
        v = ov(name, w, special)
        pickle.dump(('inp', {name + m.sfx: v}), f)
        f.flush()
        return v

    def arr(name, n, w):
        r = oa(name, n, w)
        pickle.dump(('inp', {name + m.sfx: m.used[name + m.sfx]}), f)
        f.flush()
        return r

    def byts(name, n, gran=1):
        r = ob(name, n, gran)
        pickle.dump(('inp', {k: v for k, v in m.used.items() if k.startswith(name + m.sfx + '.')}), f)
        f.flush()
        return r
    m._val, m.inp_arr, m.inp_bytes = val, arr, byts
