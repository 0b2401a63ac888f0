"""Decision procedures for obligations over terms.

Order of attack for an equality: normal form, simulation (finds counterexamples),
simulation-guided sweeping with local SMT queries, whole-query z3, cvc5.
"""
import random, zlib, time
import z3
from . import terms as T

NS = 48


class Stats(dict):
    def __missing__(self, k):
        return 0


def bv(n, memo):
    """z3 expression of a term (memoised, iterative)"""
    for x in T.topo([n], stop=memo):
        if x.id in memo:
            continue
        memo[x.id] = _z3(x, [memo[a.id] for a in x.args], memo)
    return memo[n.id]


def _bool(e):
    return z3.If(e, z3.BitVecVal(1, 1), z3.BitVecVal(0, 1))


def _z3(x, a, memo):
    o, w = x.op, x.w
    if o == 'const':
        return z3.BitVecVal(x.aux, w)
    if o == 'var':
        return z3.BitVec(x.aux, w)
    if o == 'avar':
        return z3.Array(x.aux[0], z3.BitVecSort(T.idxw(x.aux[1])), z3.BitVecSort(w))
    if o == 'lin':
        co, c = x.aux
        r = None
        h = 1 << (w - 1)
        for k, e in zip(co, a):
            if k == 1:
                t = e
                r = t if r is None else r + t
            elif k == (1 << w) - 1:
                r = -e if r is None else r - e
            else:
                t = e * z3.BitVecVal(k, w)
                r = t if r is None else r + t
        return r + z3.BitVecVal(c, w) if c else r
    if o in ('xor', 'and', 'or'):
        r = a[0]
        for e in a[1:]:
            r = r ^ e if o == 'xor' else r & e if o == 'and' else r | e
        unit = 0 if o != 'and' else (1 << w) - 1
        if x.aux != unit:
            c = z3.BitVecVal(x.aux, w)
            r = r ^ c if o == 'xor' else r & c if o == 'and' else r | c
        return r
    if o == 'concat':
        return z3.Concat(*a)
    if o == 'extract':
        return z3.Extract(x.aux + w - 1, x.aux, a[0])
    if o == 'rotl':
        return z3.RotateLeft(a[0], x.aux)
    if o == 'mul':
        return a[0] * a[1]
    if o == 'udiv':
        return z3.UDiv(a[0], a[1])
    if o == 'urem':
        return z3.URem(a[0], a[1])
    if o == 'shl':
        return a[0] << a[1]
    if o == 'lshr':
        return z3.LShR(a[0], a[1])
    if o == 'ashr':
        return a[0] >> a[1]
    if o == 'sext':
        return z3.SignExt(w - x.args[0].w, a[0])
    if o == 'eq':
        return _bool(a[0] == a[1])
    if o == 'ult':
        return _bool(z3.ULT(a[0], a[1]))
    if o == 'slt':
        return _bool(a[0] < a[1])
    if o == 'ite':
        return z3.If(a[0] == 1, a[1], a[2])
    if o == 'achunk':
        return a
    if o == 'alist':
        n = x.aux
        iw = T.idxw(n)
        el = [e for ch in a for e in ch]
        r = z3.K(z3.BitVecSort(iw), el[0])
        for i, e in enumerate(el[1:], 1):
            r = z3.Store(r, z3.BitVecVal(i, iw), e)
        return r
    if o == 'aselect':
        return z3.Select(a[0], a[1])
    if o == 'astore':
        return z3.Store(a[0], a[1], a[2])
    raise NotImplementedError(o)


class Samples:
    """deterministic pseudo-random assignments, plus refinements found by solvers"""

    def __init__(self, seed, n=NS):
        self.seed = seed
        self.n = n
        self.cache = {}
        self.forced = []      # list of dict name -> value, replacing samples from the end
        self.special = {}     # var name -> list of interesting values

    def env(self, node):
        k = node.id
        v = self.cache.get(k)
        if v is None:
            v = self.cache[k] = self.gen(node)
        return v

    def gen(self, node):
        name = node.aux if node.op == 'var' else node.aux[0]
        w = node.w
        rnd = random.Random(zlib.crc32(('%s/%s' % (self.seed, name)).encode()))
        m = (1 << w) - 1
        if node.op == 'avar':
            n = node.aux[1]
            out = []
            for i in range(self.n):
                if i == 0:
                    out.append(tuple([j & m for j in range(n)]))
                else:
                    out.append(tuple([rnd.getrandbits(w) for _ in range(n)]))
        else:
            sp = self.special.get(name, [])
            out = []
            for i in range(self.n):
                if i == 0:
                    out.append(0)
                elif i == 1:
                    out.append(m)
                elif i < 2 + len(sp) and i < self.n // 2:
                    out.append(sp[i - 2] & m)
                elif i % 7 == 3 and w >= 16:
                    out.append((m - rnd.randrange(20)) & m)
                elif i % 7 == 5 and w >= 16:
                    out.append(rnd.randrange(20))
                else:
                    out.append(rnd.getrandbits(w))
        for j, f in enumerate(self.forced):
            if name in f:
                out[self.n - 1 - j] = f[name]
        return out

    def force(self, assign):
        """add an assignment as a sample"""
        self.forced.append(assign)
        if len(self.forced) > self.n // 2:
            self.forced = self.forced[-self.n // 2:]
        self.cache.clear()


class Prover:
    def __init__(self, seed=1, timeout_ms=20000):
        self.seed = seed
        self.samples = Samples(seed)
        self.timeout = timeout_ms
        self.stop_at = None
        self.stats = Stats()
        self.z3memo = {}
        self.solver_s = 0.0
        self.shape_cache = {}
        self.feas_cache = {}

    # ------------------------------------------------------------ helpers
    def assignment_at(self, roots, i):
        out = {}
        for v in T.support(roots):
            nm = v.aux if v.op == 'var' else v.aux[0]
            val = self.samples.env(v)[i]
            out[nm] = list(val) if isinstance(val, tuple) else val
        return out

    def model_assignment(self, m, roots):
        out = {}
        for v in T.support(roots):
            if v.op == 'var':
                e = m.eval(z3.BitVec(v.aux, v.w), model_completion=True)
                out[v.aux] = e.as_long()
            else:
                iw = T.idxw(v.aux[1])
                A = z3.Array(v.aux[0], z3.BitVecSort(iw), z3.BitVecSort(v.w))
                out[v.aux[0]] = tuple(m.eval(z3.Select(A, z3.BitVecVal(i, iw)), model_completion=True).as_long()
                                     for i in range(v.aux[1]))
        return out

    def check(self, conds, timeout=None):
        """satisfiability of a conjunction of 1-bit terms -> ('sat', model)|('unsat',None)|('unknown',None)"""
        s = z3.Solver()
        s.set('timeout', timeout or self.timeout)
        for c in conds:
            s.add(bv(c, self.z3memo) == 1)
        t = time.time()
        r = s.check()
        self.solver_s += time.time() - t
        self.stats['z3_queries'] += 1
        if r == z3.sat:
            return 'sat', s.model()
        if r == z3.unsat:
            return 'unsat', None
        return 'unknown', None

    def sample_ok(self, conds):
        """indices of samples satisfying all conditions"""
        if not conds:
            return list(range(self.samples.n))
        ev = T.Evaluator(self.samples.env, self.samples.n)
        vs = ev.run(conds)
        return [i for i in range(self.samples.n) if all(v[i] for v in vs)]

    def feasible(self, pc, c):
        """is pc /\\ c satisfiable?  (unknown counts as feasible)"""
        if c.op == 'const':
            return bool(c.aux)
        conds = list(pc) + [c]
        k = tuple(sorted(x.id for x in conds))
        r = self.feas_cache.get(k)
        if r is not None:
            return r
        # only the part of pc connected to c matters when pc itself is satisfiable
        if self.sample_ok(conds):
            r = True
        else:
            st, m = self.check(conds)
            if st == 'sat':
                self.samples.force(self.model_assignment(m, conds))
            r = st != 'unsat'
            if st == 'unknown':
                self.stats['feasible_unknown'] += 1
        self.feas_cache[k] = r
        return r

    def depends(self, n, pc, secret):
        """can n take two values for equal public inputs, both on the path pc?  True / False / None"""
        def nm(v):
            return v.aux if v.op == 'var' else v.aux[0]
        pc = [c for c in pc if c.op != 'const']
        S = self.samples
        for rot in (1, 5, 11):
            def env2(v):
                x = S.env(v)
                return x[rot:] + x[:rot] if secret(nm(v)) else x
            a = T.Evaluator(S.env, S.n).run([n] + pc)
            b = T.Evaluator(env2, S.n).run([n] + pc)
            for i in range(S.n):
                if a[0][i] != b[0][i] and all(x[i] and y[i] for x, y in zip(a[1:], b[1:])):
                    self.witness = (self.assignment_at([n] + pc, i), {})
                    for v in T.support([n] + pc):
                        val = env2(v)[i]
                        self.witness[1][nm(v)] = list(val) if isinstance(val, tuple) else val
                    return True
        sub = []
        for v in T.support([n] + pc):
            if secret(nm(v)):
                if v.op == 'var':
                    sub.append((z3.BitVec(v.aux, v.w), z3.BitVec(v.aux + '~', v.w)))
                else:
                    iw = z3.BitVecSort(T.idxw(v.aux[1]))
                    sub.append((z3.Array(v.aux[0], iw, z3.BitVecSort(v.w)), z3.Array(v.aux[0] + '~', iw, z3.BitVecSort(v.w))))
        s = z3.Solver()
        s.set('timeout', self.timeout)
        e = bv(n, self.z3memo)
        s.add(e != z3.substitute(e, *sub))
        for c in pc:
            x = bv(c, self.z3memo) == 1
            s.add(x)
            s.add(z3.substitute(x, *sub))
        t = time.time()
        r = s.check()
        self.solver_s += time.time() - t
        self.stats['z3_queries'] += 1
        if r == z3.sat:
            mo = s.model()
            A, B = self.model_assignment(mo, [n] + pc), {}
            for v in T.support([n] + pc):
                if not secret(nm(v)):
                    B[nm(v)] = A[nm(v)]
                elif v.op == 'var':
                    B[v.aux] = mo.eval(z3.BitVec(v.aux + '~', v.w), model_completion=True).as_long()
                else:
                    iw = T.idxw(v.aux[1])
                    X = z3.Array(v.aux[0] + '~', z3.BitVecSort(iw), z3.BitVecSort(v.w))
                    B[v.aux[0]] = [mo.eval(z3.Select(X, z3.BitVecVal(i, iw)), model_completion=True).as_long() for i in range(v.aux[1])]
            self.witness = ({k: list(x) if isinstance(x, tuple) else x for k, x in A.items()}, B)
        return True if r == z3.sat else False if r == z3.unsat else None

    # ------------------------------------------------------------ equalities
    def prove(self, pairs, pc=(), hard=True, known=None):
        """prove every (a,b) equal under pc.
        -> list of ('proved', how) | ('refuted', assignment) | ('unknown', why)"""
        pc = [c for c in pc if c.op != 'const']
        if known and any(a is not b for a, b in pairs):
            pairs = self.simplify(pairs, known)
        res = [None] * len(pairs)
        todo = []
        for i, (a, b) in enumerate(pairs):
            if a is b or T.push_bits(a) is T.push_bits(b):
                res[i] = ('proved', 'normal-form')
            else:
                todo.append(i)
        if not todo:
            return res
        # simulation
        roots = [x for i in todo for x in pairs[i]]
        ok = self.sample_ok(pc)
        if pc and len(ok) < 6:
            st, m = self.check(pc)
            if st == 'unsat':
                return [r or ('proved', 'vacuous-path') for r in res]
            if st == 'sat':
                ma = self.model_assignment(m, pc)
                for j in range(8):
                    self.samples.force(dict(ma))
                ok = self.sample_ok(pc)
        ev = T.Evaluator(self.samples.env, self.samples.n)
        vals = ev.run(roots)
        left = []
        for j, i in enumerate(todo):
            va, vb = vals[2 * j], vals[2 * j + 1]
            bad = [k for k in ok if va[k] != vb[k]]
            if bad:
                res[i] = ('refuted', self.assignment_at(list(pairs[i]) + pc, bad[0]))
            else:
                left.append(i)
        if not left:
            return res
        gave = ('unknown', 'not attempted: another clause of this contract is already refuted')
        if any(r and r[0] == 'refuted' for r in res):
            return [r or gave for r in res]
        # goals over few operations first: a counterexample to one of them
        # usually refutes the large ones by simulation
        if hard:
            small = []
            for i in left:
                a, b = pairs[i]
                if not T.is_array(a) and len(T.topo([a, b])) <= 250:
                    small.append(i)
            gave_up = 0
            for i in small[:24]:
                if gave_up > 1:
                    break
                st, m = self.check(pc + [T.not_(T.eq(*pairs[i]))], 1200)
                gave_up += st not in ('sat', 'unsat')
                if st == 'unsat':
                    res[i] = ('proved', 'z3')
                    left.remove(i)
                elif st == 'sat' and self.refute(pairs, left, res, pc, m, i):
                    return [r or gave for r in res]
            if not left:
                return res
        # sweeping
        rep = self.sweep([x for i in left for x in pairs[i]], pc, ok)
        left2 = []
        for i in left:
            a, b = rep[pairs[i][0].id], rep[pairs[i][1].id]
            if a is b or T.push_bits(a) is T.push_bits(b):
                res[i] = ('proved', 'sweep')
            else:
                left2.append((i, a, b))
        for i, a, b in sorted(left2, key=lambda x: len(T.topo(x[1:]))) if hard else left2:
            if res[i] is not None:
                continue
            if not hard:
                res[i] = ('unknown', 'not attempted')
                continue
            if self.stop_at and time.time() > self.stop_at:
                res[i] = ('unknown', 'time budget')
                continue
            ne = T.not_(T.eq(a, b)) if not T.is_array(a) else None
            if ne is None:
                s = z3.Solver()
                s.set('timeout', self.timeout)
                for c in pc:
                    s.add(bv(c, self.z3memo) == 1)
                s.add(bv(a, self.z3memo) != bv(b, self.z3memo))
                t = time.time()
                r = s.check()
                self.solver_s += time.time() - t
                st, m = ('unsat', None) if r == z3.unsat else ('sat', s.model()) if r == z3.sat else ('unknown', None)
            else:
                st, m = self.check(pc + [ne])
            if st == 'unsat':
                res[i] = ('proved', 'z3')
            elif st == 'sat':
                if self.refute(pairs, left, res, pc, m, i):
                    return [r or gave for r in res]
                res[i] = ('unknown', 'abstract counterexample does not concretise')
            else:
                res[i] = ('unknown', 'solver gave up')
        return res

    def refute(self, pairs, left, res, pc, model, i):
        """replay a model on the original terms of goal i and of every goal still open; -> was anything refuted?"""
        asg = self.model_assignment(model, list(pairs[i]) + pc)
        self.samples.force({k: v for k, v in asg.items()})
        ev = T.Evaluator(self.samples.env, self.samples.n)
        k = self.samples.n - len(self.samples.forced)
        todo = [j for j in left if res[j] is None]
        vals = ev.run([x for j in todo for x in pairs[j]] + pc)
        if not all(v[k] for v in vals[2 * len(todo):]):
            return False
        hit = False
        for n, j in enumerate(todo):
            if vals[2 * n][k] != vals[2 * n + 1][k]:
                res[j] = ('refuted', self.assignment_at(list(pairs[j]) + pc, k))
                hit = True
        return hit

    def simplify(self, pairs, known):
        """replace the conditions decided on this path by their value"""
        rep = {}
        for x in T.topo([x for p in pairs for x in p]):
            v = known.get(x.id)
            if v is not None and x.w == 1:
                y = T.const(v, 1)
            else:
                y = T.rebuild(x, [rep[a.id] for a in x.args])
                v = known.get(y.id)
                if v is not None and y.w == 1:
                    y = T.const(v, 1)
            rep[x.id] = y
        return [(rep[a.id], rep[b.id]) for a, b in pairs]

    def valid(self, c, pc=()):
        """is the 1-bit term c true under pc?"""
        if c.op == 'const':
            return ('proved', 'normal-form') if c.aux else ('refuted', None)
        return self.prove([(c, T.const(1, 1))], pc)[0]

    # ------------------------------------------------------------ sweeping
    def sweep(self, roots, pc, ok):
        rep = {}
        classes = {}
        n = self.samples.n
        ev = T.Evaluator(self.samples.env, n)
        idx = ok if pc and ok else range(n)
        budget = [4000]
        self.pc_budget = 80
        for x in T.topo(roots):
            if x.op in ('const', 'var', 'avar', 'achunk'):
                y = T.rebuild(x, [rep[a.id] for a in x.args])
                rep[x.id] = y
                continue
            y = T.rebuild(x, [rep[a.id] for a in x.args])
            v = ev.run([y])[0]
            key = (y.w, T.is_array(y) and T.alen(y), tuple([v[i] for i in idx]))
            cl = classes.setdefault(key, [])
            done = False
            for c in cl:
                if c is y:
                    done = True
                    break
            if not done and y.op != 'const':
                for c in cl[:3]:
                    if budget[0] <= 0:
                        break
                    budget[0] -= 1
                    if self.local_equal(c, y, pc):
                        rep[x.id] = c
                        self.stats['merges'] += 1
                        done = True
                        break
                if done:
                    continue
                cl.append(y)
            elif not done:
                cl.append(y)
            rep[x.id] = y
        return rep

    def cone(self, roots, depth):
        """nodes within depth, leaves"""
        inner = {}
        lvl = {r.id: r for r in roots}
        d = 0
        while lvl and d < depth:
            nxt = {}
            for x in lvl.values():
                if x.id in inner:
                    continue
                inner[x.id] = x
                for a in x.args:
                    if a.id not in inner:
                        nxt[a.id] = a
            lvl = nxt
            d += 1
        return inner

    def shape(self, a, b, inner):
        num = {}
        out = []
        for x in T.topo([a, b], stop=set()) if False else self._topo_in([a, b], inner):
            k = len(num)
            num[x.id] = k
            if x.id in inner and x.op not in ('var', 'avar'):
                out.append((x.op, x.w, x.aux if x.op != 'var' else None, tuple(num[y.id] for y in x.args)))
            else:
                out.append(('cut', x.w))
        return tuple(out)

    def _topo_in(self, roots, inner):
        seen = set()
        out = []
        st = [(r, 0) for r in roots]
        while st:
            x, f = st.pop()
            if f:
                out.append(x)
                continue
            if x.id in seen:
                continue
            seen.add(x.id)
            st.append((x, 1))
            if x.id in inner:
                for y in x.args:
                    if y.id not in seen:
                        st.append((y, 0))
        return out

    def local_equal(self, a, b, pc):
        if self._local_equal(a, b, ()):
            return True
        if not pc or a.w > 128 or self.pc_budget <= 0:
            return False
        if len(self.cone([a, b], 12)) > 250:
            return False
        self.pc_budget -= 1
        return self._local_equal(a, b, pc)

    def _local_equal(self, a, b, pc):
        prev = None
        for depth, tmo in ((2, 300), (4, 500), (8, 1500), (16, 4000)):
            inner = self.cone([a, b], depth)
            if len(inner) > 600:
                break
            if prev is not None and len(inner) == prev:
                break
            prev = len(inner)
            arr = any(T.is_array(x) or x.op == 'achunk' for x in inner.values())
            if arr and len(inner) > 80:
                break
            key = None
            if not pc:
                key = self.shape(a, b, inner)
                r = self.shape_cache.get(key)
                if r is True:
                    return True
                if r is False:
                    continue
            ok = self._local_query(a, b, inner, pc, tmo)
            if key is not None:
                self.shape_cache[key] = ok
            if ok:
                return True
        return False

    def _local_query(self, a, b, inner, pc, tmo):
        memo = {}
        try:
            for x in self._topo_in([a, b], inner):
                if x.id in inner and x.op not in ('var', 'avar'):
                    memo[x.id] = _z3(x, [memo[y.id] for y in x.args], memo)
                elif x.op in ('var', 'avar', 'const'):
                    memo[x.id] = _z3(x, [], memo)
                elif T.is_array(x):
                    memo[x.id] = z3.Array('cut%d' % x.id, z3.BitVecSort(T.idxw(T.alen(x))), z3.BitVecSort(x.w))
                elif x.op == 'achunk':
                    return False
                else:
                    memo[x.id] = z3.BitVec('cut%d' % x.id, x.w)
        except NotImplementedError:
            return False
        s = z3.Solver()
        s.set('timeout', tmo)
        s.add(memo[a.id] != memo[b.id])
        for c in pc:
            # path facts over the same leaves
            s.add(bv(c, self.z3memo) == 1)
        t = time.time()
        r = s.check()
        self.solver_s += time.time() - t
        self.stats['local_queries'] += 1
        return r == z3.unsat
