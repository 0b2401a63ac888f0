"""Where the abstract state of a non-seekable cipher lives inside the private
object.  The places are found by running the constructor and the generator of
the compiled code on concrete inputs next to the specification and matching
bytes; nothing relies on this search: the contracts that use the result prove
that the placed bytes are the whole state (a wrong map fails them, and then the
contracts fall back to what callers can observe)."""
import os, pickle, signal, sys, ctypes
from engine import terms as T, mach, run as R

_cache = {}
CRASH = 'crash'


def in_child(flavour, task, fn):
    """fn(NatM) on the compiled code in a child process -> its result, or None"""
    P = R.program(flavour)
    so, retw = P.build['so'], R.retw_of(P)
    r, w = os.pipe()
    sys.stdout.flush()
    pid = os.fork()
    if pid == 0:
        try:
            os.close(r)
            dn = os.open('/dev/null', os.O_WRONLY)
            os.dup2(dn, 1)
            os.dup2(dn, 2)
            signal.alarm(60)
            lib = ctypes.CDLL(so)
            task.retw = retw
            T.reset()
            out = fn(mach.NatM(lib, {}, 1000, task))
            with os.fdopen(w, 'wb') as f:
                pickle.dump(out, f)
        except BaseException:
            os._exit(7)
        os._exit(0)
    os.close(w)
    with os.fdopen(r, 'rb') as f:
        data = f.read()
    os.waitpid(pid, 0)
    try:
        return pickle.loads(data)
    except Exception:
        return CRASH


def find(flavour, key, task, sampler, comps, nsamples=6):
    """sampler(m) yields (object bytes, {component: concrete value}) several times.
    comps: {name: (byte width, bit width)} -> {name: offset} or None"""
    k = (flavour, key)
    if k in _cache:
        return _cache[k]
    def sample(m0):
        out = []
        for s in range(nsamples):
            T.reset()
            m = mach.NatM(m0.lib, {}, 1000 + s, task)
            out += [(b, c) for b, c in sampler(m)]
        return out
    sm = in_child(flavour, task, sample)
    res = None
    try:
        res = {}
        n = len(sm[0][0])
        for c, (bw, bits) in comps.items():
            offs = [o for o in range(n - bw + 1) if all(int.from_bytes(b[o:o + bw], 'little') == v[c] for b, v in sm)]
            if not offs and bits < 64:
                # a running counter is congruent to the component
                offs = [o for o in range(n - bw + 1) if all((int.from_bytes(b[o:o + bw], 'little') - v[c]) % (1 << bits) == 0 for b, v in sm)]
            if len(offs) != 1:
                res = None
                break
            res[c] = offs[0]
        if res is not None:
            res['size'] = n
    except Exception:
        res = None
    _cache[k] = res
    return res
