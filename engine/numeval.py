"""Concrete evaluation of symbolic terms: cross-checks the symbolic evaluator (trace.py, ir.py) against the real execution."""
import math
import numpy as np
import jax
from . import ir, trace as tr, prove as pv
from .ir import const


class Unknown(Exception):
    """the term contains a deliberately unconstrained symbol"""


class Ev:
    def __init__(self, env, arrays):
        self.env, self.arrays = dict(env), arrays
        self.memo = {}

    def key(self, t, env):
        f = ir.fv(t)
        return (t.id, tuple(sorted((n, env[n]) for n in f if n in env and n in self.bound)))

    bound = set()

    def ev(self, t, env=None):
        env = self.env if env is None else env
        k = self.key(t, env)
        if k in self.memo: return self.memo[k]
        r = self._ev(t, env)
        self.memo[k] = r
        return r

    def _ev(self, t, env):
        op, a = t.op, t.args
        e = lambda x: self.ev(x, env)
        if op == "c":
            return t.val if isinstance(t.val, (bool, int)) else float(t.val)
        if op == "v":
            if t.val in env: return env[t.val]
            if t.val in self.arrays: return self.arrays[t.val].item()
            raise Unknown(t.val)
        if op == "app":
            if t.val not in self.arrays: raise Unknown(t.val)
            A = self.arrays[t.val]
            ix = tuple(int(e(i)) for i in a)
            if any(i < 0 or i >= s for i, s in zip(ix, A.shape)): raise Unknown("index %s" % (ix,))
            return A[ix].item()
        if op == "tab":
            A = ir.TABLES[t.val]; ix = tuple(int(e(i)) for i in a)
            if any(i < 0 or i >= s for i, s in zip(ix, A.shape)): raise Unknown("table index")
            return A[ix].item()
        if op == "add": return e(a[0]) + e(a[1])
        if op == "mul":
            x = e(a[0])
            if x == 0: return 0 if isinstance(x, int) else 0.0
            return x * e(a[1])
        if op == "inv":
            x = e(a[0])
            if x == 0: raise Unknown("1/0")
            return 1.0 / x
        if op == "ite": return e(a[1]) if e(a[0]) else e(a[2])
        if op == "gt0": return e(a[0]) > 0
        if op == "eq0": return e(a[0]) == 0
        if op == "not": return not e(a[0])
        if op == "and": return all(e(x) for x in a)
        if op == "ind": return 1 if e(a[0]) else 0
        if op == "den": return e(a[0])
        if op == "floor": return math.floor(e(a[0]))
        if op == "sqrt":
            x = e(a[0])
            if x < 0: raise Unknown("sqrt<0")
            return math.sqrt(x)
        if op == "exp": return math.exp(e(a[0]))
        if op == "log":
            x = e(a[0])
            if x <= 0: raise Unknown("log<=0")
            return math.log(x)
        if op == "pow":
            x, y = e(a[0]), e(a[1])
            if x < 0: raise Unknown("pow<0")
            return x ** y
        if op == "cbrt3": return float(np.cbrt(e(a[0])))
        if op == "fn":
            x = [e(y) for y in a]
            if t.val == "det3": return float(np.linalg.det(np.array(x, float).reshape(3, 3)))
            if t.val.startswith("svd"):
                u, sv, vt = np.linalg.svd(np.array(x, float).reshape(3, 3))
                if t.val[3] == "s": return float(sv[int(t.val[4])])
                return float((u if t.val[3] == "u" else vt)[int(t.val[4]), int(t.val[5])])
            if t.val.startswith("expm"):
                import jax.scipy.linalg as jl
                return float(jl.expm(np.array(x, float).reshape(3, 3))[int(t.val[4]), int(t.val[5])])
            f = {"sin": math.sin, "cos": math.cos, "tan": math.tan, "tanh": math.tanh, "atan2": math.atan2, "asin": math.asin,
                 "acos": math.acos, "atan": math.atan, "sigmoid": lambda z: 1 / (1 + math.exp(-z)), "cbrt": lambda z: float(np.cbrt(z)),
                 "sinh": math.sinh, "cosh": math.cosh}.get(t.val)
            if f is None: raise Unknown(t.val)
            try: return f(*x)
            except ValueError: raise Unknown(t.val)
        if op == "idiv":
            x, y = e(a[0]), e(a[1])
            if y == 0: raise Unknown("idiv0")
            return int(math.trunc(x / y)) if abs(x) < 2 ** 52 else x // y
        if op == "irem":
            x, y = e(a[0]), e(a[1])
            if y == 0: raise Unknown("irem0")
            return int(math.fmod(x, y))
        if op in ("sum", "bmax", "bmin"):
            v, ext, body = a
            n = int(e(ext)); xs = []
            self.bound = self.bound | {v.val}
            for j in range(n):
                env2 = dict(env); env2[v.val] = j
                xs.append(self.ev(body, env2))
            if op == "sum": return sum(xs)
            if not xs: raise Unknown("empty max")
            return max(xs) if op == "bmax" else min(xs)
        raise Unknown("op " + op)


def crosscheck(c, seed, n=2, max_elems=40, use_poly=True):
    """returns dict(compared, unknown, mismatches)"""
    ir.reset(); tr.reset()
    closed, k, specs, called = c.trace()
    tr.MINOR[:] = ["w"] + c.minor
    tr.CTX.call_hooks = c.hooks
    P = pv.Prover()
    args = []
    for (nm, i), s in zip(c.inputs.items(), specs):
        args.append(tr.input_arr(nm, [tr.dim_T(d) for d in s.shape], "I" if i.kind in "IU" else i.kind))
        c._declare(nm, i, P)
    outs = tr.eval_closed(closed, args)
    rng = np.random.default_rng(seed)
    comp = unk = 0; mism = []
    for dims in c.sizes[:1]:
        run, holder = c.compiled(dims)
        names = list(c.inputs)
        dts = {"R": np.float64, "I": np.int64, "B": np.bool_, "U": np.uint32}
        jr = jax.jit(run)
        got = 0
        for _ in range(12 * n):
            if got >= n: break
            s = c.gen(rng, dims)
            arrs = {m: np.asarray(s[m], dtype=dts[c.inputs[m].kind]) for m in names}
            real = [np.asarray(x) for x in jr(*[arrs[m] for m in names])]
            kk = holder["k"]; pos = 0; ok = True
            for role, kind, name, meta, ar in kk.items:
                o = real[pos:pos + len(ar)]; pos += len(ar)
                if role == "req":
                    ok &= bool(o[0].all()) if kind == "true" else bool(np.allclose(o[0], o[1], rtol=1e-7, atol=1e-9))
            if not ok: continue
            got += 1
            ev = Ev(dict(dims), arrs)
            for A, R, lab in [(A, R, q) for q, (A, R) in enumerate(zip(outs, real))]:
                idxs = list(np.ndindex(R.shape))
                if len(idxs) > max_elems: idxs = [idxs[j] for j in rng.choice(len(idxs), max_elems, replace=False)]
                for ix in idxs:
                    try:
                        t = A.get(tuple(const(int(j)) for j in ix))
                        val = ev.ev(t)
                        if use_poly and t.sort != "B" and comp % 5 == 0:
                            try:
                                with pv.limit(400): t2 = ir.p_term(ir.poly(t))
                                v2 = ev.ev(t2)
                                if abs(v2 - val) > 1e-6 * (1 + abs(val)): mism.append((lab, ix, "poly", val, v2))
                            except ir.Unsupported: pass
                    except (Unknown, ir.Unsupported, OverflowError, ZeroDivisionError):
                        unk += 1; continue
                    r = R[ix]
                    if R.dtype == bool:
                        bad = bool(val) != bool(r)
                    else:
                        r = float(r)
                        if not math.isfinite(r): unk += 1; continue
                        bad = abs(val - r) > 1e-6 * (1 + abs(r) + abs(val))
                    comp += 1
                    if bad: mism.append((lab, ix, str(val), str(r)))
    return dict(compared=comp, unknown=unk, mismatches=mism[:20], nmism=len(mism))
