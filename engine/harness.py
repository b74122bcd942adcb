"""Contracts on the real code.

A contract is a harness function  fn(I, k, D): it calls the real functions of /repo on the declared inputs I (arrays) and
states preconditions (k.assume*) and postconditions (k.eq / k.ge / k.gt / k.true).  The same function is
  * traced with symbolic shapes (make_jaxpr) and every postcondition element is turned into proof obligations, and
  * executed (jit, float64) to replay / search counterexamples and to cross-check the symbolic evaluator.
"""
import os, sys, time, json, itertools, traceback, hashlib
from fractions import Fraction
import numpy as np

os.environ.setdefault("JAX_PLATFORMS", "cpu"); os.environ.setdefault("JAX_ENABLE_X64", "1")
os.environ.setdefault("JAXTYPING_DISABLE", "1"); os.environ.setdefault("MPLBACKEND", "Agg")
sys.dont_write_bytecode = True
REPO = os.environ.get("VERIF_REPO", "/repo")
if REPO not in sys.path: sys.path.insert(0, REPO)
import jax, jax.numpy as jnp
from jax import export as jexport
from . import ir, trace as tr, prove as pv
from .ir import const, T, inorm, TRUE, FALSE, Unsupported


class In:
    """declared input. shape entries: ints, dimension names, or expressions such as 'n*w'.
    ge/gt/le/lt: numeric bounds on every element (ints may use dimension expressions as strings)."""

    def __init__(self, shape=(), kind="R", ge=None, gt=None, le=None, lt=None, gen=None, scale=None):
        self.shape = tuple(shape) if isinstance(shape, (tuple, list)) else (shape,)
        self.kind, self.ge, self.gt, self.le, self.lt, self.gen, self.scale = kind, ge, gt, le, lt, gen, scale


def dimexpr(e, env):
    if isinstance(e, (int, np.integer)): return int(e)
    return eval(e, {"__builtins__": {}}, dict(env))


class Ns:
    def __init__(self, d): self.__dict__.update(d)
    def __getitem__(self, k): return self.__dict__[k]


class K:
    """collector of pre- and postconditions"""

    def __init__(self):
        self.items = []       # (role, kind, name, meta, [arrays])

    def assume(self, cond, name=None):
        """boolean array: holds at every element"""
        self.items.append(("req", "true", name or "req%d" % len(self.items), {}, [jnp.asarray(cond)]))

    def assume_eq(self, a, b, name=None, rewrite=False, tol=1e-9):
        a, b = jnp.broadcast_arrays(jnp.asarray(a), jnp.asarray(b))
        self.items.append(("req", "eq", name or "req%d" % len(self.items), {"rewrite": rewrite, "tol": tol}, [a, b]))

    def _ens(self, kind, name, a, b, when, tol, scale):
        a, b = jnp.asarray(a), jnp.asarray(b)
        arrs = [a, b]
        if when is not None: arrs.append(jnp.asarray(when))
        arrs = list(jnp.broadcast_arrays(*arrs))
        self.items.append(("ens", kind, name, {"tol": tol, "when": when is not None, "scale": scale}, arrs))

    def eq(self, name, a, b, when=None, tol=1e-7, scale=1.0): self._ens("eq", name, a, b, when, tol, scale)
    def ge(self, name, a, b, when=None, tol=1e-7, scale=1.0): self._ens("ge", name, a, b, when, tol, scale)
    def gt(self, name, a, b, when=None, tol=1e-7, scale=1.0): self._ens("gt", name, a, b, when, tol, scale)

    def true(self, name, c, when=None):
        c = jnp.asarray(c)
        arrs = [c] + ([jnp.asarray(when)] if when is not None else [])
        arrs = list(jnp.broadcast_arrays(*arrs))
        self.items.append(("ens", "true", name, {"when": when is not None}, arrs))

    def shape(self, name, a, shape):
        """static postcondition: array shape (symbolic dimensions compared symbolically)"""
        ok = len(a.shape) == len(shape) and all(x == y for x, y in zip(a.shape, shape))
        self.static(name, bool(ok), "shape %s expected %s" % (a.shape, tuple(shape)))

    def static(self, name, ok, detail=""):
        self.items.append(("ens", "static", name, {"ok": bool(ok), "detail": str(detail)}, []))


def conjuncts(c):
    if c is TRUE: return []
    if c.op == "and": return [y for x in c.args for y in conjuncts(x)]
    return [c]


class Sequence:
    """loops over a symbolic number of steps: the carried values before step t are an arbitrary sequence C with C(0) the initial values and
    C(t+1) the body applied to C(t); output t is the body applied to C(t).  A loop without inputs inside such a body is only known to be a
    function of the step (its result is uninterpreted)."""

    def __init__(self): self.n, self.index, self.inner = 0, None, 0

    def __call__(self, e, consts, carry, xs):
        nc, nk, cj = tr.scan_split(e)
        if self.index is not None:
            if xs: return None                                      # concrete inner loop over a chunk of steps: unrolled
            self.inner += 1
            nm = "newton%d_" % self.inner
            j = self.index
            return [tr.Arr(c.shape, c.kind, lambda idx, i=i, c=c: ir.app("%s%d" % (nm, i), (j,) + tuple(idx), c.kind)) for i, c in enumerate(carry)]
        if not xs:
            self.n += 1
            return [tr.input_arr("loop%d_%d" % (self.n, i), list(c.shape), c.kind) for i, c in enumerate(carry)]
        if e.params.get("reverse") or ir.is_c(tr.dim_T(e.params["length"])): return None
        self.n += 1
        seq, memo = "seq%d_" % self.n, {}

        def body(t):
            if t.id not in memo:
                old = self.index, self.inner, tr.CTX.scan_hook
                self.index, self.inner, tr.CTX.scan_hook = t, 0, self
                try: memo[t.id] = tr.eval_closed(cj, consts + state(t) + [tr.Arr(x.shape[1:], x.kind, lambda idx, x=x: x.get((t,) + tuple(idx))) for x in xs])
                finally: self.index, self.inner, tr.CTX.scan_hook = old
            return memo[t.id]

        def state(t):
            if ir.is_c(t): return list(carry) if t.val == 0 else body(const(t.val - 1))[:nk]
            if ir.poly(t).get((), 0) >= 1: return body(inorm(ir.add(t, const(-1))))[:nk]
            return [tr.Arr(c.shape, c.kind, lambda idx, i=i, c=c: ir.app("%s%d" % (seq, i), (t,) + tuple(idx), c.kind)) for i, c in enumerate(carry)]

        def out(j): return lambda idx: body(ir.inorm(idx[0]))[nk + j].get(tuple(idx[1:]))
        res = []
        for i, c in enumerate(carry):
            def last(idx, i=i): raise Unsupported("final state of a loop over a symbolic number of steps")
            res.append(tr.Arr(c.shape, c.kind, last))
        for j in range(len(e.outvars) - nk): res.append(tr.Arr(tr.oshape(e, nk + j), tr.okind(e, nk + j), out(j)))
        return res


class Contract:
    def __init__(self, name, fn, inputs, dims=None, sizes=None, assumes=(), sampler=None, rounds=4, batch=192,
                 budget=60.0, z3_ms=4000, minor=(), doc="", bounded=None, hooks=None, defined=True, nocheck=False,
                 lemma=None, search_only=False, shards=1, known=None, fallback_dims=None, wall=400, loop=None, dmin=1):
        self.name, self.fn, self.inputs = name, fn, inputs
        self.dims = dims or []            # symbolic dimension names
        self.sizes = sizes or [{d: 3 for d in self.dims}]   # concrete dims for execution
        self.assumes = list(assumes)      # textual assumptions for the evidence
        self.sampler, self.rounds, self.batch = sampler, rounds, batch
        self.budget, self.z3_ms = budget, z3_ms
        self.minor = list(minor)
        self.doc = doc
        self.bounded = bounded            # text: this contract is only a bounded check
        self.hooks = hooks or {}
        self.defined = defined
        self.nocheck = nocheck
        self.search_only = search_only
        self.shards, self.wall = shards, wall
        self.known = dict(known or {})       # ensures listed in known_findings.json (set by the worker)
        self.fallback_dims = fallback_dims
        self.dmin = dmin                     # smallest extent of the symbolic dimensions
        self.loop = loop                     # loop invariant: fn(init carry, carry) -> list of boolean arrays; the loop is replaced by it

    # ---------------------------------------------------------------- symbolic side
    def trace(self, concrete=None):
        if concrete is not None:
            env = dict(concrete)
        elif self.dims:
            syms = jexport.symbolic_shape(",".join(self.dims), constraints=["%s >= %d" % (d, self.dmin) for d in self.dims])
            env = dict(zip(self.dims, syms))
        else:
            env = {}
        specs = []
        for nm, i in self.inputs.items():
            sh = tuple(dimexpr(s, env) for s in i.shape)
            dt = {"R": jnp.float64, "I": jnp.int64, "B": jnp.bool_, "U": jnp.uint32}[i.kind]
            specs.append(jax.ShapeDtypeStruct(sh, dt))
        names = list(self.inputs)
        holder = {}

        def run(*arrs):
            k = K()
            self.fn(Ns(dict(zip(names, arrs))), k, Ns(env))
            holder["k"] = k
            return [a for it in k.items for a in it[4]]
        called = set()
        prof = Profile(called)
        with shims(), prof:
            closed = jax.make_jaxpr(run)(*specs)
        return closed, holder["k"], specs, called

    def prove(self, only=None, log=None, shard=(0, 1), obs=None, concrete=None, deadline=None, stop_after=None):
        t0 = time.time()
        ir.reset(); tr.reset()
        self._defs_done = None
        self._count = 0; self._labels = {}; self._shard = shard; self._obs = obs
        self._deadline, self._stop, self._nfail = deadline, stop_after, 0
        self._env = {d: (const(concrete[d]) if concrete else ir.dimvar(d)) for d in self.dims}
        closed, k, specs, called = self.trace(concrete)
        P = pv.Prover(self.budget, self.z3_ms)
        tr.MINOR[:] = ["w"] + self.minor
        tr.CTX.call_hooks = self.hooks
        args = []
        for (nm, i), s in zip(self.inputs.items(), specs):
            sort = "I" if i.kind in "IU" else i.kind
            shape = [tr.dim_T(d) for d in s.shape]
            args.append(tr.input_arr(nm, shape, sort))
            self._declare(nm, i, P)
        loops = []
        if self.loop == "sequence": tr.CTX.scan_hook = Sequence()
        elif self.loop == "function": tr.CTX.scan_hook = lambda e, cs, carry, xs: self._loop_function(loops, e, cs, carry, xs)
        else: tr.CTX.scan_hook = None if self.loop is None else (lambda e, cs, carry, xs: self._loop(loops, e, cs, carry, xs))
        try: outs = tr.eval_closed(closed, args)
        finally: tr.CTX.scan_hook = None
        for facts, _ in loops if callable(self.loop) else []:
            for a in facts: self._assume(P, "true", "loop", {}, [a])
        # assumptions
        pos = 0
        for role, kind, name, meta, arrs in k.items:
            its = outs[pos:pos + len(arrs)]; pos += len(arrs)
            if role == "req": self._assume(P, kind, name, meta, its)
        results = []
        pos = 0
        for role, kind, name, meta, arrs in k.items:
            its = outs[pos:pos + len(arrs)]; pos += len(arrs)
            if role != "ens": continue
            if only and name not in only and not any(name.startswith(o) for o in only): continue
            if kind == "static":
                if shard[0] or obs is not None: continue
                results.append(dict(ob="%s" % name, ok=meta["ok"], how="static" if meta["ok"] else meta["detail"],
                                    t=0.0, model=None, ens=name))
                continue
            results += self._obligations(P, kind, name, meta, its, log)
        for n, (_, obls) in enumerate(loops if callable(self.loop) else []):
            for tag, a in obls:
                name = "loop%d.%s" % (n, tag)
                if only and not any(name.startswith(o) for o in only): continue
                results += self._obligations(P, "true", name, {}, [a], log)
        nreq = sum(1 for it in k.items if it[0] == "req") + sum(1 for i in self.inputs.values() if any(x is not None for x in (i.ge, i.gt, i.le, i.lt)))
        return dict(results=results, functions=sorted(called), wall=time.time() - t0, assumed=nreq)

    def _loop(self, loops, e, consts, carry, xs):
        """loop rule: the invariant holds initially, is kept by an arbitrary iteration, and is all that is known afterwards"""
        if xs or len(e.outvars) != len(carry): raise Unsupported("loop with per-iteration inputs or outputs")
        nc, _, body_ = tr.scan_split(e)
        # the invariant speaks about the carried reals; carried integers (loop counters) are arbitrary
        fl = [j for j, c in enumerate(carry) if c.kind not in "IUB"]
        real = lambda xs: [xs[j] for j in fl]
        avs = [jax.ShapeDtypeStruct(v.aval.shape, v.aval.dtype) for v in real(e.invars[nc:nc + len(carry)])]
        m = len(avs)
        cl = jax.make_jaxpr(lambda *a: list(self.loop(a[:m], a[m:])))(*avs, *avs)
        n = len(loops)
        nonneg = [fl[j] for j in (range(m) if getattr(self.loop, "nonneg", ()) == "all" else getattr(self.loop, "nonneg", ()))]

        def new(tag):
            # carried arrays the invariant declares non-negative
            for j in nonneg: ir.nonneg_arrays.add("loop%d%s%d" % (n, tag, j))
            return [tr.input_arr("loop%d%s%d" % (n, tag, j), list(c.shape), c.kind) for j, c in enumerate(carry)]
        mid, end = new("pre"), new("post")
        body = tr.eval_closed(body_, consts + mid)
        facts = tr.eval_closed(cl, real(carry) + real(mid)) + tr.eval_closed(cl, real(carry) + real(end))
        obls = [("init", a) for a in tr.eval_closed(cl, real(carry) + real(carry))] + [("keep", a) for a in tr.eval_closed(cl, real(carry) + real(body))]
        for j in nonneg:
            ge0 = lambda a: tr.Arr(a.shape, "B", lambda idx: TRUE if ir.is_nonneg(a.get(idx)) else ir.le(const(0), a.get(idx)))
            facts += [tr.Arr(a.shape, "B", lambda idx, a=a: ir.le(const(0), a.get(idx))) for a in (mid[j], end[j])]
            obls += [("init", ge0(carry[j])), ("keep", ge0(body[j]))]
        loops.append((facts, obls))
        return end

    def _loop_function(self, loops, e, consts, carry, xs):
        """congruence: a loop is a function of its body, constants and initial values: equal ones give equal results, nothing else is known"""
        if xs or len(e.outvars) != len(carry): raise Unsupported("loop with per-iteration inputs or outputs")
        key = [str(tr.scan_split(e)[2]), str(e.params["length"]), str(e.params.get("reverse"))]
        for a in list(consts) + list(carry):
            idx = []
            for ax, d in enumerate(a.shape):
                nm = "lk%d_%d" % (ax, d.id)
                ir.var_bounds[nm] = (const(0), ir.add(d, const(-1)))
                idx.append([const(j) for j in range(int(d.val))] if ir.is_c(d) else [ir.var(nm, "I")])
            for ix in itertools.product(*idx):
                v = a.get(tuple(ix))
                key.append((tuple(d.id for d in a.shape), (ir.canon_cond(v) if a.kind == "B" else ir.p_term(ir.poly(v))).id))
        key = tuple(key)
        for k2, out in loops:
            if k2 == key: return out
        n = len(loops)
        out = [tr.input_arr("loop%dout%d" % (n, j), list(c.shape), c.kind) for j, c in enumerate(carry)]
        loops.append((key, out))
        if os.environ.get("LOOPDBG"): print("loop", n, [len(str(k)) for k in key[:1]], key[1:])
        return out

    def _declare(self, nm, i, P):
        env = getattr(self, "_env", None) or {d: ir.dimvar(d) for d in self.dims}

        def b(x): return ir.lift(Fraction(str(x)) if isinstance(x, float) else dimexpr(x, env) if isinstance(x, str) else x)
        if i.kind in "IU":
            lo = i.ge if i.ge is not None else (0 if i.kind == "U" else None)
            hi = None
            if i.lt is not None: hi = ir.add(b(i.lt), const(-1))
            if i.le is not None: hi = b(i.le)
            ir.arr_bounds[nm] = (None if lo is None else b(lo), hi)
            if not i.shape: ir.var_bounds[nm] = ir.arr_bounds[nm]
            return
        fs = []
        if i.ge is not None: fs.append(lambda x: ir.le(b(i.ge), x))
        if i.gt is not None: fs.append(lambda x: ir.lt(b(i.gt), x))
        if i.le is not None: fs.append(lambda x: ir.le(x, b(i.le)))
        if i.lt is not None: fs.append(lambda x: ir.lt(x, b(i.lt)))
        if fs: P.arr_facts[nm] = lambda x: [f(x) for f in fs]
        if (i.gt is not None and b(i.gt).val >= 0) or (i.ge is not None and ir.is_c(b(i.ge)) and b(i.ge).val > 0):
            ir.pos_arrays.add(nm)
        else:
            ir.pos_arrays.discard(nm)
        q = [b(x) if x is not None else None for x in (i.ge, i.gt, i.le, i.lt)]
        q = [Fraction(x.val) if x is not None and ir.is_c(x) else None for x in q]
        ir.real_bounds[nm] = (q[1] if q[0] is None else q[0], q[0] is None, q[3] if q[2] is None else q[2], q[2] is None)
        if i.ge is not None and ir.is_c(b(i.ge)) and b(i.ge).val >= 0: ir.nonneg_arrays.add(nm)

    def _indices(self, shape):
        """list of (concrete/fresh index tuple): constant extents enumerated, symbolic ones fresh"""
        per = []
        for d in shape:
            if ir.is_c(d): per.append([(const(j), []) for j in range(int(d.val))])
            else:
                idx, bs = tr.split_index(d)
                opts = [(idx, bs)]
                # constant factors are enumerated
                for v, e in bs:
                    if ir.is_c(e):
                        opts = [(inorm(ir.subst(ix, {v.val: const(j)})), [x for x in b2 if x[0] is not v])
                                for ix, b2 in opts for j in range(int(e.val))]
                per.append(opts)
        for combo in itertools.product(*per):
            yield tuple(c[0] for c in combo), [b for c in combo for b in c[1]]

    def _assume(self, P, kind, name, meta, its):
        for idx, bs in self._indices(its[0].shape):
            names = frozenset(v.val for v, e in bs)
            if kind == "true":
                c = its[0].get(idx)
                self._add_fact(P, c, names)
            else:
                a, b = its[0].get(idx), its[1].get(idx)
                if meta["rewrite"]:
                    if a.op == "sum" or (a.op in ("add", "mul") and any(x.op == "sum" for x in ir.subterms(a))):
                        self._sum_rule(P, name, a, b, names); continue
                    ap = ir.poly(a)
                    if len(ap) == 1:
                        (m, c), = ap.items()
                        if c == 1 and len(m) == 1 and m[0][1] == 2 and m[0][0].op in ("app", "v"):
                            x = m[0][0]
                            self._add_fact(P, ir.eq(a, b), names); ir.pow_rules.setdefault(x.val, []).append((x, names, b)); ir.forget_normal_forms(); continue
                    P.rewrites.append((a, names, b))
                else:
                    self._add_fact(P, ir.eq(a, b), names)

    def _sum_rule(self, P, name, a, b, names):
        p = ir.poly(a)
        if not any(x.op == "S" for m in p for x, e in m):
            # already determined by an earlier rule (e.g. the other half of a symmetric identity)
            if not ir.poly(ir.sub(a, b)): return
        if len(p) != 1: raise Unsupported("sum rule with several terms: %s" % a)
        (m, c), = p.items()
        s = [(x, e) for x, e in m if x.op == "S"]
        if len(s) != 1 or len(m) != 1 or s[0][1] != 1: raise Unsupported("sum rule shape %s" % a)
        S = s[0][0]
        if len(S.val) != 1: raise Unsupported("sum rule binders")
        v = ir.fresh("r", S.args[0])
        body = ir.subst(S.args[1], {S.val[0]: v})
        bp = ir.poly(body)
        (bm, bc), = bp.items()
        ir.sum_rules.append(ir.SumRule(name, v, S.args[0], bm, c * bc, names, b))

    def _add_fact(self, P, c, names):
        if c is TRUE: return
        if c.op == "and":
            for a in c.args: self._add_fact(P, a, names)
            return
        if not names:
            P.ground.append(c); return
        trigs = []
        for x in ir.subterms(c):
            if x.op == "app" and names <= ir.fv(x): trigs.append(x)
        # smallest triggers only
        trigs = [t for t in trigs if not any(u is not t and u in ir.subterms(t) for u in trigs)]
        if not trigs: raise Unsupported("assumption without trigger: %s" % c)
        P.foralls.append((tuple(names), trigs, c))

    def _obligations(self, P, kind, name, meta, its, log):
        res = []
        for idx, bs in self._indices(its[0].shape):
            ix = ",".join(str(i) if ir.is_c(i) else "*" for i in idx)
            label = "%s[%s]" % (name, ix) if idx else name
            nl = self._labels[label] = self._labels.get(label, 0) + 1
            if nl > 1: label += "#%d" % nl
            self._count += 1
            if self._count % self._shard[1] != self._shard[0]: continue
            if self._obs is not None and label not in self._obs: continue
            t0 = time.time()
            P.model = None
            if self._stop and self._nfail >= self._stop or self._deadline and t0 > self._deadline:
                why = "not attempted: earlier obligations of this contract failed" if self._stop and self._nfail >= self._stop else "not decided within the time of the check"
                res.append(dict(ob=label, ok=False, how=why, t=0.0, model=None, ens=name, skipped=True)); continue
            try:
                vals = [a.get(idx) for a in its]
                for i, (v, e) in enumerate(bs): P.note_index(v, e)
                facts = pv.Facts([])
                when = vals[-1] if meta.get("when") else TRUE
                if when is not TRUE:
                    try: when = P.simp(when, facts)
                    except ir.TooBig: pass
                f2 = facts
                for part in sorted(conjuncts(when), key=lambda c: (len(ir.subterms(c)), c.id)):
                    try: part = P.simp(part, f2)
                    except ir.TooBig: pass
                    if part is not TRUE: f2 = f2.add(P, part)
                    if f2 is None: break
                if f2 is None:
                    res.append(dict(ob=label, ok=True, how="vacuous-index", t=time.time() - t0, model=None, ens=name))
                    continue
                if kind == "eq":
                    g = ir.eq(vals[0], vals[1])
                    if its[0].kind != "B" and vals[0] is not vals[1]: g = ir.eq0(ir.sub(vals[0], vals[1]))
                elif kind == "ge": g = ir.le(vals[1], vals[0])
                elif kind == "gt": g = ir.lt(vals[1], vals[0])
                else: g = vals[0]
                ok, how = P.prove(g, f2)
                model = P.model if not ok else None
                if ok and self.defined:
                    for path, need in self._defs(vals):
                        P.deadline = None
                        f3 = f2.add(P, path) if path is not TRUE else f2
                        if f3 is None: continue
                        ok2, how2 = P.prove(need, f3, budget=20)
                        if not ok2:
                            ok, how, model = False, "definedness: %s (%s)" % (str(need)[:200], how2), P.model
                            break
                r = dict(ob=label, ok=ok, how=how, t=time.time() - t0, model=model, ens=name)
            except Unsupported as e:
                r = dict(ob=label, ok=False, how="outside the fragment: %s" % e, t=time.time() - t0, model=None, ens=name)
            except RecursionError:
                r = dict(ob=label, ok=False, how="recursion depth", t=time.time() - t0, model=None, ens=name)
            if not r["ok"] and name not in self.known and "outside the fragment" not in str(r["how"]): self._nfail += 1
            res.append(r)
            if log: log(self.name, r)
        return res

    _defs_done = None

    def _defs(self, vals):
        if self._defs_done is None: self._defs_done = set()
        out = []
        for t in vals:
            for path, need in pv.definedness(t):
                key = (path.id, need.id)
                if key in self._defs_done: continue
                self._defs_done.add(key)
                out.append((path, need))
        return out

    # ---------------------------------------------------------------- concrete side
    def gen(self, rng, dims):
        d = {}
        for nm, i in self.inputs.items():
            sh = tuple(dimexpr(s, dims) for s in i.shape)
            if i.gen is not None:
                d[nm] = np.asarray(i.gen(rng, sh, dims))
                continue
            if i.kind in "IU":
                lo = dimexpr(i.ge, dims) if i.ge is not None else (0 if i.kind == "U" else -4)
                hi = dimexpr(i.lt, dims) - 1 if i.lt is not None else dimexpr(i.le, dims) if i.le is not None else lo + 8
                d[nm] = rng.integers(lo, hi + 1, size=sh)
                continue
            if i.kind == "B":
                d[nm] = rng.random(sh) < 0.5; continue
            lo = i.ge if i.ge is not None else i.gt
            hi = i.le if i.le is not None else i.lt
            lo = None if lo is None else float(lo); hi = None if hi is None else float(hi)
            mode = rng.integers(0, 10)
            sc = i.scale if i.scale is not None else float(10 ** rng.uniform(-1.5, 1.5))
            if lo is not None and hi is not None:
                x = rng.uniform(lo, hi, size=sh)
                if mode == 0: x = np.where(rng.random(sh) < 0.5, lo if i.ge is not None else x, x)
                if mode == 1: x = np.where(rng.random(sh) < 0.5, hi if i.le is not None else x, x)
            elif lo is not None:
                x = lo + sc * np.abs(rng.standard_normal(sh)) + (0 if i.ge is not None else 1e-3 * sc)
                if mode == 0 and i.ge is not None: x = np.where(rng.random(sh) < 0.5, lo, x)
            elif hi is not None:
                x = hi - sc * np.abs(rng.standard_normal(sh)) - (0 if i.le is not None else 1e-3 * sc)
            else:
                x = sc * rng.standard_normal(sh)
                if mode == 0: x = np.where(rng.random(sh) < 0.6, 0.0, x)
                if mode == 1: x = np.round(x)
                if mode == 2 and len(sh): x = np.broadcast_to(sc * rng.standard_normal(sh[-1:]), sh).copy()
            d[nm] = x
        if self.sampler is not None:
            d.update(self.sampler(rng, dims, d) or {})
        return d

    def compiled(self, dims):
        names = list(self.inputs)
        holder = {}

        def run(*arrs):
            k = K()
            self.fn(Ns(dict(zip(names, arrs))), k, Ns(dims))
            holder["k"] = k
            return [a for it in k.items for a in it[4]]
        return run, holder

    def run_batch(self, dims, samples, jit=True):
        """execute the real code on samples; returns list of per-sample (requires_ok, [failures])"""
        run, holder = self.compiled(dims)
        names = list(self.inputs)
        dts = {"R": np.float64, "I": np.int64, "B": np.bool_, "U": np.uint32}
        stacked = [np.stack([np.asarray(s[n], dtype=dts[self.inputs[n].kind]) for s in samples]) for n in names]
        key = json.dumps(dims, sort_keys=True)
        if not hasattr(self, "_jit"): self._jit = {}
        if key not in self._jit:
            self._jit[key] = (jax.jit(jax.vmap(run)), holder)
        f, holder = self._jit[key]
        outs = [np.asarray(o) for o in f(*stacked)]
        if "k" not in holder: holder = self._jit[key][1]
        k = holder["k"]
        nb = len(samples)
        req = np.ones(nb, bool)
        fails = [[] for _ in range(nb)]
        pos = 0
        for role, kind, name, meta, arrs in k.items:
            o = outs[pos:pos + len(arrs)]; pos += len(arrs)
            if role == "req":
                if kind == "true": ok = o[0].reshape(nb, -1).all(axis=1)
                else: ok = close(o[0], o[1], meta["tol"], 1.0).reshape(nb, -1).all(axis=1)
                req &= ok
                continue
            if kind == "static":
                if not meta["ok"]:
                    for j in range(nb): fails[j].append((name, meta["detail"], None))
                continue
            if kind == "eq":
                ok = close(o[0], o[1], meta["tol"], meta["scale"]) if o[0].dtype != bool else o[0] == o[1]
            elif kind in ("ge", "gt"):
                s = meta["tol"] * (np.abs(o[0]) + np.abs(o[1]) + meta["scale"])
                ok = o[0] >= o[1] - s
            else: ok = o[0].astype(bool)
            if meta.get("when"): ok = ok | ~o[-1].astype(bool)
            bad = ~ok.reshape(nb, -1)
            for j in np.nonzero(bad.any(axis=1))[0]:
                q = int(np.nonzero(bad[j])[0][0])
                fails[j].append((name, q, [float(np.asarray(x[j]).reshape(-1)[q]) for x in o]))
        return req, fails

    def search(self, seed, budget_s=40.0, models=(), names=None, log=None, rounds=None):
        """look for a concrete violation on the real code. returns (violation or None, stats)"""
        t0 = time.time()
        tried = 0; admissible = 0
        rng = np.random.default_rng(seed)
        vio = None
        err = None
        for dims in self.sizes:
            try:
                for r in range(rounds or self.rounds):
                    if time.time() - t0 > budget_s: break
                    ss = [self.gen(rng, dims) for _ in range(self.batch)]
                    if r == 0:
                        for j, m in enumerate(models[: self.batch // 2]): overlay(ss[j], m, self.inputs)
                    req, fails = self.run_batch(dims, ss)
                    tried += len(ss); admissible += int(req.sum())
                    for j in range(len(ss)):
                        if req[j] and fails[j]:
                            fl = [f for f in fails[j] if names is None or f[0] in names]
                            if fl:
                                if vio is not None and all(f[0] in self.known for f in fl): continue
                                vio = dict(dims=dims, inputs={n: np.asarray(v).tolist() for n, v in ss[j].items()},
                                           fails=[[f[0], str(f[1]), f[2]] for f in fl])
                                if all(f[0] in self.known for f in fl): continue      # listed findings: keep looking for another violation
                                return vio, dict(tried=tried, admissible=admissible, wall=time.time() - t0)
            except Exception as e:
                err = "%s: %s" % (type(e).__name__, str(e)[:300])
                tb = traceback.format_exc()
                # the real code raised on admissible input
                vio = dict(dims=dims, inputs={}, fails=[["exception", err, tb[-1500:]]], exception=True)
                return vio, dict(tried=tried, admissible=admissible, wall=time.time() - t0)
        return vio, dict(tried=tried, admissible=admissible, wall=time.time() - t0)

    def crosscheck(self, seed, n=3, max_elems=40):
        """symbolic evaluator against real execution: every obligation term evaluated at random inputs"""
        from . import numeval
        return numeval.crosscheck(self, seed, n, max_elems)

    def replay(self, vio):
        """run the real code again on a recorded input; returns the failures"""
        if vio.get("exception") and not vio["inputs"]:
            v, st = self.search(1, 20)
            return v["fails"] if v else []
        req, fails = self.run_batch(vio["dims"], [vio["inputs"]])
        return [[f[0], str(f[1]), f[2]] for f in fails[0]] if req[0] else []


def overlay(sample, model, inputs):
    for name, idx, v in model or ():
        if name not in sample or v is None: continue
        a = np.array(sample[name])
        if len(idx) == a.ndim:
            if all(0 <= i for i in idx):
                ii = tuple(min(i, s - 1) for i, s in zip(idx, a.shape))
                try: a[ii] = v
                except Exception: continue
                sample[name] = a


def close(a, b, tol, scale):
    a = np.asarray(a, float); b = np.asarray(b, float)
    with np.errstate(all="ignore"):
        ok = np.abs(a - b) <= tol * (np.abs(a) + np.abs(b) + scale)
    return ok


# ---------------------------------------------------------------------------------------- trace-time shims
class shims:
    """jax functions that reject symbolic dimensions get an equivalent definition for symbolic dims only"""

    def __enter__(self):
        self.rmi = jnp.ravel_multi_index
        self.uri = jnp.unravel_index
        rmi, uri = self.rmi, self.uri

        def conc(dims): return all(isinstance(d, (int, np.integer)) for d in dims)

        def ravel(multi, dims, mode="raise", order="C"):
            if conc(dims): return rmi(multi, dims, mode=mode, order=order)
            assert mode == "clip" and order == "C"
            r = 0
            for i, d in zip(multi, dims):
                i = jnp.clip(i, 0, jnp.asarray(d - 1))
                r = r * d + i
            return r

        def unravel(indices, shape):
            if conc(shape): return uri(indices, shape)
            # jnp.unravel_index clips out-of-range indices
            total = 1
            for d in shape: total = total * d
            k = jnp.clip(jnp.asarray(indices).astype(jnp.int64), 0, total - 1)
            out = []
            for d in reversed(shape[1:]):
                out.append(k % d); k = k // d
            out.append(k)
            return tuple(reversed(out))
        jnp.ravel_multi_index = ravel
        jnp.unravel_index = unravel
        self.ind = ind0 = jnp.indices

        def indices(dimensions, dtype=None, sparse=False):
            if sparse or conc(dimensions): return ind0(dimensions, dtype=dtype or int, sparse=sparse)
            dims = tuple(dimensions)
            return jnp.stack([jax.lax.broadcasted_iota(dtype or jnp.int64, dims, j) for j in range(len(dims))], 0)
        jnp.indices = indices
        # a.squeeze() with symbolic extents removes the constant extents 1 (symbolic extents >= 2; extent 1 has its own contracts)
        import jax._src.numpy.lax_numpy as LN
        self.LN, self.sq0 = LN, LN._squeeze
        sq0 = LN._squeeze

        def squeeze_(arr, axis):
            if axis is None and not conc(arr.shape): axis = tuple(j for j, d in enumerate(arr.shape) if isinstance(d, int) and d == 1)
            return sq0(arr, axis)
        LN._squeeze = squeeze_
        # library functions with an assumed contract get a recognisable call boundary
        self.det, self.expm = jnp.linalg.det, jax.scipy.linalg.expm
        jnp.linalg.det = named_det
        jax.scipy.linalg.expm = named_expm
        return self

    def __exit__(self, *a):
        jnp.ravel_multi_index = self.rmi
        jnp.unravel_index = self.uri
        jnp.indices = self.ind
        self.LN._squeeze = self.sq0
        jnp.linalg.det, jax.scipy.linalg.expm = self.det, self.expm


_det0, _expm0 = jnp.linalg.det, jax.scipy.linalg.expm


@jax.jit
def verif_det(a):
    n = a.shape[-1]
    if n > 3: return _det0(a)
    if n == 1: return a[..., 0, 0]
    if n == 2: return a[..., 0, 0] * a[..., 1, 1] - a[..., 0, 1] * a[..., 1, 0]
    return (a[..., 0, 0] * (a[..., 1, 1] * a[..., 2, 2] - a[..., 1, 2] * a[..., 2, 1])
            - a[..., 0, 1] * (a[..., 1, 0] * a[..., 2, 2] - a[..., 1, 2] * a[..., 2, 0])
            + a[..., 0, 2] * (a[..., 1, 0] * a[..., 2, 1] - a[..., 1, 1] * a[..., 2, 0]))


@jax.jit
def verif_expm(a): return _expm0(a)


def named_det(a): return verif_det(jnp.asarray(a))
def named_expm(A, **kw): return verif_expm(jnp.asarray(A)) if not kw else _expm0(A, **kw)


class Profile:
    """records which functions of the repository the harness executed"""

    def __init__(self, called): self.called = called

    def __enter__(self):
        pre = os.path.join(REPO, "hydraxmpm") + os.sep

        def prof(frame, event, arg):
            if event == "call":
                co = frame.f_code
                if co.co_filename.startswith(pre) and not co.co_name.startswith("<"):
                    self.called.add("%s:%s" % (os.path.relpath(co.co_filename, REPO), co.co_qualname))
        sys.setprofile(prof)
        return self

    def __exit__(self, *a): sys.setprofile(None)
