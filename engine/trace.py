"""Symbolic evaluation of jaxprs traced from the real code: every array becomes a lazy function index -> term.

Nothing is approximated silently: a primitive without a rule raises Unsupported, and whatever the reals cannot express
(out-of-range fills, wrap-around of unsigned conversion) becomes an unconstrained symbol.
"""
import itertools, sys, math
from fractions import Fraction
import numpy as np
import jax
from . import ir
from .ir import (T, const, lift, var, fresh, app, add, sub, mul, neg, div, inv, ite, not_, and_, or_, lt, le, eq, gt0,
                 floor_, sqrt_, exp_, log_, pow_, fn, idiv, irem, sum_, bmax, tab, inorm, icond, is_c, TRUE, FALSE,
                 Unsupported, poly, dimvar, min_, max_, abs_)

sys.setrecursionlimit(200000)
PRIMS_USED = {}
_uid = itertools.count(1)


def dim_T(d):
    if isinstance(d, (int, np.integer)): return const(int(d))
    if isinstance(d, T): return d
    env = {v: dimvar(v) for v in d._get_vars()}
    r = d._evaluate(env)
    return inorm(lift(r))


def kind_of(dtype):
    d = np.dtype(dtype)
    if d.kind == "b": return "B"
    if d.kind in "iu": return "I"
    if d.kind == "f": return "R"
    try:
        import jax.dtypes as jd
        if jd.issubdtype(dtype, np.floating): return "R"
    except Exception:
        pass
    raise Unsupported("dtype %s" % dtype)


class Arr:
    __slots__ = ("shape", "kind", "f", "memo")

    def __init__(self, shape, kind, f):
        self.shape = tuple(shape); self.kind = kind; self.f = f; self.memo = {}

    def get(self, idx):
        idx = tuple(inorm(i) if not is_c(i) else i for i in idx)
        assert len(idx) == len(self.shape), (idx, self.shape)
        key = tuple(i.id for i in idx)
        r = self.memo.get(key)
        if r is None:
            r = self.f(idx)
            self.memo[key] = r
        return r

    @property
    def ndim(self): return len(self.shape)


def from_np(x):
    x = np.asarray(x)
    k = kind_of(x.dtype)
    shape = tuple(const(s) for s in x.shape)
    uni = None
    if x.size and x.dtype.kind != "f" or x.size and not np.isnan(x).any():
        if (x == x.reshape(-1)[0]).all(): uni = x.reshape(-1)[0]
    name = None

    def f(idx):
        nonlocal name
        if uni is not None: return cval(uni, k)
        if all(is_c(i) for i in idx):
            return cval(x[tuple(int(i.val) for i in idx)], k)
        # drop constant indices first
        y = x; sy = []
        for i in idx:
            sy.append(i)
        sl = tuple(int(i.val) if is_c(i) else slice(None) for i in idx)
        y = x[sl]; rest = tuple(i for i in idx if not is_c(i))
        if (y == y.reshape(-1)[0]).all(): return cval(y.reshape(-1)[0], k)
        # affine in the index (iota-like tables)
        if y.ndim == 1 and y.dtype.kind in "iu" and len(y) > 1:
            d = int(y[1]) - int(y[0])
            if all(int(y[j]) == int(y[0]) + d * j for j in range(len(y))):
                return add(const(int(y[0])), mul(const(d), rest[0]))
        nm = "T%d" % next(_uid)
        # hash-cons tables by content
        key = (y.tobytes(), y.shape, str(y.dtype))
        nm = _tabnames.setdefault(key, nm)
        ir.TABLES[nm] = y
        if k == "B":
            return ir.not_(ir.eq(tab(nm, rest, "I"), const(0)))
        return tab(nm, rest, k)
    return Arr(shape, k, f)


_tabnames = {}


def reset():
    _tabnames.clear(); PRIMS_USED.clear()


def cval(v, k):
    if k == "B": return const(bool(v))
    if k == "I": return const(int(v))
    v = float(v)
    if v != v: return var("NAN", "R")
    if v == math.inf: return var("PINF", "R")
    if v == -math.inf: return neg(var("PINF", "R"))
    return const(ir.float_frac(v))


def scalar(t, kind=None):
    return Arr((), kind or t.sort, lambda idx: t)


# ------------------------------------------------------------------ index helpers
MINOR = ["w"]     # dimension variables that are the minor (fast) axis when an extent is a product


def split_index(extent):
    """fresh index for an extent, split along products: returns (index term, [(binder var, extent)])"""
    e = inorm(extent)
    if is_c(e):
        v = fresh("k", e)
        return v, [(v, e)]
    p = poly(e)
    if len(p) == 1:
        (m, c), = p.items()
        fac = []
        for a, k in m:
            fac += [a] * int(k)
        minor = [a for a in fac if a.op == "v" and a.val in MINOR]
        major = [a for a in fac if not (a.op == "v" and a.val in MINOR)]
        major.sort(key=lambda a: (a.val if a.op == "v" else "~"))
        chain = major + minor
        exts = list(chain)
        if c != 1: exts.append(const(c))
        if len(exts) > 1:
            idx = const(0); bs = []
            for x in exts:
                v = fresh("k", x)
                bs.append((v, x))
                idx = add(mul(idx, x), v)
            return inorm(idx), bs
    v = fresh("k", e)
    return v, [(v, e)]


EXPAND = 128


def big_sum(bs, body):
    """sum over binders; constant extents expand"""
    for v, e in reversed(bs):
        if is_c(e) and e.val <= EXPAND:
            t = const(0)
            for j in range(int(e.val)):
                t = add(t, ir.retab(ir.subst(body, {v.val: const(j)})))
            body = t
        else:
            body = sum_(v, e, body)
    return body


def prod_T(xs):
    r = const(1)
    for x in xs: r = mul(r, x)
    return r


def unflatten(k, dims):
    """row-major multi-index of flat index k in dims (list of T)"""
    out = []
    for d in reversed(dims[1:]):
        if is_c(d) and d.val == 1:
            out.append(const(0)); continue
        out.append(irem(k, d)); k = idiv(k, d)
    if dims: out.append(k)
    return list(reversed(out))


def flatten(idx, dims):
    k = const(0)
    for i, d in zip(idx, dims):
        k = add(mul(k, d), i)
    return k


# ------------------------------------------------------------------ evaluation
class Ctx:
    """evaluation options"""
    def __init__(self):
        self.call_hooks = {}      # name of inner jit -> fn(ins)->outs or None
        self.scan_hook = None


CTX = Ctx()


def eval_closed(closed, args):
    return eval_jaxpr(closed.jaxpr, [from_np(c) if not isinstance(c, Arr) else c for c in closed.consts], args)


def eval_jaxpr(jaxpr, consts, args):
    env = {}

    def read(v):
        if hasattr(v, "val") and type(v).__name__ == "Literal":
            return from_np(np.asarray(v.val, dtype=v.aval.dtype))
        return env[v]
    for v, a in zip(jaxpr.constvars, consts): env[v] = a
    assert len(jaxpr.invars) == len(args), (len(jaxpr.invars), len(args))
    for v, a in zip(jaxpr.invars, args): env[v] = a
    for e in jaxpr.eqns:
        name = e.primitive.name
        PRIMS_USED[name] = PRIMS_USED.get(name, 0) + 1
        rule = RULES.get(name)
        if rule is None:
            raise Unsupported("primitive " + name)
        ins = [read(v) for v in e.invars]
        outs = rule(e, *ins)
        if not isinstance(outs, (list, tuple)): outs = [outs]
        if len(outs) != len(e.outvars): raise Unsupported("%s: %d results for %d outputs" % (name, len(outs), len(e.outvars)))
        for v, o in zip(e.outvars, outs):
            env[v] = o
    return [read(v) for v in jaxpr.outvars]


RULES = {}


def rule(*names):
    def d(f):
        for n in names: RULES[n] = f
        return f
    return d


def oshape(e, i=0): return tuple(dim_T(d) for d in e.outvars[i].aval.shape)
def okind(e, i=0): return kind_of(e.outvars[i].aval.dtype)


def bget(a, idx):
    """elementwise operands may be rank-0 literals"""
    if a.ndim == 0: return a.get(())
    return a.get(idx)


def elementwise(f):
    def r(e, *ins):
        return Arr(oshape(e), okind(e), lambda idx: f(*[bget(a, idx) for a in ins]))
    return r


def boolop(fb, fi=None):
    def g(a, b):
        if a.sort == "B": return fb(a, b)
        raise Unsupported("bitwise op on integers")
    return g


def sign_(a):
    return ite(gt0(a), const(1), ite(lt(a, const(0)), const(-1), const(0)))


def _div(e, a, b):
    k = okind(e)
    if k == "I":
        return Arr(oshape(e), "I", lambda idx: idiv(bget(a, idx), bget(b, idx)))
    return Arr(oshape(e), "R", lambda idx: div(bget(a, idx), bget(b, idx)))


def rem_(a, b):
    if a.sort == "I" and b.sort == "I": return irem(a, b)
    q = div(a, b)
    tr = ite(lt(q, const(0)), neg(floor_(neg(q))), floor_(q))
    return sub(a, mul(b, tr))


RULES["div"] = _div
EW = {
    "add": add, "add_any": add, "sub": sub, "mul": mul, "neg": neg,
    "max": lambda a, b: max_(a, b) if a.sort != "B" else or_(a, b),
    "min": lambda a, b: min_(a, b) if a.sort != "B" else and_(a, b),
    "abs": abs_, "sign": sign_,
    "floor": floor_, "ceil": lambda a: neg(floor_(neg(a))), "sqrt": sqrt_, "rsqrt": lambda a: inv(sqrt_(a)),
    "exp": exp_, "exp2": lambda a: exp_(mul(a, log_(const(2)))), "log": log_,
    "log1p": lambda a: log_(add(const(1), a)), "expm1": lambda a: sub(exp_(a), const(1)),
    "square": lambda a: mul(a, a), "pow": pow_,
    "sin": lambda a: fn("sin", a), "cos": lambda a: fn("cos", a), "tan": lambda a: div(fn("sin", a), fn("cos", a)),
    "tanh": lambda a: fn("tanh", a), "atan2": lambda a, b: fn("atan2", a, b), "atan": lambda a: fn("atan", a),
    "acos": lambda a: fn("acos", a), "asin": lambda a: fn("asin", a),
    "logistic": lambda a: fn("sigmoid", a),
    "cbrt": lambda a: fn("cbrt", a),
    "eq": eq, "ne": lambda a, b: not_(eq(a, b)),
    "lt": lambda a, b: lt(a, b), "le": le, "gt": lambda a, b: lt(b, a), "ge": lambda a, b: le(b, a),
    "and": boolop(and_), "or": boolop(or_),
    "xor": boolop(lambda a, b: or_(and_(a, not_(b)), and_(not_(a), b))),
    "stop_gradient": lambda a: a, "copy": lambda a: a, "copy_p": lambda a: a, "optimization_barrier": lambda a: a,
    "rem": rem_,
    "is_finite": lambda a: TRUE,
    "real": lambda a: a, "reduce_precision": lambda a: a,
    "erf_inv": None,
}
for k_, f_ in EW.items():
    if f_ is not None: RULES[k_] = elementwise(f_)


@rule("not")
def _not(e, a):
    if okind(e) != "B": raise Unsupported("bitwise not")
    return Arr(oshape(e), "B", lambda idx: not_(a.get(idx)))


@rule("eq", "ne")
def _eqne(e, a, b):
    n = e.primitive.name
    # x == x / x != x on floats is the NaN test; over the reals it is constant
    def f(idx):
        r = eq(bget(a, idx), bget(b, idx))
        return r if n == "eq" else not_(r)
    return Arr(oshape(e), "B", f)


@rule("integer_pow")
def _ipow(e, a):
    y = e.params["y"]
    return Arr(oshape(e), okind(e), lambda idx: pow_(a.get(idx), const(y)))


@rule("convert_element_type")
def _conv(e, a):
    src, dst = a.kind, okind(e)
    unsigned = np.dtype(e.params["new_dtype"]).kind == "u"

    def f(idx):
        x = a.get(idx)
        if dst == "B":
            return x if src == "B" else not_(eq(x, const(0)))
        if src == "B":
            return ite(x, const(1), const(0))
        if dst == "I":
            if x.sort != "I":
                x = ite(lt(x, const(0)), neg(floor_(neg(x))), floor_(x))
                x = simp_conv(x)
            if unsigned:
                c = icond(le(const(0), x))
                if c is not TRUE:
                    x = ite(c, x, var("WRAP!%d" % x.id, "I"))
            return x
        return x
    return Arr(oshape(e), dst, f)


def simp_conv(x):
    # floor of an integer-valued polynomial is itself
    try:
        p = poly(x.args[2].args[0]) if x.op == "ite" and x.args[2].op == "floor" else None
    except Unsupported:
        return x
    if p is not None and ir.is_int_poly(p):
        return ir.p_term(p)
    return x


@rule("select_n")
def _select(e, c, *cs):
    def f(idx):
        cc = bget(c, idx)
        if c.kind == "B":
            cc = icond(cc) if cc.op != "c" else cc
            if cc is TRUE: return cs[1].get(idx)
            if cc is FALSE: return cs[0].get(idx)
            return ite(cc, cs[1].get(idx), cs[0].get(idx))
        r = cs[-1].get(idx)
        for j in range(len(cs) - 2, -1, -1):
            r = ite(icond(eq(cc, const(j))), cs[j].get(idx), r)
        return r
    return Arr(oshape(e), okind(e), f)


@rule("clamp")
def _clamp(e, lo, x, hi):
    def f(idx):
        v = x.get(idx); l = bget(lo, idx); h = bget(hi, idx)
        return clampT(v, l, h)
    return Arr(oshape(e), okind(e), f)


def clampT(v, l, h):
    c = icond(lt(v, l))
    if c is TRUE: r = l
    elif c is FALSE: r = v
    else: r = ite(c, l, v)
    c = icond(lt(h, r))
    if c is TRUE: return h
    if c is FALSE: return r
    return ite(c, h, r)


# ------------------------------------------------------------------ structure
@rule("broadcast_in_dim")
def _bid(e, a, *dyn):
    sh = oshape(e); bd = e.params["broadcast_dimensions"]

    def f(idx):
        src = []
        for i, d in enumerate(bd):
            s = a.shape[i]
            if is_c(s) and s.val == 1: src.append(const(0))
            else: src.append(idx[d])
        return a.get(tuple(src))
    return Arr(sh, okind(e), f)


@rule("reshape")
def _reshape(e, a, *dyn):
    sh = oshape(e)
    src = list(a.shape)
    perm = e.params.get("dimensions")
    if perm is not None:
        a0 = a

        def tf(idx):
            s2 = [None] * len(perm)
            for o, q in enumerate(perm): s2[q] = idx[o]
            return a0.get(tuple(s2))
        a = Arr([a0.shape[q] for q in perm], a0.kind, tf); src = list(a.shape)
    # pair up prefixes so that identical leading/trailing dims pass through untouched
    return Arr(sh, okind(e), lambda idx: a.get(tuple(reindex(list(idx), list(sh), src))))


def reindex(idx, dst, src):
    idx = list(idx); dst = list(dst); src = list(src)
    pre = []
    while dst and src and dst[0] is src[0]:
        pre.append(idx[0]); idx = idx[1:]; dst = dst[1:]; src = src[1:]
    post = []
    while dst and src and dst[-1] is src[-1]:
        post.insert(0, idx[-1]); idx = idx[:-1]; dst = dst[:-1]; src = src[:-1]
    # unit dims
    d2 = [(i, d) for i, d in zip(idx, dst) if not (is_c(d) and d.val == 1)]
    s2 = [d for d in src if not (is_c(d) and d.val == 1)]
    if len(d2) == len(s2) and all(d is s for (_, d), s in zip(d2, s2)):
        mid = [i for i, _ in d2]
    elif not s2:
        mid = []
    else:
        k = inorm(flatten([i for i, _ in d2], [d for _, d in d2]))
        mid = unflatten(k, s2)
    out = []; j = 0
    for d in src:
        if is_c(d) and d.val == 1: out.append(const(0))
        else:
            out.append(mid[j]); j += 1
    return pre + out + post


@rule("squeeze")
def _squeeze(e, a):
    dims = set(d % a.ndim for d in e.params["dimensions"])

    def f(idx):
        it = iter(idx)
        return a.get(tuple(const(0) if d in dims else next(it) for d in range(a.ndim)))
    return Arr(oshape(e), okind(e), f)


@rule("expand_dims")
def _expand(e, a):
    dims = set(e.params["dimensions"])
    return Arr(oshape(e), okind(e), lambda idx: a.get(tuple(i for d, i in enumerate(idx) if d not in dims)))


@rule("transpose")
def _transpose(e, a):
    perm = e.params["permutation"]

    def f(idx):
        src = [None] * len(perm)
        for o, s in enumerate(perm): src[s] = idx[o]
        return a.get(tuple(src))
    return Arr(oshape(e), okind(e), f)


@rule("rev")
def _rev(e, a):
    dims = e.params["dimensions"]
    return Arr(oshape(e), okind(e), lambda idx: a.get(tuple(
        sub(sub(a.shape[d], const(1)), i) if d in dims else i for d, i in enumerate(idx))))


@rule("slice")
def _slice(e, a):
    st = [dim_T(x) for x in e.params["start_indices"]]
    sr = e.params["strides"]
    sr = [const(1)] * a.ndim if sr is None else [dim_T(x) for x in sr]
    return Arr(oshape(e), okind(e), lambda idx: a.get(tuple(add(s, mul(i, r)) for s, i, r in zip(st, idx, sr))))


@rule("dynamic_slice")
def _dslice(e, a, *starts):
    sz = oshape(e)

    def f(idx):
        out = []
        for d in range(a.ndim):
            s = clampT(starts[d].get(()), const(0), sub(a.shape[d], sz[d]))
            out.append(add(s, idx[d]))
        return getI(a, tuple(out))
    return Arr(sz, okind(e), f)


def getI(a, idx):
    """array read where index components may be case terms: lift ite out of the index"""
    for j, i in enumerate(idx):
        if i.op == "ite":
            c, x, y = i.args
            return ite(c, getI(a, idx[:j] + (x,) + idx[j + 1:]), getI(a, idx[:j] + (y,) + idx[j + 1:]))
    return a.get(idx)


@rule("dynamic_update_slice")
def _dus(e, a, u, *starts):
    def f(idx):
        conds = []; off = []
        for d in range(a.ndim):
            s = clampT(starts[d].get(()), const(0), sub(a.shape[d], u.shape[d]))
            o = sub(idx[d], s)
            conds += [icond(le(const(0), o)), icond(lt(o, u.shape[d]))]
            off.append(inorm(o))
        c = and_(*conds)
        if c is FALSE: return a.get(idx)
        uv = u.get(tuple(off))
        if c is TRUE: return uv
        return ite(c, uv, a.get(idx))
    return Arr(oshape(e), okind(e), f)


@rule("concatenate")
def _concat(e, *xs):
    d = e.params["dimension"]

    def f(idx):
        i = idx[d]; off = const(0); offs = []
        for x in xs:
            offs.append(off); off = inorm(add(off, x.shape[d]))
        chain = []
        for x, o in reversed(list(zip(xs, offs))):
            c = icond(le(o, i)) if o is not const(0) else TRUE
            if c is FALSE: continue
            chain.append((c, x, o))
            if c is TRUE: break
        el = lambda x, o: x.get(idx[:d] + (inorm(sub(i, o)),) + idx[d + 1:])
        c, x, o = chain[-1]
        res = el(x, o)
        for c, x, o in reversed(chain[:-1]):
            res = ite(c, el(x, o), res)
        return res
    return Arr(oshape(e), okind(e), f)


@rule("stack")
def _stackp(e, *xs):
    d = e.params.get("axis", e.params.get("dimension", 0))
    sh = oshape(e)

    def f(idx):
        i = idx[d]; rest = idx[:d] + idx[d + 1:]
        if is_c(i): return xs[int(i.val)].get(rest)
        r = xs[-1].get(rest)
        for j in range(len(xs) - 2, -1, -1):
            r = ite(icond(eq(i, const(j))), xs[j].get(rest), r)
        return r
    return Arr(sh, okind(e), f)


@rule("unstack")
def _unstack(e, a):
    ax = e.params.get("axis", 0)
    return [Arr(oshape(e, j), okind(e, j), (lambda idx, j=j: a.get(idx[:ax] + (const(j),) + idx[ax:])))
            for j in range(len(e.outvars))]


@rule("split")
def _split(e, a):
    ax = e.params["axis"]; off = const(0); outs = []
    for j, s in enumerate(e.params["sizes"]):
        def f(idx, off=off):
            return a.get(idx[:ax] + (add(off, idx[ax]),) + idx[ax + 1:])
        outs.append(Arr(oshape(e, j), okind(e, j), f))
        off = add(off, dim_T(s))
    return outs


@rule("pad")
def _pad(e, a, pv):
    cfg = e.params["padding_config"]

    def f(idx):
        conds = []; src = []
        for d, (lo, hi, it) in enumerate(cfg):
            if it != 0: raise Unsupported("interior pad")
            i = inorm(sub(idx[d], dim_T(lo)))
            conds += [icond(le(const(0), i)), icond(lt(i, a.shape[d]))]
            src.append(i)
        c = and_(*conds)
        if c is FALSE: return pv.get(())
        if c is TRUE: return a.get(tuple(src))
        return ite(c, a.get(tuple(src)), pv.get(()))
    return Arr(oshape(e), okind(e), f)


@rule("iota")
def _iota(e, *dyn):
    d = e.params["dimension"]
    return Arr(oshape(e), okind(e), lambda idx: idx[d])


@rule("dim_as_value")
def _dav(e):
    t = dim_T(e.params["dim"])
    return Arr((), okind(e), lambda idx: t)


@rule("tile")
def _tile(e, a):
    sh = oshape(e)
    return Arr(sh, okind(e), lambda idx: a.get(tuple(irem(i, s) for i, s in zip(idx, a.shape))))


# ------------------------------------------------------------------ reductions
def _axes_reduce(e, a, comb, unit, symbolic):
    axes = sorted(e.params["axes"])

    def f(idx):
        def go(pos, cur):
            # cur: dict axis->index for already bound axes
            if pos == len(axes):
                it = iter(idx)
                full = tuple(cur[d] if d in cur else next(it) for d in range(a.ndim))
                return a.get(full)
            ax = axes[pos]; ext = a.shape[ax]
            if is_c(ext) and ext.val <= EXPAND:
                r = None
                for j in range(int(ext.val)):
                    x = go(pos + 1, {**cur, ax: const(j)})
                    r = x if r is None else comb(r, x)
                return unit if r is None else r
            if symbolic is None: raise Unsupported("symbolic reduction " + e.primitive.name)
            k, bs = split_index(ext)
            body = go(pos + 1, {**cur, ax: k})
            for v, ex in reversed(bs):
                if is_c(ex):
                    r = None
                    for j in range(int(ex.val)):
                        x = ir.retab(ir.subst(body, {v.val: const(j)}))
                        r = x if r is None else comb(r, x)
                    body = r
                else:
                    body = symbolic(v, ex, body)
            return body
        return go(0, {})
    return Arr(oshape(e), okind(e), f)


RULES["reduce_sum"] = lambda e, a: _axes_reduce(e, a, add, const(0), sum_)
RULES["reduce_prod"] = lambda e, a: _axes_reduce(e, a, mul, const(1), None)
RULES["reduce_and"] = lambda e, a: _axes_reduce(e, a, and_, TRUE, None)
RULES["reduce_or"] = lambda e, a: _axes_reduce(e, a, or_, FALSE, None)
RULES["reduce_max"] = lambda e, a: _axes_reduce(e, a, max_ if a.kind != "B" else or_, None,
                                                lambda v, x, b: bmax(v, x, b, "max"))
RULES["reduce_min"] = lambda e, a: _axes_reduce(e, a, min_ if a.kind != "B" else and_, None,
                                                lambda v, x, b: bmax(v, x, b, "min"))


@rule("argmin", "argmax")
def _arg(e, a):
    ax, = e.params["axes"]
    ext = a.shape[ax]
    if not is_c(ext): raise Unsupported("argmin over symbolic axis")
    mx = e.primitive.name == "argmax"

    def f(idx):
        best = const(0); bv = a.get(idx[:ax] + (const(0),) + idx[ax:])
        for j in range(1, int(ext.val)):
            v = a.get(idx[:ax] + (const(j),) + idx[ax:])
            c = lt(bv, v) if mx else lt(v, bv)
            best = ite(c, const(j), best); bv = ite(c, v, bv)
        return best
    return Arr(oshape(e), okind(e), f)


@rule("cumsum")
def _cumsum(e, a):
    ax = e.params["axis"]; ext = a.shape[ax]
    rv = e.params.get("reverse", False)
    if not is_c(ext) and rv: raise Unsupported("symbolic cumsum")

    def f(idx):
        i = idx[ax]
        if not is_c(i) or not is_c(ext):
            if rv: raise Unsupported("cumsum index")
            v = ir.fresh("c", add(i, const(1)))
            return big_sum([(v, add(i, const(1)))], a.get(idx[:ax] + (v,) + idx[ax + 1:]))
        rng = range(int(i.val), int(ext.val)) if rv else range(0, int(i.val) + 1)
        r = const(0)
        for j in rng: r = add(r, a.get(idx[:ax] + (const(j),) + idx[ax + 1:]))
        return r
    return Arr(oshape(e), okind(e), f)


@rule("dot_general")
def _dot(e, a, b):
    (lc, rc), (lb, rb) = e.params["dimension_numbers"]
    lfree = [d for d in range(a.ndim) if d not in lc and d not in lb]
    rfree = [d for d in range(b.ndim) if d not in rc and d not in rb]

    def f(idx):
        nb = len(lb)
        ai = [None] * a.ndim; bi = [None] * b.ndim
        for j, d in enumerate(lb): ai[d] = idx[j]
        for j, d in enumerate(rb): bi[d] = idx[j]
        for j, d in enumerate(lfree): ai[d] = idx[nb + j]
        for j, d in enumerate(rfree): bi[d] = idx[nb + len(lfree) + j]

        def go(pos):
            if pos == len(lc): return mul(a.get(tuple(ai)), b.get(tuple(bi)))
            ext = a.shape[lc[pos]]
            if is_c(ext) and ext.val <= EXPAND:
                r = const(0)
                for j in range(int(ext.val)):
                    ai[lc[pos]] = const(j); bi[rc[pos]] = const(j)
                    r = add(r, go(pos + 1))
                return r
            k, bs = split_index(ext)
            ai[lc[pos]] = k; bi[rc[pos]] = k
            return big_sum(bs, go(pos + 1))
        return go(0)
    return Arr(oshape(e), okind(e), f)


# ------------------------------------------------------------------ gather / scatter
def mode_name(m):
    s = str(m).upper()
    if "CLIP" in s: return "clip"
    if "FILL" in s: return "fill"
    if "PROMISE" in s: return "promise"
    if s.endswith("0"): return "fill"
    return "fill"


@rule("gather")
def _gather(e, a, ind):
    dn = e.params["dimension_numbers"]; ss = [dim_T(x) for x in e.params["slice_sizes"]]
    mode = mode_name(e.params["mode"])
    od = list(dn.offset_dims); col = set(dn.collapsed_slice_dims); sim = list(dn.start_index_map)
    obd = list(getattr(dn, "operand_batching_dims", ())); sbd = list(getattr(dn, "start_indices_batching_dims", ()))
    sh = oshape(e)
    offd = [d for d in range(a.ndim) if d not in col and d not in obd]

    def f(idx):
        batch = [idx[d] for d in range(len(sh)) if d not in od]
        off = {d: idx[o] for d, o in zip(offd, od)}
        full = []; conds = []
        for d in range(a.ndim):
            if d in obd:
                full.append(batch[sbd[obd.index(d)]]); continue
            o = off.get(d, const(0))
            if d in sim:
                s = ind.get(tuple(batch) + (const(sim.index(d)),))
                hi = inorm(sub(a.shape[d], ss[d]))
                if mode == "clip": s = clampT(s, const(0), hi)
                elif mode == "fill":
                    conds += [icond(le(const(0), s)), icond(le(s, hi))]
                full.append(add(s, o))
            else: full.append(o)
        c = and_(*conds)
        fill = {"R": var("NAN", "R"), "I": var("IFILL", "I"), "B": TRUE}[a.kind]
        if c is FALSE: return fill
        v = getI(a, tuple(inormI(x) for x in full))
        return v if c is TRUE else ite(c, v, fill)
    return Arr(sh, okind(e), f)


def inormI(x):
    if x.op == "ite": return ite(x.args[0], inormI(x.args[1]), inormI(x.args[2]))
    if x.op == "add" and any(y.op == "ite" for y in x.args):
        a, b = x.args
        if a.op == "ite": return inormI(ite(a.args[0], add(a.args[1], b), add(a.args[2], b)))
        return inormI(ite(b.args[0], add(a, b.args[1]), add(a, b.args[2])))
    return inorm(x)


def _scatter(e, a, ind, upd, comb):
    dn = e.params["dimension_numbers"]; mode = mode_name(e.params["mode"])
    uwd = list(dn.update_window_dims); iwd = set(dn.inserted_window_dims); sdo = list(dn.scatter_dims_to_operand_dims)
    obd = list(getattr(dn, "operand_batching_dims", ())); sbd = list(getattr(dn, "scatter_indices_batching_dims", ()))
    wdims = [d for d in range(a.ndim) if d not in iwd and d not in obd]
    usd = [d for d in range(upd.ndim) if d not in uwd]       # scatter dims of updates
    bext = [upd.shape[d] for d in usd]
    wsize = {d: upd.shape[u] for d, u in zip(wdims, uwd)}

    def element(idx, bidx):
        """(condition, value) of the contribution of batch element bidx at output idx"""
        conds = []; ui = [None] * upd.ndim
        for d, i in zip(usd, bidx): ui[d] = i
        starts = {}
        for j, d in enumerate(sdo):
            s = ind.get(tuple(bidx) + (const(j),))
            ws = wsize.get(d, const(1))
            hi = inorm(sub(a.shape[d], ws))
            if mode == "clip": s = clampT(s, const(0), hi)
            elif mode == "fill":
                if d in wsize:
                    conds += [icond(le(const(0), s)), icond(le(s, hi))]
            starts[d] = s
        for j, d in enumerate(obd):
            conds.append(icond(eq(idx[d], bidx[sbd[j]])))
        for d in range(a.ndim):
            if d in obd: continue
            if d in iwd:
                conds.append(icond(eq(inormI(starts.get(d, const(0))), idx[d])))
            else:
                if d in starts:
                    o = inorm(sub(idx[d], starts[d]))
                    if not (wsize[d] is a.shape[d]):
                        conds += [icond(le(const(0), o)), icond(lt(o, wsize[d]))]
                    else:
                        # full-width window: the only in-bounds start is 0
                        conds.append(icond(eq(starts[d], const(0)))); o = idx[d]
                else:
                    o = idx[d]
                    if wsize[d] is not a.shape[d]:
                        conds.append(icond(lt(o, wsize[d])))
                ui[uwd[wdims.index(d)]] = o
        c = and_(*conds)
        if c is FALSE: return FALSE, None
        return c, upd.get(tuple(ui))

    sh = oshape(e); kind = okind(e)
    if comb == "add":
        def f(idx):
            binders = []; bidx = []
            for x in bext:
                if is_c(x) and x.val == 1: bidx.append(const(0)); continue
                k, bs = split_index(x)
                binders += bs; bidx.append(k)
            c, v = element(idx, bidx)
            base = a.get(idx)
            if c is FALSE: return base
            body = v if c is TRUE else ite(c, v, const(0))
            return add(base, big_sum(binders, body))
        return Arr(sh, kind, f)

    def f(idx):
        r = a.get(idx)
        # identity scatter over a symbolic batch axis:  x.at[arange, ...].set(u)
        sym = [j for j, x in enumerate(bext) if not is_c(x)]
        ranges = []
        for j, x in enumerate(bext):
            if j in sym:
                ranges.append(None)
            else: ranges.append([const(q) for q in range(int(x.val))])
        if sym:
            # solve for the batch index: indices must be the batch coordinate itself for some operand dim
            probe = [fresh("q", bext[j]) if j in sym else ranges[j][0] for j in range(len(bext))]
            sol = {}
            for jj, d in enumerate(sdo):
                s = inorm(ind.get(tuple(probe) + (const(jj),)))
                for j in sym:
                    if s is probe[j]: sol[j] = idx[d]
            for jj, d in enumerate(obd):
                sol[sbd[jj]] = idx[d]
            if any(j not in sol for j in sym): raise Unsupported("scatter set with symbolic batch")
            for j in sym: ranges[j] = [sol[j]]
        for b in itertools.product(*ranges):
            c, v = element(idx, list(b))
            for j in sym:
                c = and_(c, icond(lt(b[j], bext[j])))
            if c is FALSE: continue
            if comb == "set": nv = v
            elif comb == "mul": nv = mul(r, v)
            elif comb == "max": nv = max_(r, v)
            elif comb == "min": nv = min_(r, v)
            r = nv if c is TRUE else ite(c, nv, r)
        return r
    return Arr(sh, kind, f)


RULES["scatter-add"] = lambda e, a, i, u: _scatter(e, a, i, u, "add")
RULES["scatter_add"] = RULES["scatter-add"]
RULES["scatter"] = lambda e, a, i, u: _scatter(e, a, i, u, "set")
RULES["scatter-mul"] = lambda e, a, i, u: _scatter(e, a, i, u, "mul")
RULES["scatter_mul"] = RULES["scatter-mul"]
RULES["scatter_max"] = lambda e, a, i, u: _scatter(e, a, i, u, "max")
RULES["scatter_min"] = lambda e, a, i, u: _scatter(e, a, i, u, "min")
RULES["scatter-max"] = RULES["scatter_max"]; RULES["scatter-min"] = RULES["scatter_min"]


# ------------------------------------------------------------------ calls
# library functions with an assumed contract (the trace-time shims give them a name, see harness.shims)
def _small(ts):
    seen = set()
    for t in ts:
        for x in ir.subterms(t):
            if x.op in ("sum", "S", "ite"): return False
            seen.add(x.id)
    return len(seen) <= 80


def _det_hook(e, ins):
    """determinant: cofactor polynomial of small entries, otherwise an uninterpreted function of the entries"""
    if len(ins) != 1 or len(e.outvars) != 1: return None          # (a transformed version of it)
    A, = ins; n = A.ndim; out = e.outvars[0].aval.shape
    if [dim_T(d).id for d in out] != [d.id for d in A.shape[:-2]]: return None
    if not (is_c(A.shape[-1]) and A.shape[-1] is A.shape[-2]): return None
    k = int(A.shape[-1].val)
    if k > 3: return None

    def f(idx):
        a = [[A.get(tuple(idx) + (const(i), const(j))) for j in range(k)] for i in range(k)]
        fl = [x for r in a for x in r]
        if k < 3 or _small(fl): return cofactor(a)
        return fn("det3", *fl)
    return [Arr(A.shape[:-2], "R", f)]


def cofactor(a):
    k = len(a)
    if k == 1: return a[0][0]
    if k == 2: return sub(mul(a[0][0], a[1][1]), mul(a[0][1], a[1][0]))
    r = const(0)
    for j in range(3):
        p, q = (j + 1) % 3, (j + 2) % 3
        r = add(r, mul(a[0][j], sub(mul(a[1][p], a[2][q]), mul(a[1][q], a[2][p]))))
    return r


def _expm_hook(e, ins):
    if len(ins) != 1 or len(e.outvars) != 1: return None          # (a transformed version of it)
    A, = ins; out = e.outvars[0].aval.shape
    if [dim_T(d).id for d in out] != [d.id for d in A.shape]: return None
    if not all(is_c(d) and d.val == 3 for d in A.shape[-2:]): return None

    def f(idx):
        fl = [A.get(tuple(idx[:-2]) + (const(i), const(j))) for i in range(3) for j in range(3)]
        if not (is_c(idx[-1]) and is_c(idx[-2])): raise Unsupported("expm index")
        i, j = int(idx[-2].val), int(idx[-1].val)
        # diagonal matrix: diagonal of exponentials
        if all(fl[3 * a + b] is const(0) or not ir.poly(fl[3 * a + b]) for a in range(3) for b in range(3) if a != b):
            return ir.exp_(fl[4 * i]) if i == j else const(0)
        return fn("expm%d%d" % (idx[-2].val, idx[-1].val), *fl)
    return [Arr(A.shape, "R", f)]


LIB_HOOKS = {"verif_det": _det_hook, "verif_expm": _expm_hook}


@rule("jit", "pjit", "closed_call", "core_call", "remat", "checkpoint", "custom_vjp_call_jaxpr")
def _call(e, *ins):
    j = e.params.get("jaxpr") or e.params.get("call_jaxpr") or e.params.get("fun_jaxpr")
    hook = CTX.call_hooks.get(e.params.get("name")) or LIB_HOOKS.get(e.params.get("name"))
    if hook is not None:
        r = hook(e, ins)
        if r is not None: return r
    if hasattr(j, "jaxpr"): return eval_closed(j, list(ins))
    return eval_jaxpr(j, [], list(ins))


RULES["remat2"] = _call


@rule("custom_jvp_call", "custom_vjp_call")
def _cjvp(e, *ins):
    j = e.params.get("call_jaxpr") or e.params.get("fun_jaxpr")
    return eval_closed(j, list(ins))


@rule("cond")
def _cond(e, c, *ins):
    br = e.params["branches"]
    outs = [eval_closed(b, list(ins)) for b in br]
    res = []
    for j in range(len(e.outvars)):
        def f(idx, j=j):
            cv = c.get(())
            if c.kind == "B":
                cv = icond(cv)
                if cv is TRUE: return outs[1][j].get(idx)
                if cv is FALSE: return outs[0][j].get(idx)
                return ite(cv, outs[1][j].get(idx), outs[0][j].get(idx))
            r = outs[-1][j].get(idx)
            for k in range(len(br) - 2, -1, -1):
                k_c = icond(eq(cv, const(k)) if k else le(cv, const(0)))
                r = ite(k_c, outs[k][j].get(idx), r)
            return r
        res.append(Arr(oshape(e, j), okind(e, j), f))
    return res


def scan_split(e):
    """number of constants and of carried values, loop body"""
    P = e.params
    if "num_consts" in P: return P["num_consts"], P["num_carry"], P["jaxpr"]
    a, b, _ = (len(x) for x in P["ft_in"].unpack())
    return a, b, P["jaxpr"]


@rule("scan")
def _scan(e, *ins):
    P = e.params
    nc, nk, cj = scan_split(e)
    L = P["length"]
    consts = list(ins[:nc]); carry = list(ins[nc:nc + nk]); xs = list(ins[nc + nk:])
    if CTX.scan_hook is not None:
        r = CTX.scan_hook(e, consts, carry, xs)
        if r is not None: return r
    if not isinstance(L, int) or L > 400: raise Unsupported("scan length %s" % L)
    ys = []
    order = range(L - 1, -1, -1) if P.get("reverse") else range(L)
    for i in order:
        xi = [Arr(x.shape[1:], x.kind, (lambda idx, x=x, i=i: x.get((const(i),) + idx))) for x in xs]
        out = eval_closed(cj, consts + carry + xi)
        carry = out[:nk]; ys.append((i, out[nk:]))
    ysd = dict(ys)
    res = list(carry)
    for j in range(len(e.outvars) - nk):
        def f(idx, j=j):
            i = idx[0]
            if is_c(i): return ysd[int(i.val)][j].get(idx[1:])
            r = ysd[L - 1][j].get(idx[1:])
            for q in range(L - 2, -1, -1):
                r = ite(icond(eq(i, const(q))), ysd[q][j].get(idx[1:]), r)
            return r
        res.append(Arr(oshape(e, nk + j), okind(e, nk + j), f))
    return res


@rule("while")
def _while(e, *ins):
    P = e.params
    cn, bn = P["cond_nconsts"], P["body_nconsts"]
    cc, bc, carry = list(ins[:cn]), list(ins[cn:cn + bn]), list(ins[cn + bn:])
    for _ in range(400):
        c = eval_closed(P["cond_jaxpr"], cc + carry)[0].get(())
        c = icond(c)
        if c is FALSE: return carry
        if c is not TRUE: raise Unsupported("while with symbolic condition")
        carry = eval_closed(P["body_jaxpr"], bc + carry)
    raise Unsupported("while trip count")


@rule("random_seed", "random_bits", "random_wrap", "random_unwrap", "threefry2x32")
def _rand(e, *ins): raise Unsupported("random")


@rule("debug_callback", "debug_print")
def _dbg(e, *ins): return []


@rule("svd")
def _svd(e, a):
    """LAPACK binding: uninterpreted functions of the matrix entries (what is assumed about them is stated in the contract that uses them)"""
    if not e.params.get("compute_uv", True) or a.ndim < 2 or not all(is_c(d) and d.val == 3 for d in a.shape[-2:]): raise Unsupported("svd")

    def ent(idx): return [a.get(tuple(idx) + (const(i), const(j))) for i in range(3) for j in range(3)]

    def mat(nm):
        def f(idx):
            if not (is_c(idx[-1]) and is_c(idx[-2])): raise Unsupported("svd index")
            return fn("svd%s%d%d" % (nm, idx[-2].val, idx[-1].val), *ent(idx[:-2]))
        return Arr(a.shape, "R", f)

    def vec(idx):
        if not is_c(idx[-1]): raise Unsupported("svd index")
        return fn("svds%d" % idx[-1].val, *ent(idx[:-1]))
    return [Arr(a.shape[:-1], "R", vec), mat("u"), mat("v")]


def trace(fnc, args):
    """make_jaxpr of fnc at the given ShapeDtypeStructs"""
    return jax.make_jaxpr(fnc)(*args)


def input_arr(name, shape, kind):
    """abstract input array: element = app(name, idx)"""
    shape = tuple(shape)
    if not shape:
        v = var(name, kind)
        return Arr((), kind, lambda idx: v)
    return Arr(shape, kind, lambda idx: app(name, idx, kind))
