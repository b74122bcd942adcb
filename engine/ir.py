"""Term IR, polynomial normal form, indicator (Iverson) algebra and finite-sum algebra.

Terms are hash-consed. Numbers are exact rationals; real terms denote mathematical reals, integer terms denote
mathematical integers (machine arithmetic is treated as mathematical -- an assumption every evidence file lists).
"""
from fractions import Fraction
import hashlib, itertools, math

ZERO = 0; ONE = 1


def q_(x):
    """rationals are kept as int whenever integral (speed)"""
    if type(x) is Fraction and x.denominator == 1: return x.numerator
    return x


def qdiv(a, b): return q_(Fraction(a) / b)



class Unsupported(Exception):
    pass


class T:
    __slots__ = ("op", "args", "val", "sort", "id", "_poly", "_fv", "_z3", "_cc", "_sz")

    def __repr__(self):
        return show(self)

    # arithmetic sugar (also used by jax's dimension expressions)
    def __add__(self, o): return add(self, lift(o))
    def __radd__(self, o): return add(lift(o), self)
    def __sub__(self, o): return add(self, neg(lift(o)))
    def __rsub__(self, o): return add(lift(o), neg(self))
    def __mul__(self, o): return mul(self, lift(o))
    def __rmul__(self, o): return mul(lift(o), self)
    def __neg__(self): return neg(self)
    def __truediv__(self, o): return div(self, lift(o))
    def __floordiv__(self, o): return ifloordiv(self, lift(o))
    def __mod__(self, o): return imod(self, lift(o))
    def __pow__(self, k):
        r = const(1)
        for _ in range(int(k)):
            r = mul(r, self)
        return r
    def __divmod__(self, o): return (self // o, self % o)


_table = {}
_next = itertools.count(1)


def mk(op, args=(), val=None, sort="R"):
    key = (op, tuple(a.id for a in args), val, sort)
    t = _table.get(key)
    if t is None:
        t = T()
        t.op, t.args, t.val, t.sort = op, tuple(args), val, sort
        t.id = next(_next)
        t._poly = None; t._fv = None; t._z3 = None; t._cc = None; t._sz = None
        _table[key] = t
    return t


def const(x, sort=None):
    if isinstance(x, bool):
        return mk("c", (), x, "B")
    tp = type(x)
    if tp is int: f = x
    elif tp is Fraction: f = x.numerator if x.denominator == 1 else x
    else: f = q_(Fraction(x.item() if hasattr(x, "item") else x))
    return mk("c", (), f, sort or ("I" if f.denominator == 1 else "R"))


TRUE = const(True); FALSE = const(False)


def lift(x):
    if isinstance(x, T):
        return x
    if isinstance(x, bool):
        return const(x)
    return const(x)


def is_c(t): return t.op == "c"


def var(name, sort="R"): return mk("v", (), name, sort)


_fresh = itertools.count(1)
var_bounds = {}       # int var name -> (lo T, hi T) inclusive bounds
arr_bounds = {}       # app array name -> (lo T|None, hi T|None) inclusive bounds on elements
dim_vars = set()      # names of dimension variables (>= 1)


def fresh(prefix="i", extent=None, sort="I"):
    v = var("%s!%d" % (prefix, next(_fresh)), sort)
    if extent is not None:
        var_bounds[v.val] = (const(0), add(extent, const(-1)))
    return v


def dimvar(name):
    dim_vars.add(name)
    return var(name, "I")


def app(name, idx, sort="R"): return mk("app", tuple(idx), name, sort)


def _sort2(a, b): return "I" if a.sort == "I" and b.sort == "I" else "R"


def add(a, b):
    if is_c(a) and is_c(b): return const(a.val + b.val)
    if is_c(a) and a.val == 0: return b
    if is_c(b) and b.val == 0: return a
    if a.id > b.id: a, b = b, a
    return mk("add", (a, b), None, _sort2(a, b))


def neg(a): return mul(const(-1), a)


def sub(a, b):
    if a is b: return const(0)
    return add(a, neg(b))


def mul(a, b):
    if is_c(a) and is_c(b): return const(a.val * b.val)
    if is_c(b): a, b = b, a
    if is_c(a):
        if a.val == 0: return const(0)
        if a.val == 1: return b
        if b.op == "mul" and is_c(b.args[0]):
            return mul(const(a.val * b.args[0].val), b.args[1])
        return mk("mul", (a, b), None, "I" if (b.sort == "I" and a.val.denominator == 1) else "R")
    if a.id > b.id: a, b = b, a
    return mk("mul", (a, b), None, _sort2(a, b))


def inv(a):
    if is_c(a) and a.val != 0: return const(qdiv(1, a.val))
    return mk("inv", (a,), None, "R")


def div(a, b): return mul(a, inv(b))


def ite(c, a, b):
    if c is TRUE: return a
    if c is FALSE: return b
    if a is b: return a
    if c.op == "not": return ite(c.args[0], b, a)
    if a.sort == "B":
        return or_(and_(c, a), and_(not_(c), b))
    return mk("ite", (c, a, b), None, _sort2(a, b))


def not_(a):
    if a is TRUE: return FALSE
    if a is FALSE: return TRUE
    if a.op == "not": return a.args[0]
    return mk("not", (a,), None, "B")


def and_(*xs):
    out = []
    for x in xs:
        if x is FALSE: return FALSE
        if x is TRUE: continue
        if x.op == "and": out += list(x.args)
        else: out.append(x)
    out = sorted(set(out), key=lambda t: t.id)
    for x in out:
        if not_(x) in out: return FALSE
    if not out: return TRUE
    if len(out) == 1: return out[0]
    return mk("and", tuple(out), None, "B")


def or_(*xs):
    return not_(and_(*[not_(x) for x in xs]))


def lt(a, b):
    if a is b: return FALSE
    if is_c(a) and is_c(b): return const(bool(a.val < b.val))
    if a.sort == "I" and b.sort == "I":
        return gt0(sub(b, a))
    return gt0(sub(b, a))


def le(a, b):
    if a is b: return TRUE
    if is_c(a) and is_c(b): return const(bool(a.val <= b.val))
    return not_(gt0(sub(a, b)))


def eq(a, b):
    if a is b: return TRUE
    if a.sort == "B" or b.sort == "B":
        if is_c(a): return b if a.val else not_(b)
        if is_c(b): return a if b.val else not_(a)
        return or_(and_(a, b), and_(not_(a), not_(b)))
    if is_c(a) and is_c(b): return const(bool(a.val == b.val))
    return eq0(sub(a, b))


def gt0(a):
    """a > 0"""
    if is_c(a): return const(bool(a.val > 0))
    return mk("gt0", (a,), None, "B")


def eq0(a):
    if is_c(a): return const(bool(a.val == 0))
    return mk("eq0", (a,), None, "B")


def min_(a, b): return a if a is b else ite(le(a, b), a, b)
def max_(a, b): return a if a is b else ite(le(a, b), b, a)
def abs_(a): return ite(lt(a, const(0)), neg(a), a)


def floor_(a):
    if is_c(a): return const(math.floor(a.val))
    if a.sort == "I": return a
    return mk("floor", (a,), None, "I")


def fn(name, *args):
    return mk("fn", tuple(args), name, "R")


def sqrt_(a):
    if is_c(a):
        r = _fsqrt(a.val)
        if r is not None: return const(r)
    return mk("sqrt", (a,), None, "R")


def _fsqrt(f):
    if f < 0: return None
    n, d = f.numerator, f.denominator
    a, b = math.isqrt(n), math.isqrt(d)
    if a * a == n and b * b == d: return q_(Fraction(a, b))
    return None


def exp_(a):
    if is_c(a) and a.val == 0: return const(1)
    return mk("exp", (a,), None, "R")


def log_(a):
    if is_c(a) and a.val == 1: return const(0)
    return mk("log", (a,), None, "R")


def pow_(a, b):
    if is_c(b):
        v = b.val
        if v.denominator == 1 and abs(v) <= 64:
            k = abs(int(v))
            r = const(1)
            base = a
            while k:
                if k & 1: r = mul(r, base)
                base = mul(base, base); k >>= 1
            return r if v >= 0 else inv(r)
        if v == Fraction(1, 2): return sqrt_(a)
        if v == Fraction(-1, 2): return inv(sqrt_(a))
    return mk("pow", (a, b), None, "R")


def sum_(v, extent, body):
    if body.op == "c" and body.val == 0: return const(0)
    return mk("sum", (v, extent, body), None, body.sort)


def bmax(v, extent, body, kind="max"):
    return mk("b" + kind, (v, extent, body), None, body.sort)


def tab(arr_id, idx, sort):
    return mk("tab", tuple(idx), arr_id, sort)


BINDERS = ("sum", "bmax", "bmin")


def fv(t):
    """ids of free variables"""
    r = t._fv
    if r is not None: return r
    stack = [t]
    while stack:
        x = stack[-1]
        if x._fv is not None:
            stack.pop(); continue
        pend = [a for a in x.args if a._fv is None]
        if pend:
            stack.extend(pend); continue
        if x.op == "v":
            x._fv = frozenset((x.val,))
        elif x.op in BINDERS:
            x._fv = x.args[1]._fv | (x.args[2]._fv - {x.args[0].val})
        elif x.op == "S":
            s = frozenset()
            for a in x.args: s = s | a._fv
            x._fv = s - frozenset(x.val)
        else:
            s = frozenset()
            for a in x.args: s = s | a._fv
            x._fv = s
        stack.pop()
    return t._fv


def rebuild(t, args):
    """rebuild node t with new args through the smart constructors"""
    op = t.op
    if op == "add": return add(*args)
    if op == "mul": return mul(*args)
    if op == "inv": return inv(*args)
    if op == "ite": return ite(*args)
    if op == "not": return not_(*args)
    if op == "and": return and_(*args)
    if op == "gt0": return gt0(*args)
    if op == "eq0": return eq0(*args)
    if op == "floor": return floor_(*args)
    if op == "sqrt": return sqrt_(*args)
    if op == "exp": return exp_(*args)
    if op == "log": return log_(*args)
    if op == "pow": return pow_(*args)
    if op == "idiv": return idiv(*args)
    if op == "irem": return irem(*args)
    if op == "ind":
        c = args[0]
        if c is TRUE: return const(1)
        if c is FALSE: return const(0)
        return mk("ind", (c,), None, "I")
    if op == "sum":
        return sum_(*args)
    if op in ("bmax", "bmin"):
        return mk(op, args, None, t.sort)
    if op == "app":
        return mk("app", tuple(inorm(a) if a.sort == "I" else a for a in args), t.val, t.sort)
    return mk(op, args, t.val, t.sort)


def mapterm(t, leaf, memo):
    """bottom-up rewriting; leaf(x) returns replacement or None; iterative."""
    stack = [t]
    while stack:
        x = stack[-1]
        if x.id in memo:
            stack.pop(); continue
        r = leaf(x)
        if r is not None:
            memo[x.id] = r; stack.pop(); continue
        if not x.args:
            memo[x.id] = x; stack.pop(); continue
        pend = [a for a in x.args if a.id not in memo]
        if pend:
            stack.extend(pend); continue
        na = tuple(memo[a.id] for a in x.args)
        memo[x.id] = x if na == x.args else rebuild(x, na)
        stack.pop()
    return memo[t.id]


def subst(t, mp):
    """mp: var name -> T. Bound variables are unique so capture cannot happen."""
    names = frozenset(mp)
    if not (fv(t) & names): return t

    def leaf(x):
        if not (fv(x) & names): return x
        if x.op == "v": return mp.get(x.val, x)
        return None
    return mapterm(t, leaf, {})


def subterms(t, stop=()):
    seen = set(); out = []
    stack = [t]
    while stack:
        x = stack.pop()
        if x.id in seen: continue
        seen.add(x.id); out.append(x)
        if x.op in stop: continue
        stack.extend(x.args)
    return out


# ---------------------------------------------------------------------------------------------- show
def show(t, d=0):
    if d > 30: return "..."
    o = t.op
    s = lambda x: show(x, d + 1)
    if o == "c": return str(t.val)
    if o == "v": return str(t.val)
    if o == "app": return "%s[%s]" % (t.val, ",".join(map(s, t.args)))
    if o == "add": return "(%s + %s)" % tuple(map(s, t.args))
    if o == "mul": return "%s*%s" % tuple(map(s, t.args))
    if o == "inv": return "1/(%s)" % s(t.args[0])
    if o == "ite": return "ite(%s, %s, %s)" % tuple(map(s, t.args))
    if o == "gt0": return "(%s > 0)" % s(t.args[0])
    if o == "eq0": return "(%s = 0)" % s(t.args[0])
    if o == "and": return "(" + " & ".join(map(s, t.args)) + ")"
    if o == "not": return "!" + s(t.args[0])
    if o == "fn": return "%s(%s)" % (t.val, ",".join(map(s, t.args)))
    if o == "sum": return "SUM{%s<%s}(%s)" % tuple(map(s, t.args))
    if o == "S": return "S{%s<%s}(%s)" % (",".join(t.val), ",".join(map(s, t.args[:-1])), s(t.args[-1]))
    return "%s(%s)" % (o if t.val is None else "%s:%s" % (o, t.val), ",".join(map(s, t.args)))


# ---------------------------------------------------------------------------------------------- polynomials
# mono: tuple of (atom T, exponent) sorted by atom id ; poly: dict mono -> Fraction
MAXTERMS = 60000


class TooBig(Unsupported):
    pass


def p_const(c): return {(): q_(c)} if c else {}


def p_atom(a, e=1): return {((a, e),): ONE}


def p_add(p, q, k=ONE):
    if len(q) > len(p) and k == 1: p, q = q, p
    r = dict(p)
    for m, c in q.items():
        v = r.get(m, ZERO) + c * k
        if v: r[m] = v
        else: r.pop(m, None)
    return r


def p_scale(p, k):
    if k == 1: return p
    if not k: return {}
    return {m: q_(c * k) for m, c in p.items()}


def mono_mul(m1, m2):
    """returns poly (because of sqrt / idempotent / trig reductions) or (mono) fast path"""
    d = {}
    for a, e in m1: d[a] = e
    special = False
    for a, e in m2:
        if a in d:
            d[a] = d[a] + e
        else: d[a] = e
    return d


def mono_norm(d):
    """dict atom->exp  ->  poly"""
    extra = None
    items = []
    expacc = None
    for a, e in d.items():
        if e == 0: continue
        op = a.op
        if op == "ind":
            if e > 0: e = 1
        elif op == "sqrt" and (e >= 2 or e <= -2):
            k = int(e / 2) if e > 0 else -int(-e / 2)
            base = poly(a.args[0])
            q = p_pow(base, k)
            extra = q if extra is None else p_mul(extra, q)
            e = e - 2 * k
            if e == 0: continue
        elif op == "cbrt3" and (e >= 3 or e <= -3):
            k = int(e / 3) if e > 0 else -int(-e / 3)
            q = p_pow(poly(a.args[0]), k)
            extra = q if extra is None else p_mul(extra, q)
            e = e - 3 * k
            if e == 0: continue
        elif a.val in pow_rules and e >= 2 and op in ("app", "v"):
            rhs = pow_rule(a)
            if rhs is not None:
                k = int(e) // 2
                q = p_pow(poly(rhs), k)
                extra = q if extra is None else p_mul(extra, q)
                e = e - 2 * k
                if e == 0: continue
        elif op == "fn" and a.val == "sin" and e >= 2:
            k = int(e) // 2
            c = mk("fn", a.args, "cos", "R")
            q = p_pow({(): ONE, ((c, 2),): -ONE}, k)
            extra = q if extra is None else p_mul(extra, q)
            e = e - 2 * k
            if e == 0: continue
        items.append((a, e))
    items.sort(key=lambda x: x[0].id)
    # mutually exclusive / implied indicators are left to the context
    base = {tuple(items): ONE}
    return base if extra is None else p_mul(base, extra)


SPECIAL = ("sqrt", "ind", "fn", "cbrt3")
pow_rules = {}     # array name -> [(pattern atom, pattern variables, rhs)]: assumed identities x^2 = rhs (unit vectors)


def pow_rule(a):
    for pat, pvs, rhs in pow_rules.get(a.val, ()):
        env = {}
        if match(pat, a, pvs, env) and len(env) == len(pvs): return subst(rhs, env)
    return None


def p_mul(p, q):
    if not p or not q: return {}
    if len(p) == 1 and () in p: return p_scale(q, p[()])
    if len(q) == 1 and () in q: return p_scale(p, q[()])
    if len(p) * len(q) > 20 * MAXTERMS: raise TooBig("poly product %d x %d" % (len(p), len(q)))
    r = {}
    for m1, c1 in p.items():
        for m2, c2 in q.items():
            c = c1 * c2
            if not m1: m, slow = m2, None
            elif not m2: m, slow = m1, None
            else:
                d = dict(m1); slow = False
                for a, e in m2:
                    if a in d:
                        ne = d[a] + e
                        if ne == 0: del d[a]
                        else: d[a] = ne
                        if a.op in SPECIAL or a.val in pow_rules: slow = True
                    else: d[a] = e
                if slow:
                    for mm, cc in mono_norm(d).items():
                        v = r.get(mm, ZERO) + cc * c
                        if v: r[mm] = v
                        else: r.pop(mm, None)
                    continue
                m = tuple(sorted(d.items(), key=lambda x: x[0].id))
            v = r.get(m, ZERO) + c
            if v: r[m] = v
            else: r.pop(m, None)
    if len(r) > MAXTERMS: raise TooBig("poly with %d terms" % len(r))
    return r


def p_pow(p, k):
    if k < 0: return p_pow(p_inv(p), -k)
    r = p_const(1)
    b = p
    while k:
        if k & 1: r = p_mul(r, b)
        k >>= 1
        if k: b = p_mul(b, b)
    return r


def p_inv(p):
    if not p: return p_atom(mk("den", (const(0),), None, "R"), -1)
    if len(p) == 1:
        (m, c), = p.items()
        ok = all(a.op != "ind" for a, e in m)
        if ok:
            return mono_norm_c({a: -e for a, e in m}, qdiv(1, c))
    # pull out common content: constant and common monomial factor
    c0, m0, prim = p_primitive(p)
    ex = expand_dens(prim)
    if ex is not None:
        return p_mul(p_mul(p_const(qdiv(1, c0)), {tuple((a, -e) for a, e in m0): ONE}), p_inv(ex))
    d = mk("den", (p_term(prim),), None, "R")
    return p_mul(p_mul(p_const(qdiv(1, c0)), {tuple((a, -e) for a, e in m0): ONE}), p_atom(d, -1))


def expand_dens(p):
    """p with positive powers of denominators multiplied out (None when there is nothing to do or it gets large)"""
    out, any_ = {}, False
    for m, c in p.items():
        t = {tuple(x for x in m if x[0].op != "den" or x[1] < 0): c}
        for a, e in m:
            if a.op == "den" and e > 0 and e == int(e):
                any_ = True
                if e > 2 or len(t) > 60: return None
                t = p_mul(t, p_pow(poly(a.args[0]), int(e)))
        out = p_add(out, t)
        if len(out) > 60: return None
    return out if any_ else None


def mono_norm_c(d, c):
    return p_scale(mono_norm(d), c)


def p_primitive(p):
    """p = c * mono * prim with prim's leading coefficient 1 (by canonical order)"""
    common = None
    for m in p:
        d = dict(m)
        if common is None: common = dict(d)
        else:
            for a in list(common):
                if a in d:
                    x, y = common[a], d[a]
                    # minimum exponent
                    common[a] = min(x, y)
                else:
                    if common[a] > 0: del common[a]
            for a, e in d.items():
                if e < 0 and a not in common:
                    common[a] = e
    common = {a: e for a, e in (common or {}).items() if e != 0 and a.op != "ind"}
    # negative exponents: need minimum across all (0 where absent)
    for a in list(common):
        mn = min(dict(m).get(a, 0) for m in p)
        if mn == 0: del common[a]
        else: common[a] = mn
    m0 = tuple(sorted(common.items(), key=lambda x: x[0].id))
    q = p
    if m0:
        q = p_mul(p, {tuple((a, -e) for a, e in m0): ONE})
    lead = min(q, key=mono_key)
    c = q[lead]
    return c, m0, p_scale(q, qdiv(1, c))


def mono_key(m): return tuple((a.id, e) for a, e in m)


def p_term(p):
    """canonical term of a polynomial"""
    if not p: return const(0)
    key = frozenset(p.items())
    r = _pt_memo.get(key)
    if r is None: r = _pt_memo[key] = _p_term(p)
    return r


_pt_memo = {}


def _p_term(p):
    ms = sorted(p.items(), key=lambda mc: mono_key(mc[0]))
    r = const(0)
    acc = []
    for m, c in ms:
        acc.append(_mono_term(m, c))
    if not acc: return const(0)
    # build a left fold without id-sorting problems (add sorts pairs; deterministic)
    r = acc[0]
    for x in acc[1:]:
        r = add(r, x)
    r._poly = p if r._poly is None else r._poly
    return r


def _mono_term(m, c):
    t = const(1)
    for a, e in m:
        base = a.args[0] if a.op == "den" else a
        if a.op == "exp" and (e != int(e) or e < 0):
            f = exp_(mul(const(e), a.args[0]))
        elif e == int(e):
            f = const(1)
            for _ in range(abs(int(e))): f = mul(f, base)
            if e < 0: f = inv(f)
        else:
            f = pow_(base, const(e))
        t = mul(t, f)
    return mul(const(c), t)


def atoms_of(p):
    s = {}
    for m in p:
        for a, e in m: s[a.id] = a
    return list(s.values())


def poly(t):
    """polynomial normal form of a numeric term (memoised)."""
    if t._poly is not None: return t._poly
    # iterative post-order to avoid recursion limits
    stack = [t]
    while stack:
        x = stack[-1]
        if x._poly is not None:
            stack.pop(); continue
        deps = _poly_deps(x)
        pend = [a for a in deps if a._poly is None]
        if pend:
            stack.extend(pend); continue
        x._poly = _poly1(x)
        stack.pop()
    return t._poly


def _poly_deps(x):
    if x.op in ("add", "mul", "inv", "sqrt", "exp", "log", "floor", "pow", "idiv", "irem"): return x.args
    if x.op == "fn": return x.args
    if x.op == "ite": return x.args[1:]
    if x.op == "sum": return (x.args[2],)
    return ()


def _poly1(x):
    op = x.op
    if op == "c": return p_const(x.val)
    if op == "v": return p_atom(x)
    if op == "app": return p_atom(x)
    if op == "add": return p_add(x.args[0]._poly, x.args[1]._poly)
    if op == "mul":
        r = p_mul(x.args[0]._poly, x.args[1]._poly)
        if len(r) <= 60:
            e = expand_dens(r)
            if e is not None: return e
        return r
    if op == "inv": return p_inv(x.args[0]._poly)
    if op == "ite":
        c = ind_poly(x.args[0])
        a, b = x.args[1]._poly, x.args[2]._poly
        return p_add(b, p_mul(c, p_add(a, b, -ONE)))
    if op == "ind": return ind_poly(x.args[0])
    if op == "den":
        return poly(x.args[0])
    if op == "sqrt":
        r = sqrt_poly(x.args[0]._poly)
        if raw_sos(x.args[0]):
            for m in r:
                for a, e in m:
                    if a.op == "sqrt": sos_atoms.add(a.id)
        return r
    if op == "exp": return exp_poly(x.args[0]._poly)
    if op == "log": return log_poly(x.args[0]._poly)
    if op == "pow":
        a, b = x.args
        if is_c(b):
            # real power with constant exponent on a positive base
            return exp_poly(p_scale(log_poly(a._poly), b.val))
        return exp_poly(p_mul(b._poly, log_poly(a._poly)))
    if op == "floor":
        return floor_poly(x.args[0]._poly)
    if op == "idiv" or op == "irem":
        r = _divrem(x.args[0], x.args[1])
        if r is not None:
            return poly(r[0] if op == "idiv" else r[1])
        return p_atom(mk(op, (p_term(x.args[0]._poly), p_term(x.args[1]._poly)), None, "I"))
    if op == "fn": return fn_poly(x)
    if op == "sum": return sum_poly([(x.args[0], x.args[1])], x.args[2]._poly)
    if op == "S" or op == "tab": return p_atom(x)
    if op in ("bmax", "bmin"): return p_atom(canon_bound(x))
    if x.sort == "B":
        return ind_poly(x)
    if op == "cbrt3": return p_atom(x)
    raise Unsupported("poly of op " + op)


_cb_memo = {}


def canon_bound(x):
    """normal form of the body, canonical bound variable (alpha equivalence)"""
    r = _cb_memo.get(x.id)
    if r is not None: return r
    v, ext, body = x.args
    b = p_term(poly(body))
    depth = 1 + max([q.args[0].val.count("'") for q in subterms(b) if q.op in ("bmax", "bmin")], default=0)
    w = var("b!%d%s" % (ext.id, "'" * depth), "I")
    r = mk(x.op, (w, ext, p_term(poly(subst(b, {v.val: w})))), None, x.sort)
    _cb_memo[x.id] = _cb_memo[r.id] = r
    return r


sos_atoms = set()     # sqrt atoms whose argument is, as written, a sum of squares (normal forms modulo x^2 rules hide that)
_sos_memo = {}


def raw_sos(t):
    """t is syntactically a sum of squares / nonnegative constants"""
    r = _sos_memo.get(t.id)
    if r is None: r = _sos_memo[t.id] = _raw_sos(t)
    return r


def _raw_sos(t):
    if t.op == "c": return t.val >= 0
    if t.op == "add": return raw_sos(t.args[0]) and raw_sos(t.args[1])
    if t.op == "ite" and t.sort != "B": return raw_sos(t.args[1]) and raw_sos(t.args[2])
    if t.op == "sqrt" or t.op == "exp": return True
    if t.op == "mul":
        cnt = {}; st = [t]
        while st:
            x = st.pop()
            if x.op == "mul": st.extend(x.args)
            else: cnt[x] = cnt.get(x, 0) + 1
        return all(n % 2 == 0 or raw_sos(x) for x, n in cnt.items())
    return False


def fn_poly(x):
    args = tuple(p_term(a._poly) for a in x.args)
    if x.val == "cbrt":
        p = x.args[0]._poly
        if not p: return {}
        c, m0, prim = p_primitive(p)
        # cbrt is odd and multiplicative on the reals
        out = p_const(1)
        base = {m0: c} if m0 or True else None
        q = p_mul(p_scale(p_mul({m0: ONE}, prim), c), p_const(1))
        a = mk("cbrt3", (p_term(q),), None, "R")
        return p_atom(a)
    if x.val in ("sin", "cos") and args[0].op != "c":
        # canonical sign of the argument
        p = x.args[0]._poly
        lead = min(p, key=mono_key)
        if p[lead] < 0:
            a = mk("fn", (p_term(p_scale(p, -ONE)),), x.val, "R")
            return p_atom(a) if x.val == "cos" else {((a, 1),): -ONE}
    if x.val in ("sin", "cos") and args[0].op == "c" and args[0].val == 0:
        return p_const(0 if x.val == "sin" else 1)
    return p_atom(mk("fn", args, x.val, "R"))


def floor_poly(p):
    ip = {}; rp = {}
    for m, c in p.items():
        if c.denominator == 1 and all(a.sort == "I" and e == int(e) and e > 0 for a, e in m):
            ip[m] = c
        else:
            rp[m] = c
    # fractional part of an integer monomial's coefficient stays inside
    if not rp: return ip
    if set(rp) == {()}:
        return p_add(ip, p_const(math.floor(rp[()])))
    # constant: keep fractional part in [0,1)
    if () in rp:
        k = math.floor(rp[()])
        if k:
            ip = p_add(ip, p_const(k)); rp = p_add(rp, p_const(-k))
    if () in ip:
        # move the integer constant out is canonical
        pass
    a = mk("floor", (p_term(rp),), None, "I")
    return p_add(ip, p_atom(a))


def sqrt_poly(p):
    if not p: return {}
    if set(p) == {()}:
        r = _fsqrt(p[()])
        if r is not None: return p_const(r)
    c, m0, prim = p_primitive(p)
    # only pull even powers of atoms that appear squared would need |.|; keep inside, except constant content
    q = p_mul({m0: ONE}, prim) if m0 else prim
    if c < 0:
        c = -c; q = p_scale(q, -ONE)
    r = _fsqrt(c)
    out = p_const(1)
    if r is not None: out = p_const(r)
    else:
        # squarefree part of the rational
        n, d = c.numerator, c.denominator
        k = n * d
        s, f = 1, 2
        while f * f <= k and f < 1000:
            while k % (f * f) == 0:
                k //= f * f; s *= f
            f += 1
        out = p_scale(p_atom(mk("sqrt", (const(k),), None, "R")), Fraction(s, d))
    if set(q) == {()} and q[()] == 1: return out
    # perfect square exp atoms
    if len(q) == 1:
        (m, cc), = q.items()
        keep = []; outm = {}
        for a, e in m:
            if a.op == "exp" or a.op in ("pos",):
                outm[a] = Fraction(e) / 2
            elif a.op == "sqrt" and False:
                pass
            else: keep.append((a, e))
        if outm:
            out = p_mul(out, mono_norm(outm))
            if not keep: return out
            q = {tuple(keep): cc}
    return p_mul(out, p_atom(mk("sqrt", (p_term(q),), None, "R")))


positive = set()   # ids of atoms known positive (declared input symbols): lets exp/log/pow cancel


def exp_poly(p):
    out = p_const(1)
    d = {}
    c0 = None
    for m, c in p.items():
        if len(m) == 1 and m[0][0].op == "log" and m[0][1] == 1:
            b = m[0][0].args[0]
            # exp(c*log b) = b^c
            if c.denominator == 1:
                out = p_mul(out, p_pow(poly(b), int(c)))
            else:
                out = p_mul(out, _frac_pow(b, c))
            continue
        t = _mono_term(m, ONE)
        a = mk("exp", (t,), None, "R")
        d[a] = d.get(a, ZERO) + c
    if d:
        d = {a: (int(e) if e.denominator == 1 else e) for a, e in d.items()}
        out = p_mul(out, mono_norm(d))
    return out


def _frac_pow(b, c):
    k = math.floor(c); f = c - k
    out = p_pow(poly(b), k) if k else p_const(1)
    if f == Fraction(1, 2): return p_mul(out, sqrt_poly(poly(b)))
    lg = mk("log", (b,), None, "R")
    a = mk("exp", (lg,), None, "R")
    return p_mul(out, {((a, f),): ONE})


def log_poly(p):
    """log of a product splits only over factors known positive (exp/sqrt atoms, declared-positive symbols)"""
    if not p: return p_atom(mk("log", (const(0),), None, "R"))
    c, m0, prim = p_primitive(p)
    out = {}
    keep = {}
    for a, e in m0:
        if a.op == "exp":
            out = p_add(out, p_scale(poly(a.args[0]), Fraction(e)))
        elif a.op == "sqrt" and is_positive(a.args[0]):
            out = p_add(out, p_scale(log_poly(poly(a.args[0])), Fraction(e) / 2))
        elif a.op == "den" and is_positive(a.args[0]):
            out = p_add(out, p_scale(log_poly(poly(a.args[0])), Fraction(e)))
        elif a.op != "den" and is_positive(a):
            out = p_add(out, p_scale(p_atom(mk("log", (a,), None, "R")), Fraction(e)))
        else:
            keep[a] = e
    if keep:
        prim = p_mul(prim, {tuple(sorted(keep.items(), key=lambda x: x[0].id)): ONE})
    if c < 0:
        c = -c; prim = p_scale(prim, -ONE)
    if c != 1: out = p_add(out, _log_rat(c))
    if not (set(prim) == {()} and prim[()] == 1):
        out = p_add(out, p_atom(mk("log", (p_term(prim),), None, "R")))
    return out


pos_arrays = set()     # names of scalar symbols / arrays whose every element is assumed > 0
nonneg_arrays = set()  # ... assumed >= 0
real_bounds = {}       # name -> (lower, strict, upper, strict): constant bounds of a real input


def _lower(t):
    """constant lower bound of a sum of constants, bounded symbols and syntactically nonnegative terms: (value, strict) or None"""
    lo, st = ZERO, False
    for a in (t.args if t.op == "add" else (t,)):
        c, x = ONE, a
        if a.op == "mul" and is_c(a.args[0]) and len(a.args) == 2: c, x = Fraction(a.args[0].val), a.args[1]
        if x.op == "c": lo += c * Fraction(x.val); continue
        if c > 0 and is_positive(x, False): st = True; continue
        if c > 0 and is_nonneg(x): continue
        b = real_bounds.get(x.val) if x.op in ("v", "app") else None
        if b is None: return None
        v, s = (b[0], b[1]) if c > 0 else (b[2], b[3])
        if v is None: return None
        lo += c * v; st = st or s
    return lo, st


def is_nonneg(t):
    if t.op == "c": return t.val >= 0
    if t.op in ("v", "app") and t.val in nonneg_arrays: return True
    if t.op in ("add", "mul") and all(is_nonneg(a) for a in t.args): return True
    if t.op in ("inv", "sqrt", "den"): return is_nonneg(t.args[0])
    if t.op == "ite":
        c, a, b = t.args
        na, nb = is_nonneg(a), is_nonneg(b)
        if na and nb or (na or nb) and (c is le(b, a) or c is lt(b, a)): return True
    return is_positive(t)


def is_positive(t, deep=True):
    """syntactic positivity from declared-positive symbols"""
    if t.op == "c": return t.val > 0
    if t.op in ("v", "app"): return t.val in pos_arrays or (t.op == "v" and t.val in dim_vars)
    if t.op == "exp": return True
    if t.op == "add":
        if any(is_positive(a) for a in t.args) and all(is_nonneg(a) for a in t.args): return True
        b = _lower(t) if deep and real_bounds else None
        return b is not None and (b[0] > 0 or (b[0] == 0 and b[1]))
    if t.op == "mul": return all(is_positive(a) for a in t.args)
    if t.op in ("inv", "sqrt", "den"): return is_positive(t.args[0])
    if t.op == "ite":
        c, a, b = t.args
        pa, pb = is_positive(a), is_positive(b)
        if pa and pb: return True
        # maximum of a term and a positive term
        return (pa or pb) and (c is le(b, a) or c is lt(b, a))
    return False


def _log_rat(c):
    out = {}
    for v, s in ((c.numerator, 1), (c.denominator, -1)):
        f = 2
        while v > 1 and f < 2000:
            while v % f == 0:
                out = p_add(out, p_atom(mk("log", (const(f),), None, "R")), Fraction(s)); v //= f
            f += 1
        if v > 1: out = p_add(out, p_atom(mk("log", (const(v),), None, "R")), Fraction(s))
    return out


# ---------------------------------------------------------------------------------------------- conditions
def canon_cond(c):
    """canonical boolean term"""
    if c._cc is not None: return c._cc
    op = c.op
    if op == "c": r = c
    elif op == "not":
        x = canon_cond(c.args[0])
        r = _neg_cond(x)
    elif op == "and":
        r = and_(*[canon_cond(a) for a in c.args])
    elif op == "gt0":
        r = _canon_gt0(poly(c.args[0]))
    elif op == "eq0":
        p = poly(c.args[0])
        if not p: r = TRUE
        elif set(p) == {()} or _inf_sign(p): r = FALSE
        else:
            k, m0, prim = p_primitive(p)
            if m0:
                prim = p_mul({m0: ONE}, prim)
            r = mk("eq0", (p_term(prim),), None, "B")
    elif op == "v" or op == "app" or op == "tab" or op == "fn": r = c
    else: raise Unsupported("cond " + op)
    c._cc = r
    r._cc = r
    return r


def is_int_poly(p):
    return all(c.denominator == 1 and all(a.sort == "I" and e == int(e) and e > 0 for a, e in m) for m, c in p.items())


def _content(p):
    g = 0; l = 1
    for c in p.values():
        g = math.gcd(g, c.numerator); l = l * c.denominator // math.gcd(l, c.denominator)
    return q_(Fraction(g, l))


def _inf_sign(p):
    """sign of a polynomial whose only unbounded term is a multiple of +infinity (every other symbol is finite), else 0"""
    u = 0
    for m, c in p.items():
        if any(a.op == "v" and a.val == "PINF" for a, e in m):
            if len(m) != 1 or m[0][1] != 1: return 0
            u = 1 if c > 0 else -1
        elif any("PINF" in fv(a) for a, e in m): return 0
    return u


def _canon_gt0(p):
    if not p: return FALSE
    if set(p) == {()}: return const(bool(p[()] > 0))
    u = _inf_sign(p)
    if u: return const(u > 0)
    if is_int_poly(p):
        # P > 0  over ints: with P = g*Q + c ->  tighten
        q = {m: c for m, c in p.items() if m}
        g = _content(q)
        c0 = p.get((), ZERO)
        # g*Q + c0 > 0  <=> g*Q + c0 >= 1 <=> Q >= (1-c0)/g <=> Q >= ceil((1-c0)/g) <=> Q - ceil(..) + 1 > 0
        k = math.ceil(qdiv(1 - c0, g))
        p = p_add(p_scale(q, qdiv(1, g)), p_const(1 - k))
    else:
        p = p_scale(p, qdiv(1, _content(p)))
    return mk("gt0", (p_term(p),), None, "B")


def _neg_cond(x):
    if x is TRUE: return FALSE
    if x is FALSE: return TRUE
    if x.op == "gt0":
        p = poly(x.args[0])
        if is_int_poly(p):
            return _canon_gt0(p_add(p_scale(p, -ONE), p_const(1)))
    return not_(x)


def ind_poly(c):
    c = canon_cond(c)
    return _ind(c)


def _ind(c):
    if c is TRUE: return p_const(1)
    if c is FALSE: return {}
    if c.op == "not": return p_add(p_const(1), _ind(c.args[0]), -ONE)
    if c.op == "and":
        r = p_const(1)
        for a in c.args: r = p_mul(r, _ind(a))
        return r
    if c.op == "gt0":
        # integer canonical orientation: keep the one with smaller id; other = 1 - it
        p = poly(c.args[0])
        if is_int_poly(p):
            n = _neg_cond(c)
            if n.op == "gt0" and n.id < c.id:
                return p_add(p_const(1), p_atom(mk("ind", (n,), None, "I")), -ONE)
    return p_atom(mk("ind", (c,), None, "I"))


# ---------------------------------------------------------------------------------------------- integer index algebra
def bounds_of_atom(a):
    """(lo,hi) inclusive T bounds for an integer atom, None if unknown"""
    if a.op == "v":
        if a.val in var_bounds: return var_bounds[a.val]
        if a.val in dim_vars: return (const(1), None)
    if a.op == "app" and a.val in arr_bounds: return arr_bounds[a.val]
    if a.op == "ind": return (const(0), const(1))
    if a.op == "tab":
        vals = TABLES[a.val]
        mn, mx = vals.min(), vals.max()
        return (const(Fraction(str(mn.item())) if not isinstance(mn.item(), int) else int(mn)), const(int(mx)) if isinstance(mx.item(), int) else const(Fraction(str(mx.item()))))
    if a.op == "irem":
        d = a.args[1]
        if prove_nonneg(p_add(poly(d), p_const(-1))) and prove_nonneg(poly(a.args[0])):
            return (const(0), add(d, const(-1)))
    if a.op == "idiv":
        if prove_nonneg(p_add(poly(a.args[1]), p_const(-1))) and prove_nonneg(poly(a.args[0])):
            return (const(0), None)
    return (None, None)


_pnn_memo = {}
TABLES = {}


def prove_nonneg(p, depth=0):
    """sound, incomplete: p >= 0 for all values of the integer atoms within their registered bounds"""
    if not p: return True
    if set(p) == {()}: return p[()] >= 0
    key = tuple(sorted((mono_key(m), c) for m, c in p.items()))
    if key in _pnn_memo: return _pnn_memo[key]
    _pnn_memo[key] = False
    r = _pnn(p, depth)
    _pnn_memo[key] = r
    return r


def _pnn(p, depth):
    if depth > 8: return False
    ats = atoms_of(p)
    if any(a.sort != "I" for a in ats): return False
    if any(e != int(e) or e < 0 for m in p for a, e in m): return False
    # non-dimension atoms first
    cand = [a for a in ats if not (a.op == "v" and a.val in dim_vars)]
    cand.sort(key=lambda a: -a.id)
    for a in cand:
        lo, hi = bounds_of_atom(a)
        if lo is None and hi is None: continue
        A = {}; B = {}; ok = True
        for m, c in p.items():
            d = dict(m)
            e = d.pop(a, 0)
            if e == 0: B[m] = c
            elif e == 1: A[tuple(x for x in m if x[0] is not a)] = c
            else: ok = False
        if not ok: continue
        if any(a.val in fv(x) if a.op == "v" else False for x in atoms_of(A) + atoms_of(B)): continue
        if lo is not None and prove_nonneg(A, depth + 1):
            q = p_add(B, p_mul(A, poly(lo)))
            if prove_nonneg(q, depth + 1): return True
        if hi is not None and prove_nonneg(p_scale(A, -ONE), depth + 1):
            q = p_add(B, p_mul(A, poly(hi)))
            if prove_nonneg(q, depth + 1): return True
    dims = [a for a in ats if a.op == "v" and a.val in dim_vars]
    if len(dims) == len(ats):
        # substitute d = 1 + d', d' >= 0
        q = p
        for a in dims:
            r = {}
            for m, c in q.items():
                d = dict(m); e = d.pop(a, 0)
                rest = tuple(x for x in m if x[0] is not a)
                r = p_add(r, p_scale(p_mul({rest: ONE}, p_pow({((a, 1),): ONE, (): ONE}, int(e))), c))
            q = r
        return all(c >= 0 for c in q.values())
    return False


def int_decide(c):
    """decide a canonical integer condition from registered bounds; True/False/None"""
    if c is TRUE: return True
    if c is FALSE: return False
    if c.op == "not":
        r = int_decide(c.args[0])
        return None if r is None else (not r)
    if c.op == "and":
        rs = [int_decide(a) for a in c.args]
        if any(r is False for r in rs): return False
        if all(r is True for r in rs): return True
        return None
    if c.op == "gt0":
        p = poly(c.args[0])
        if not is_int_poly(p): return None
        if prove_nonneg(p_add(p, p_const(-1))): return True
        if prove_nonneg(p_scale(p, -ONE)): return False
        return None
    if c.op == "eq0":
        p = poly(c.args[0])
        if not is_int_poly(p): return None
        if prove_nonneg(p_add(p, p_const(-1))) or prove_nonneg(p_add(p_scale(p, -ONE), p_const(-1))): return False
        return None
    return None


_in_memo = {}
_ic_memo = {}


def icond(c):
    """simplify a condition when integer-decidable"""
    if c.op == "c": return c
    r = _ic_memo.get(c.id)
    if r is None: r = _ic_memo[c.id] = _icond(c)
    return r


def forget_normal_forms():
    """normal forms cached before a rewrite rule was declared are recomputed"""
    for x in _table.values(): x._poly = None; x._cc = None
    for d in (_snn_memo, _ic_memo, _pnn_memo, _pt_memo, _sums): d.clear()


def reset():
    """forget everything that depends on declarations of a previous contract"""
    for d in (_snn_memo, _table, _in_memo, _ic_memo, _pnn_memo, arr_bounds, var_bounds, _pt_memo, _sums): d.clear()
    sum_rules.clear(); pos_arrays.clear(); nonneg_arrays.clear(); real_bounds.clear(); dim_vars.clear(); pow_rules.clear(); sos_atoms.clear(); _sos_memo.clear()
    for x in (TRUE, FALSE):
        _table[("c", (), x.val, "B")] = x
        x._poly = None; x._cc = None


def _icond(c):
    r = _struct_decide(c)
    if r is not None: return r
    try:
        cc = canon_cond(c)
    except Unsupported:
        return c
    r = int_decide(cc)
    if r is True: return TRUE
    if r is False: return FALSE
    return c


_snn_memo = {}


def struct_nonneg(x, d=0):
    """integer term that is >= 0 by structure: clips, products, quotients and sums of such terms"""
    r = _snn_memo.get(x.id)
    if r is not None: return r
    if d > 40: return False
    op = x.op
    if op == "c": r = x.val >= 0
    elif op == "ite":
        c, a, b = x.args
        r = (struct_nonneg(a, d + 1) or _implies_nonneg(c, a)) and (struct_nonneg(b, d + 1) or _implies_nonneg(not_(c), b))
    elif op in ("add", "mul"):
        r = all(struct_nonneg(a, d + 1) for a in x.args)
        if not r and op == "add":
            # a - 1 with a >= 1
            try: r = prove_nonneg(poly(x)) if len(subterms(x)) < 60 else False
            except Unsupported: r = False
    elif op in ("idiv", "irem"): r = all(struct_nonneg(a, d + 1) for a in x.args)
    elif op in ("v", "app", "ind"):
        try: r = bool(prove_nonneg(poly(x)))
        except Unsupported: r = False
    else: r = False
    _snn_memo[x.id] = bool(r)
    return bool(r)


def _implies_nonneg(c, a):
    """does the condition itself say a >= 0"""
    if c.op == "and": return any(_implies_nonneg(x, a) for x in c.args)
    try: cc = canon_cond(c)
    except Unsupported: return False
    for g in (le(const(0), a), lt(const(0), a)):
        try:
            if canon_cond(g) is cc: return True
        except Unsupported: return False
    return False


def _struct_decide(c):
    """0 <= x or x < 0 for a structurally nonnegative x"""
    neg_, y = False, c
    if y.op == "not": neg_, y = True, y.args[0]
    if y.op != "gt0": return None
    a = y.args[0]
    # x < 0 is gt0(0 - x) = gt0(-1 * x)
    if a.op == "mul" and is_c(a.args[0]) and a.args[0].val == -1 and a.args[1].sort == "I" and struct_nonneg(a.args[1]):
        return FALSE if not neg_ else TRUE
    return None


def inorm(t):
    """normal form of an integer (index) term"""
    if t.op in ("c", "v"): return t
    r = _in_memo.get(t.id)
    if r is None:
        r = _in_memo[t.id] = p_term(poly(t))
        _in_memo[r.id] = r
    return r


def _divrem(a, b):
    """try to compute trunc quotient and remainder structurally; returns (q,r) T or None"""
    pa, pb = poly(a), poly(b)
    if len(pb) != 1: return None
    (mb, cb), = pb.items()
    if cb <= 0: return None
    if not is_int_poly(pa) or not is_int_poly(pb): return None
    if not prove_nonneg(pa): return None
    if not prove_nonneg(p_add(pb, p_const(-1))): return None
    q = {}; r = {}
    for m, c in pa.items():
        d = dict(m); ok = True
        for x, e in mb:
            if d.get(x, 0) >= e:
                d[x] = d[x] - e
                if d[x] == 0: del d[x]
            else: ok = False
        if ok:
            k = qdiv(c, cb)
            kq = math.floor(k)
            mm = tuple(sorted(d.items(), key=lambda z: z[0].id))
            if kq: q = p_add(q, {mm: kq})
            rem = c - kq * cb
            if rem: r = p_add(r, {m: rem})
        else:
            r = p_add(r, {m: c})
    if prove_nonneg(r) and prove_nonneg(p_add(p_add(pb, r, -ONE), p_const(-1))):
        return p_term(q), p_term(r)
    return None


def idiv(a, b):
    if is_c(a) and is_c(b) and b.val != 0:
        q = abs(a.val) // abs(b.val)
        return const(q if (a.val >= 0) == (b.val > 0) else -q)
    if is_c(b) and b.val == 1: return a
    r = _divrem(a, b)
    if r: return r[0]
    return mk("idiv", (a, b), None, "I")


def irem(a, b):
    if is_c(a) and is_c(b) and b.val != 0:
        q = abs(a.val) // abs(b.val)
        q = q if (a.val >= 0) == (b.val > 0) else -q
        return const(a.val - q * b.val)
    if is_c(b) and b.val == 1: return const(0)
    r = _divrem(a, b)
    if r: return r[1]
    return mk("irem", (a, b), None, "I")


def ifloordiv(a, b):
    r = _divrem(a, b)
    if r: return r[0]
    if is_c(a) and is_c(b): return const(a.val // b.val)
    return floor_(div(a, b))


def imod(a, b):
    return sub(a, mul(b, ifloordiv(a, b)))


# ---------------------------------------------------------------------------------------------- finite sums
sum_rules = []     # list of SumRule


class SumRule:
    """Sum_{s<extent} prod(atoms)  ->  rhs   (pattern variables: params)"""

    def __init__(self, name, svar, extent, mono, coef, params, rhs):
        self.name, self.svar, self.extent, self.mono, self.coef = name, svar, extent, mono, coef
        self.params, self.rhs = params, rhs
        self.used = 0


def match(pat, tgt, pvars, env):
    """structural matching pattern -> target; pvars set of names; env dict updated; returns bool"""
    if pat.op == "v" and pat.val in pvars:
        if pat.val in env: return env[pat.val] is tgt
        env[pat.val] = tgt
        return True
    if not (fv(pat) & pvars): return pat is tgt
    if pat.op != tgt.op or pat.val != tgt.val or len(pat.args) != len(tgt.args): return False
    if pat.op in ("add", "mul"):
        e1 = dict(env)
        if all(match(a, b, pvars, e1) for a, b in zip(pat.args, tgt.args)):
            env.clear(); env.update(e1); return True
        e1 = dict(env)
        if all(match(a, b, pvars, e1) for a, b in zip(pat.args, reversed(tgt.args))):
            env.clear(); env.update(e1); return True
        return False
    for a, b in zip(pat.args, tgt.args):
        if not match(a, b, pvars, env): return False
    return True


def match_mono(pm, tm, pvars, env0):
    """match monomials (as multisets of (atom,exp)) exactly; yields env"""
    if len(pm) != len(tm): return None
    def rec(i, used, env):
        if i == len(pm): return env
        a, e = pm[i]
        for j, (b, f) in enumerate(tm):
            if j in used or e != f: continue
            e2 = dict(env)
            if match(a, b, pvars, e2):
                r = rec(i + 1, used | {j}, e2)
                if r is not None: return r
        return None
    return rec(0, frozenset(), dict(env0))


def contains(a, v): return v.val in fv(a)


def sum_poly(binders, p):
    """Sum over binders [(var, extent)] of polynomial p."""
    out = {}
    for m, c in p.items():
        out = p_add(out, p_scale(sum_mono(list(binders), m), c))
        if len(out) > MAXTERMS: raise TooBig("sum")
    return out


def sum_mono(binders, m):
    # 1. open nested sums that depend on a binder
    m = list(m)
    names = {b[0].val for b in binders}
    changed = True
    work_inner = []
    rest = []
    for a, e in m:
        if a.op == "S" and e == int(e) and e > 0 and (fv(a) & names):
            for _ in range(int(e)):
                work_inner.append(a)
        else:
            rest.append((a, e))
    if work_inner:
        t = const(1)
        nb = list(binders)
        for a in work_inner:
            mp = {}
            for nm, ext in zip(a.val, a.args[:-1]):
                f = fresh("k", subst(ext, mp))
                mp[nm] = f
                nb.append((f, subst(ext, mp)))
            t = mul(t, subst(a.args[-1], mp))
        t = mul(t, _mono_term(rest, ONE))
        return sum_poly(nb, poly(t))
    m = rest
    # 2. delta elimination
    for (a, e) in m:
        if a.op == "ind" and a.args[0].op == "eq0" and (fv(a) & names):
            p = poly(a.args[0].args[0])
            if not is_int_poly(p):
                # scale to integer
                k = _content(p)
                p = p_scale(p, qdiv(1, k))
            for bi, (v, ext) in enumerate(binders):
                co = None; ok = True
                for mm, c in p.items():
                    d = dict(mm)
                    if v in d:
                        if len(mm) == 1 and d[v] == 1: co = c
                        else: ok = False
                    elif any(contains(x, v) for x, _ in mm): ok = False
                if not ok or co is None or abs(co) != 1: continue
                sol = p_scale({mm: c for mm, c in p.items() if mm != ((v, 1),)}, -co)
                solT = p_term(sol)
                # other binders may occur in the solution (they stay bound); extents of others must not depend on v
                inr = and_(icond(le(const(0), solT)), icond(lt(solT, ext)))
                others = [b for i, b in enumerate(binders) if i != bi]
                rem = [(x, y) for x, y in m if x is not a]
                body = subst(_mono_term(rem, ONE), {v.val: solT})
                if inr is not TRUE:
                    body = ite(inr, body, const(0))
                if not others: return poly(body)
                return sum_poly(others, poly(body))
    # 3. tables force expansion of the binder
    for a, e in m:
        if fv(a) & names:
            for x in subterms(a):
                if x.op == "tab":
                    for bi, (v, ext) in enumerate(binders):
                        if v.val in fv(x) and is_c(ext):
                            others = [b for i, b in enumerate(binders) if i != bi]
                            out = {}
                            bt = _mono_term(m, ONE)
                            for k in range(int(ext.val)):
                                bb = poly(retab(subst(bt, {v.val: const(k)})))
                                out = p_add(out, sum_poly(others, bb) if others else bb)
                            return out
    # 4. split off atoms independent of all binders; connected components
    outer = [(a, e) for a, e in m if not (fv(a) & names)]
    inner = [(a, e) for a, e in m if fv(a) & names]
    res = {tuple(outer): ONE}
    comps = []
    for v, ext in binders:
        comps.append([{v.val}, [(v, ext)], []])
    # merge through extents and atoms
    def find(n):
        for c in comps:
            if n in c[0]: return c
    def merge(ns):
        cs = []
        for n in ns:
            c = find(n)
            if c not in cs: cs.append(c)
        base = cs[0]
        for c in cs[1:]:
            base[0] |= c[0]; base[1] += c[1]; base[2] += c[2]
            comps.remove(c)
        return base
    for a, e in inner:
        ns = [n for n in fv(a) if n in names]
        base = merge(ns)
        base[2].append((a, e))
    for nset, bs, ms in comps:
        res = p_mul(res, _sum_component(bs, ms))
    return res


def retab(t):
    def leaf(x):
        return None
    def f(x):
        return None
    memo = {}
    # rebuild tab nodes with constant indices into constants
    def leaf2(x):
        if x.op == "tab" and all(is_c(a) for a in x.args):
            return tab_value(x)
        return None
    return mapterm(t, leaf2, memo)


def tab_value(x):
    arr = TABLES[x.val]
    v = arr[tuple(int(a.val) for a in x.args)]
    return np_const(v)


def np_const(v):
    v = v.item() if hasattr(v, "item") else v
    if isinstance(v, bool): return const(v)
    if isinstance(v, int): return const(v)
    return const(float_frac(v), "R")


_ff = {}


def float_frac(v):
    """simplest rational that rounds to the float v (decimal literal or small-denominator fraction)"""
    if v in _ff: return _ff[v]
    if v != v or v in (float("inf"), float("-inf")):
        raise Unsupported("nan/inf constant")
    r = None
    f = Fraction(v)
    for den in (1000, 100000):
        g = f.limit_denominator(den)
        if float(g) == v: r = g; break
    if r is None:
        r = Fraction(repr(v))
    r = q_(r)
    _ff[v] = r
    return r


def _sum_component(bs, ms):
    if len(bs) == 1 and not ms:
        return poly(bs[0][1])
    # sum rules: for a binder v, atoms involving v match a rule
    for bi, (v, ext) in enumerate(bs):
        sub_m = [(a, e) for a, e in ms if contains(a, v)]
        if any(contains(b[1], v) for b in bs if b[0] is not v): continue
        for rule in sum_rules:
            if rule.extent is not ext: continue
            env = match_mono(rule.mono, tuple(sub_m), rule.params | {rule.svar.val}, {rule.svar.val: v})
            if env is None: continue
            if env.get(rule.svar.val) is not v: continue
            if any(contains(x, v) for k, x in env.items() if k != rule.svar.val): continue
            rule.used += 1
            rhs = subst(rule.rhs, {k: x for k, x in env.items() if k in rule.params})
            rem = [(a, e) for a, e in ms if not contains(a, v)]
            others = [b for i, b in enumerate(bs) if i != bi]
            t = mul(mul(rhs, const(qdiv(1, rule.coef))), _mono_term(rem, ONE))
            return sum_poly(others, poly(t)) if others else poly(t)
    # canonical closed form
    k = len(bs)
    if k > 5: raise Unsupported("too many nested sums")
    body = _mono_term(sorted(ms, key=lambda x: x[0].id), ONE)
    h = 0
    for x in subterms(body):
        if x.op == "S":
            for nm in x.val: h = max(h, int(nm[2:].split("_")[0]))
    best = None
    for perm in itertools.permutations(range(k)):
        exts = [bs[i][1] for i in perm]
        ek = tuple(rhash(e) for e in exts)
        if best is not None and ek > best[0]: continue
        mp = {bs[i][0].val: var("#b%d_%d" % (h + 1, j), "I") for j, i in enumerate(perm)}
        mono2 = sorted([(subst(a, mp), e) for a, e in ms], key=lambda x: x[0].id)
        bt = _mono_term(mono2, ONE)
        key = (ek, rhash(bt))
        if best is None or key < best[:2]:
            best = (ek, key[1], exts, mono2, bt)
    exts, mono2, bt = best[2:]
    for j, e in enumerate(exts):
        n = "#b%d_%d" % (h + 1, j)
        var_bounds[n] = var_bounds.get(n, (const(0), None))
    # sums that differ only in the names or the order of their bound variables, or in the way their bodies are written, are one term
    s = _sums.get((h, best[0], best[1]))
    if s is not None: return p_atom(s)
    names = tuple("#b%d_%d" % (h + 1, j) for j in range(k))
    s = mk("S", tuple(exts) + (_mono_term(mono2, ONE),), names, "R" if any(a.sort == "R" for a, e in mono2) else "I")
    _sums[(h, best[0], best[1])] = s
    return p_atom(s)


# value of a term in a prime field under a fixed pseudo-random interpretation of its symbols: equal for terms that are equal by ring axioms
# (used to choose the order of bound variables and to recognise equal sums; 127 bits)
_P = (1 << 127) - 1
_rh = {}
_sums = {}


def rhash(t):
    stack = [t]
    while stack:
        x = stack[-1]
        if x.id in _rh: stack.pop(); continue
        todo = [a for a in x.args if a.id not in _rh]
        if todo: stack += todo; continue
        stack.pop()
        hs = [_rh[a.id] for a in x.args]
        if x.op == "add": v = sum(hs) % _P
        elif x.op == "mul":
            v = 1
            for q in hs: v = v * q % _P
        elif x.op == "inv" and hs[0]: v = pow(hs[0], _P - 2, _P)
        elif x.op == "den": v = hs[0]
        elif x.op == "c" and not isinstance(x.val, bool): v = x.val.numerator * pow(x.val.denominator, _P - 2, _P) % _P
        else:
            if x.op in ("and", "eq"): hs = sorted(hs)
            v = int.from_bytes(hashlib.blake2b(repr((x.op, x.val, x.sort if x.op in ("v", "app") else "", hs)).encode(), digest_size=16).digest(), "big") % _P
        _rh[x.id] = v
    return _rh[t.id]


# ---------------------------------------------------------------------------------------------- zero test
def p_is_zero(p, budget=200000):
    if not p: return True
    return not clear_dens(p)


def clear_dens(p):
    """multiply by denominators until no negative exponents on 'den' atoms; multi-term denominators expand"""
    for _ in range(12):
        if not p: return p
        neg = {}
        for m in p:
            for a, e in m:
                if a.op == "den" and e < 0: neg[a] = min(neg.get(a, 0), e)
        if not neg: break
        # pick the denominator of largest term size last (nested dens first)
        a = max(neg, key=lambda x: x.id)
        k = -neg[a]
        base = poly(a.args[0])
        out = {}
        pw = {0: p_const(1)}
        for m, c in p.items():
            d = dict(m); e = d.pop(a, 0)
            j = int(k + e)
            if j not in pw: pw[j] = p_pow(base, j)
            mm = tuple(x for x in m if x[0] is not a)
            out = p_add(out, p_mul({mm: c}, pw[j]))
            if len(out) > MAXTERMS: raise TooBig("clear_dens")
        p = out
    # negative exponents of plain atoms: multiply through (atoms assumed nonzero under definedness)
    if p:
        neg = {}
        for m in p:
            for a, e in m:
                if e < 0: neg[a] = min(neg.get(a, 0), e)
        if neg:
            p = p_mul(p, {tuple(sorted(((a, -e) for a, e in neg.items()), key=lambda x: x[0].id)): ONE})
    return p
