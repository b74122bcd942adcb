"""Discharging obligations: rewriting by assumed equations, exact polynomial/indicator/finite-sum normal forms,
case splitting on undecided conditions, and z3 (NRA + linear integer arithmetic) for what is left."""
import sys, time, itertools
from fractions import Fraction
sys.path.append("/opt/veriftools/pyvenv/lib/python3.12/site-packages")
import z3
from . import ir
from .ir import (T, const, var, fresh, app, add, sub, mul, neg, div, inv, ite, not_, and_, or_, lt, le, eq, gt0, eq0,
                 poly, p_term, p_add, p_mul, p_scale, p_atom, is_c, TRUE, FALSE, ONE, ZERO, Unsupported, fv, subst,
                 subterms, canon_cond, icond, mapterm, match, inorm)

STATS = {"z3_queries": 0, "z3_time": 0.0, "poly": 0, "splits": 0, "backend": {}}


def bump(k):
    STATS["backend"][k] = STATS["backend"].get(k, 0) + 1


class Budget(Exception):
    pass


class limit:
    def __init__(self, n): self.n = n
    def __enter__(self):
        self.old = ir.MAXTERMS; ir.MAXTERMS = min(self.n, self.old)
    def __exit__(self, *a): ir.MAXTERMS = self.old


# ------------------------------------------------------------------------------------------ z3 translation
class Z3T:
    def __init__(self, prover):
        self.pv = prover
        self.memo = {}
        self.side = {}       # term id -> list of z3 facts attached to that atom (closed transitively by facts_for)
        self.atoms = {}      # id -> T

    def num(self, t):
        r = self.memo.get(t.id)
        if r is not None: return r
        stack = [t]
        while stack:
            x = stack[-1]
            if x.id in self.memo:
                stack.pop(); continue
            if x.op in ("add", "mul", "inv", "ite", "gt0", "eq0", "and", "not", "ind", "den"):
                pend = [a for a in x.args if a.id not in self.memo]
                if pend:
                    stack.extend(pend); continue
                self.memo[x.id] = self._node(x, [self.memo[a.id] for a in x.args])
            else:
                self.memo[x.id] = self._leaf(x)
            stack.pop()
        return self.memo[t.id]

    def _co(self, a):
        return z3.ToReal(a) if a.is_int() else a

    def _node(self, x, a):
        op = x.op
        if op == "add":
            if a[0].is_int() != a[1].is_int(): a = [self._co(a[0]), self._co(a[1])]
            return a[0] + a[1]
        if op == "mul":
            if a[0].is_int() != a[1].is_int(): a = [self._co(a[0]), self._co(a[1])]
            return a[0] * a[1]
        if op == "inv":
            r = z3.Real("inv!%d" % x.id)
            d = self._co(a[0])
            self.side[x.id] = [z3.Implies(d != 0, r * d == 1)]
            self.atoms[x.id] = x
            return r
        if op == "den": return a[0]
        if op == "ite":
            b, c = a[1], a[2]
            if z3.is_bool(b): return z3.If(a[0], b, c)
            if b.is_int() != c.is_int(): b, c = self._co(b), self._co(c)
            return z3.If(a[0], b, c)
        if op == "gt0": return a[0] > 0
        if op == "eq0": return a[0] == 0
        if op == "and": return z3.And(*a)
        if op == "not": return z3.Not(a[0])
        if op == "ind": return z3.If(a[0], z3.IntVal(1), z3.IntVal(0))

    def _leaf(self, x):
        op = x.op
        if op == "c":
            if x.sort == "B": return z3.BoolVal(x.val)
            if x.sort == "I": return z3.IntVal(int(x.val))
            return z3.RealVal(str(x.val))
        if op in ("v", "app"):
            nm = "%s!%d" % (x.val, x.id)
            r = z3.Bool(nm) if x.sort == "B" else z3.Int(nm) if x.sort == "I" else z3.Real(nm)
            self.atoms[x.id] = x
            return r
        if op == "tab":
            nm = "tab!%d" % x.id
            self.atoms[x.id] = x
            r = z3.Int(nm) if x.sort == "I" else z3.Real(nm)
            arr = ir.TABLES[x.val]
            self.side[x.id] = []
            if len(x.args) == 1 and len(arr) <= 128:
                i = self.num(x.args[0])
                for j, v in enumerate(arr.tolist()):
                    c = ir.cval_for(v) if False else const(ir.float_frac(float(v)) if isinstance(v, float) else int(v))
                    self.side[x.id].append(z3.Implies(i == j, r == self.num(c)))
            return r
        # opaque atoms: canonicalise through the polynomial form first
        if op in ("sum", "sqrt", "exp", "log", "floor", "pow", "fn", "idiv", "irem", "bmax", "bmin"):
            p = poly(x)
            q = p_term(p)
            if q is not x:
                # q may still contain x itself as an atom
                if q.op != op or op in ("bmax", "bmin") or (op == "fn" and len(x.args) > 2 and p_term(poly(q)) is q):
                    return self.num(q)
        nm = "%s!%d" % (op, x.id)
        r = z3.Int(nm) if x.sort == "I" else z3.Real(nm)
        self.memo[x.id] = r
        self.atoms[x.id] = x
        sd = []
        if op == "sqrt":
            a = self._co(self.num(x.args[0]))
            if x.id in ir.sos_atoms: sd += [r >= 0, a >= 0, r * r == a]
            else: sd += [r >= 0, z3.Implies(a >= 0, r * r == a), z3.Implies(a > 0, r > 0)]
        elif op == "exp":
            a = self._co(self.num(x.args[0]))
            sd += [r > 0, r >= 1 + a, z3.Implies(a < 0, r < 1), z3.Implies(a == 0, r == 1)]
        elif op == "log":
            a = self._co(self.num(x.args[0]))
            sd += [z3.Implies(a > 0, r <= a - 1), z3.Implies(a > 1, r > 0), z3.Implies(z3.And(a > 0, a < 1), r < 0), z3.Implies(a == 1, r == 0)]
        elif op == "floor":
            a = self._co(self.num(x.args[0]))
            sd += [z3.ToReal(r) <= a, a < z3.ToReal(r) + 1]
        elif op == "idiv" or op == "irem":
            a, b = self.num(x.args[0]), self.num(x.args[1])
            if op == "idiv":
                sd += [z3.Implies(z3.And(a >= 0, b > 0), z3.And(r * b <= a, a < r * b + b, r >= 0))]
            else:
                sd += [z3.Implies(z3.And(a >= 0, b > 0), z3.And(r >= 0, r < b))]
        elif op == "fn" and len(x.args) > 2: pass
        elif op == "fn":
            a = [self._co(self.num(y)) for y in x.args]
            if x.val in ("sin", "cos", "tanh"): sd += [r <= 1, r >= -1]
            if x.val in ("sin", "cos"):
                o = ir.mk("fn", x.args, "cos" if x.val == "sin" else "sin", "R")
                if o.id not in self.memo: self.num(o)
                oo = self.memo[o.id]
                sd += [r * r + oo * oo == 1]
            if x.val == "sigmoid": sd += [r > 0, r < 1, z3.Implies(a[0] >= 0, r * 2 >= 1), z3.Implies(a[0] <= 0, r * 2 <= 1)]
            if x.val == "tanh": sd += [z3.Implies(a[0] > 0, r > 0), z3.Implies(a[0] < 0, r < 0)]
        elif op == "cbrt3":
            a = self._co(self.num(x.args[0]))
            sd += [r * r * r == a, z3.Implies(a > 0, r > 0), z3.Implies(a < 0, r < 0)]
        elif op == "S":
            if self.pv is not None and self.pv.sum_nonneg(x): sd.append(r >= 0)
        elif op in ("bmax", "bmin"):
            pass        # bounds and attainment: Prover.closure (they depend on the indices at hand)
        self.side[x.id] = sd
        return r


class Prover:
    def __init__(self, budget_s=60.0, z3_ms=4000):
        self.rewrites = []        # (lhs pattern, pvars frozenset, rhs, cond or None)
        self.foralls = []         # (pvars tuple, trigger patterns, body)
        self.ground = []          # ground facts
        self.arr_facts = {}       # name -> fn(atom)-> [facts]
        self.zt = Z3T(self)
        self.sumpos = {}
        self.budget_s = budget_s
        self.z3_ms = z3_ms
        self.deadline = None
        self.idx_pool = {}
        self.memo_dec = {}
        self.model = None
        self.rw_memo = {}
        self.nb_memo = {}
        self.rel_memo = {}
        self.inst_memo = {}
        self.witness = {}

    # -------------------------------------------------------------------------------- assumptions
    def rewrite(self, t):
        if not self.rewrites: return t
        heads = {}
        for r in self.rewrites: heads.setdefault((r[0].op, r[0].val), []).append(r)
        for _ in range(6):
            memo = {}

            def f(x):
                return None
            # bottom-up with post-processing
            out = self._rw(t, heads)
            if out is t: return t
            t = out
        return t

    def _rw(self, t, heads):
        memo = self.rw_memo
        stack = [t]
        while stack:
            x = stack[-1]
            if x.id in memo: stack.pop(); continue
            pend = [a for a in x.args if a.id not in memo]
            if pend:
                stack.extend(pend); continue
            na = tuple(memo[a.id] for a in x.args)
            y = x if na == x.args else ir.rebuild(x, na)
            for lhs, pv, rhs in heads.get((y.op, y.val), ()):
                env = {}
                if match(lhs, y, pv, env) and len(env) == len(pv):
                    y = subst(rhs, env); break
            memo[x.id] = y
            stack.pop()
        return memo[t.id]

    def index_candidates(self, ext):
        return list(self.idx_pool.get(ext.id, ()))

    def note_index(self, v, ext):
        self.idx_pool.setdefault(inorm(ext).id, [])
        if v not in self.idx_pool[inorm(ext).id]: self.idx_pool[inorm(ext).id].append(v)

    def atom_facts(self, x):
        """facts that come with an atom: declared array bounds, variable bounds, instantiated forall assumptions"""
        r = self.inst_memo.get(x.id)
        if r is not None: return r
        self.inst_memo[x.id] = []
        out = []
        if x.op in ("app", "v"):
            f = self.arr_facts.get(x.val)
            if f: out += f(x)
            if x.op == "app" and x.val in ir.arr_bounds:
                lo, hi = ir.arr_bounds[x.val]
                if lo is not None: out.append(le(lo, x))
                if hi is not None: out.append(le(x, hi))
            if x.op == "v" and x.val in ir.var_bounds:
                lo, hi = ir.var_bounds[x.val]
                if lo is not None: out.append(le(lo, x))
                if hi is not None: out.append(le(x, hi))
            if x.op == "v" and x.val in ir.dim_vars: out.append(le(const(1), x))
            for pv, trigs, body in self.foralls:
                for tr in trigs:
                    env = {}
                    if match(tr, x, frozenset(pv), env) and len(env) == len(pv):
                        out.append(self.rewrite(subst(body, env)))
        out = [o for o in out if o is not TRUE]
        self.inst_memo[x.id] = out
        return out

    def closure(self, zexprs_terms, rounds=6):
        """all side facts for the atoms reachable from the given terms; returns list of z3 facts"""
        done = set(); zf = []; todo = list(zexprs_terms)
        seen_terms = set(); ext_atoms = []; cross = set()
        while True:
            if not todo:
                # extremal values over the same index range: each is bounded at the other's witness
                for x in ext_atoms:
                    for y in ext_atoms:
                        if x is y or x.args[1] is not y.args[1] or (x.id, y.id) in cross: continue
                        cross.add((x.id, y.id))
                        b = subst(x.args[2], {x.args[0].val: self.witness[y.id]})
                        r, zb = self.zt._co(self.zt.num(x)), self.zt._co(self.zt.num(b))
                        zf.append(r >= zb if x.op == "bmax" else r <= zb); todo.append(b)
                if not todo: break
            t = todo.pop()
            if t.id in seen_terms: continue
            seen_terms.add(t.id)
            self.zt.num(t)
            for x in self._ratoms(t):
                if x.id in done: continue
                done.add(x.id)
                if x.op not in ("app", "v"):
                    if x.id not in self.zt.memo: self.zt.num(x)
                    # the canonical alias may differ
                    zf += self.zt.side.get(x.id, [])
                    if x.op in ("bmax", "bmin"):
                        # bound at the indices that occur for the same extent, attained at a witness (extent >= 1)
                        v, ext, body = x.args
                        ext_atoms.append(x)
                        w = self.witness.get(x.id)
                        if w is None: w = self.witness[x.id] = fresh("arg", ext)
                        r = self.zt._co(self.zt.num(x))
                        for i in self.index_candidates(ext):
                            b = self.zt._co(self.zt.num(subst(body, {v.val: i})))
                            zf.append(r >= b if x.op == "bmax" else r <= b)
                        zf.append(r == self.zt._co(self.zt.num(subst(body, {v.val: w}))))
                    for y in self._side_terms(x): todo.append(y)
                for f in self.atom_facts(x):
                    zf.append(self.zt.num(f)); todo.append(f)
        return zf

    _side_memo = {}

    def _side_terms(self, x):
        if x.op in ("bmax", "bmin"):
            return [subst(x.args[2], {x.args[0].val: i}) for i in self.index_candidates(x.args[1]) + [self.witness[x.id]]]
        if x.op in ("S",): return []
        if x.op == "fn" and x.val in ("sin", "cos"):
            return list(x.args) + [ir.mk("fn", x.args, "cos" if x.val == "sin" else "sin", "R")]
        return list(x.args)

    _ra = {}

    def _ratoms(self, t):
        """atoms z3 sees in t"""
        r = Prover._ra.get(t.id)
        if r is not None: return r
        out = []; seen = set(); st = [t]
        while st:
            x = st.pop()
            if x.id in seen: continue
            seen.add(x.id)
            if x.op in ("add", "mul", "ite", "gt0", "eq0", "and", "not", "ind", "den"):
                st.extend(x.args)
            elif x.op == "c": pass
            elif x.op == "inv":
                out.append(x); st.extend(x.args)
            else:
                if x.op in ("sum", "sqrt", "exp", "log", "floor", "pow", "fn", "idiv", "irem", "bmax", "bmin"):
                    q = p_term(poly(x))
                    if q is not x and (q.op != x.op or x.op in ("bmax", "bmin") or (x.op == "fn" and len(x.args) > 2 and p_term(poly(q)) is q)):
                        st.append(q); continue
                out.append(x)
        Prover._ra[t.id] = out
        return out

    # -------------------------------------------------------------------------------- z3
    def check(self, facts, extra=(), ms=None, want_model=False):
        """'unsat' | 'sat' | 'unknown' for ground+facts+extra"""
        if self.deadline and time.time() > self.deadline: raise Budget()
        ms = ms or self.z3_ms
        terms = list(self.ground) + list(facts) + list(extra)
        try:
            zs = [self.zt.num(t) for t in terms]
            zf = self.closure(terms)
        except Unsupported:
            return "unknown"
        t0 = time.time()
        res = "unknown"
        hasint = False
        for name in ("nlsat", "smt"):
            if name == "nlsat":
                if not self._pure_real(zs + zf): continue
                s = z3.Tactic("qfnra-nlsat").solver()
                s.set("timeout", max(50, ms // 2) if not want_model else ms)
            else:
                s = z3.Solver()
                s.set("timeout", ms)
            s.add(*zs); s.add(*zf)
            try:
                r = s.check()
            except z3.Z3Exception:
                continue
            res = str(r)
            if res != "unknown":
                if res == "sat" and want_model: self.model = self.read_model(s.model())
                break
        dt = time.time() - t0
        STATS["z3_queries"] += 1; STATS["z3_time"] += dt
        return res

    def lin_check(self, facts, extra):
        """'unsat' when facts+extra are contradictory already as linear constraints over their monomials (signs of monomials and of
        atoms included), else 'unknown'"""
        lits = []
        for t in list(self.ground) + list(facts) + list(extra):
            try: lits += conj(canon_cond(t))
            except Unsupported: pass
        mons = {}; cons = []

        def lin(p):
            e = []
            for m, c in p.items():
                if not m: e.append(z3.RealVal(str(c))); continue
                v = mons.get(m)
                if v is None: v = mons[m] = z3.Real("m!%d" % len(mons))
                e.append(z3.RealVal(str(c)) * v)
            return z3.Sum(e) if e else z3.RealVal(0)

        def side(l):
            n = False
            while l.op == "not": n = not n; l = l.args[0]
            if l.op not in ("gt0", "eq0"): return
            p = poly(l.args[0])
            if len(p) > 150: return
            if l.op == "gt0": cons.append(lin(p) <= 0 if n else lin(p) > 0)
            elif not n: cons.append(lin(p) == 0)
        try:
            for l in lits: side(l)
            done = set()
            for m in list(mons):
                for a, e in m:
                    if a.id in done: continue
                    done.add(a.id)
                    for f in self.atom_facts(a):
                        for l in conj(canon_cond(f)): side(l)
            for m, v in list(mons.items()):
                sg = 1; strict = True
                for a, e in m:
                    s = self.atom_sign(a)
                    if e == int(e) and int(e) % 2 == 0:
                        if s != 2: strict = False
                        continue
                    if s == 0: sg = 0; break
                    if s == 1: strict = False
                if sg: cons.append(v > 0 if strict else v >= 0)
                if all(a.op == "ind" for a, e in m): cons.append(v <= 1)
        except Unsupported:
            return "unknown"
        if len(cons) > 400: return "unknown"
        s = z3.SolverFor("QF_LRA"); s.set("timeout", 500)
        s.add(*cons)
        t0 = time.time(); r = str(s.check())
        STATS["z3_queries"] += 1; STATS["z3_time"] += time.time() - t0
        return "unsat" if r == "unsat" else "unknown"

    def atom_sign(self, a):
        """2 positive, 1 nonnegative, 0 unknown"""
        b = a.args[0] if a.op == "den" else a
        if a.op in ("exp",) or ir.is_positive(a): return 2
        if b.op in ("v", "app"):
            r = 0
            for x in self.atom_facts(b):
                if x is gt0(b): return 2
                if x is le(const(0), b): r = 1
            return r
        if a.op in ("sqrt", "ind"): return 1
        if a.op == "S": return 1 if self.sum_nonneg(a) else 0
        return 0

    def _pure_real(self, es):
        seen = set(); st = list(es); n = 0
        while st:
            e = st.pop()
            i = e.get_id()
            if i in seen: continue
            seen.add(i); n += 1
            if n > 4000: return False
            if z3.is_expr(e):
                if z3.is_const(e) and e.decl().kind() == z3.Z3_OP_UNINTERPRETED:
                    if e.sort().kind() == z3.Z3_INT_SORT: return False
                st.extend(e.children())
        return True

    def read_model(self, m):
        out = []
        for i, a in self.zt.atoms.items():
            if a.op not in ("v", "app"): continue
            z = self.zt.memo.get(i)
            if z is None: continue
            try:
                v = m.eval(z, model_completion=True)
            except z3.Z3Exception:
                continue
            idx = []
            ok = True
            for k in a.args:
                if is_c(k): idx.append(int(k.val)); continue
                zk = self.zt.memo.get(k.id)
                if zk is None:
                    ok = False; break
                kv = m.eval(zk, model_completion=True)
                try: idx.append(kv.as_long())
                except Exception: ok = False; break
            if not ok: continue
            out.append((a.val, tuple(idx), zval(v)))
        return out

    # -------------------------------------------------------------------------------- deciding conditions
    def decide(self, c, facts, ms=400):
        if c is TRUE: return True
        if c is FALSE: return False
        c2 = icond(c)
        if c2 is TRUE: return True
        if c2 is FALSE: return False
        try: cc = canon_cond(c)
        except Unsupported: cc = c
        if cc is TRUE: return True
        if cc is FALSE: return False
        lits = facts.lits
        if cc in lits: return True
        n = ir._neg_cond(cc) if cc.op in ("gt0", "eq0", "not") else not_(cc)
        if n in lits: return False
        if cc.op == "and":
            rs = [self.decide(a, facts, ms) for a in cc.args]
            if any(r is False for r in rs): return False
            if all(r is True for r in rs): return True
            return None
        key = (facts.key, cc.id)
        if key in self.memo_dec: return self.memo_dec[key]
        r = self.interval(cc)
        if r is not None:
            self.memo_dec[key] = r
            return r
        if self.check(facts.list, (not_(cc),), ms) == "unsat": r = True
        elif self.check(facts.list, (cc,), ms) == "unsat": r = False
        self.memo_dec[key] = r
        return r

    def interval(self, cc):
        """decide a comparison of a linear polynomial whose atoms have declared constant bounds"""
        neg_ = cc.op == "not"
        c = cc.args[0] if neg_ else cc
        if c.op not in ("gt0", "eq0"): return None
        p = poly(c.args[0])
        lo = hi = 0; los = his = False      # strictness of the bounds
        for m, k in p.items():
            if m == ():
                lo = None if lo is None else lo + k
                hi = None if hi is None else hi + k
                continue
            if len(m) != 1 or m[0][1] != 1: return None
            b = self.num_bounds(m[0][0])
            if b is None: return None
            l, ls, h, hs = b
            if k < 0: l, ls, h, hs = h, hs, l, ls
            lo = None if lo is None or l is None else lo + k * l
            hi = None if hi is None or h is None else hi + k * h
            los |= ls; his |= hs
        r = None
        if c.op == "gt0":
            if lo is not None and (lo > 0 or lo == 0 and los): r = True
            elif hi is not None and hi <= 0: r = False
        else:
            if lo is not None and (lo > 0 or lo == 0 and los): r = False
            elif hi is not None and (hi < 0 or hi == 0 and his): r = False
        return r if r is None or not neg_ else (not r)

    def num_bounds(self, a):
        r = self.nb_memo.get(a.id)
        if r is not None: return r or None
        l = h = None; ls = hs = False
        for f in self.atom_facts(a):
            g = f.args[0] if f.op == "not" else f
            if g.op != "gt0": continue
            p = poly(g.args[0])
            if set(p) - {(), ((a, 1),)}: continue
            k = p.get(((a, 1),), 0)
            if not k: continue
            v = ir.qdiv(-p.get((), 0), k)
            strict = f.op != "not"
            lower = (k > 0) == strict
            if lower and (l is None or v > l or v == l and strict): l, ls = v, strict
            if not lower and (h is None or v < h or v == h and strict): h, hs = v, strict
        r = (l, ls, h, hs)
        self.nb_memo[a.id] = r
        return r

    def simp(self, t, facts):
        """resolve decided ite/ind conditions and floors"""
        t = self.rewrite(t)
        for _ in range(4):
            memo = {}

            def go(x):
                stack = [x]
                while stack:
                    y = stack[-1]
                    if y.id in memo: stack.pop(); continue
                    if y.op == "ite":
                        c = y.args[0]
                        if c.id not in memo:
                            stack.append(c); continue
                        cc = memo[c.id]
                        bnd = any(n.startswith("#") or ("!" in n and n not in facts.free) for n in fv(cc)) if facts.free is not None else False
                        d = None if bnd else self.decide(cc, facts)
                        if d is None and bnd:
                            z = icond(cc); d = True if z is TRUE else False if z is FALSE else None
                        if d is True: nxt = [y.args[1]]
                        elif d is False: nxt = [y.args[2]]
                        else: nxt = [y.args[1], y.args[2]]
                        pend = [a for a in nxt if a.id not in memo]
                        if pend:
                            stack.extend(pend); continue
                        if len(nxt) == 1: memo[y.id] = memo[nxt[0].id]
                        else:
                            cc, na, nb = self.tie(cc, memo[nxt[0].id], memo[nxt[1].id], facts)
                            if cc.id != c.id and not bnd:
                                d = self.decide(cc, facts)
                                if d is not None: cc = const(d)
                            memo[y.id] = ite(cc, na, nb)
                        stack.pop(); continue
                    pend = [a for a in y.args if a.id not in memo]
                    if pend:
                        stack.extend(pend); continue
                    na = tuple(memo[a.id] for a in y.args)
                    z = y if na == y.args else ir.rebuild(y, na)
                    if z.op == "floor": z = self.floor_val(z, facts)
                    elif z.op in ("idiv", "irem"): z = self.divrem_val(z, facts)
                    elif z.op == "ind":
                        cc = z.args[0]
                        bnd = any(n.startswith("#") or ("!" in n and n not in facts.free) for n in fv(cc)) if facts.free is not None else any(n.startswith("#") for n in fv(cc))
                        d = None if bnd else self.decide(cc, facts)
                        if d is not None: z = const(1 if d else 0)
                    memo[y.id] = z
                    stack.pop()
                return memo[x.id]
            u = go(t)
            if u is t: break
            t = self.rewrite(u)
        return t

    def tie(self, c, a, b, facts):
        """ite(x > 0, a, b) with a = b at x = 0 (maxima, minima, absolute values): one orientation of the condition for x and -x"""
        if a.sort == "B" or b.sort == "B": return c, a, b
        try:
            cc = canon_cond(c)
            if cc.op == "not": cc, a1, b1 = cc.args[0], b, a
            else: a1, b1 = a, b
            if cc.op != "gt0": return c, a, b
            p = poly(cc.args[0])
            if len(p) > 200 or ir.is_int_poly(p): return c, a, b
            lead = min(p, key=ir.mono_key)
            flip = p[lead] < 0
            op = canon_cond(gt0(p_term(p_scale(p, -ir.ONE))))
            known = not_(op) in facts.lits
            if cc is c and not flip and not known: return c, a, b
            d = ir.p_add(poly(a1), poly(b1), -ir.ONE)
            if lead not in d or len(d) != len(p): return c, a, b
            k = ir.qdiv(d[lead], p[lead])
            if any(d.get(m) != v * k for m, v in p.items()): return c, a, b
            if known: return ir.TRUE, a1, b1
            if flip: return op, b1, a1
            return cc, a1, b1
        except Unsupported:
            return c, a, b

    def divrem_val(self, z, facts):
        """(q*b + r) / b with 0 <= r < b and q >= 0 under the facts"""
        if any(n.startswith("#") for n in fv(z)): return z
        try: pa, pb = poly(z.args[0]), poly(z.args[1])
        except (Unsupported, ir.TooBig): return z
        if len(pb) != 1 or not ir.is_int_poly(pa) or not ir.is_int_poly(pb): return z
        (mb, cb), = pb.items()
        q = {}; r = {}
        for m, c in pa.items():
            d = dict(m); ok = c.denominator == 1 and cb > 0 and c % cb == 0
            for x, e in mb:
                if d.get(x, 0) < e: ok = False; break
                d[x] -= e
                if d[x] == 0: del d[x]
            if ok: q = p_add(q, {tuple(sorted(d.items(), key=lambda y: y[0].id)): qdiv_(c, cb)})
            else: r[m] = c
        if not q: return z
        bt = z.args[1]
        for sh in (0, 1, -1):
          qt, rt = p_term(p_add(q, ir.p_const(-sh))), p_term(p_add(r, p_scale(pb, Fraction(sh))))
          if all(self.decide(c, facts) is True for c in (le(const(0), rt), lt(rt, bt), le(const(0), qt))):
            return qt if z.op == "idiv" else rt
        return z

    def floor_val(self, z, facts):
        p = poly(z)
        if not p or set(p) == {()}: return p_term(p)
        if ir.is_int_poly(p) and all(a.op != "floor" for a in ir.atoms_of(p)): return p_term(p)
        res = {}
        chg = False
        for m, c in p.items():
            if len(m) == 1 and m[0][0].op == "floor" and m[0][1] == 1:
                a = m[0][0]
                k = self._floor_const(a, facts)
                if k is not None:
                    res = p_add(res, {(): Fraction(k) * c}); chg = True; continue
            res = p_add(res, {m: c})
        return p_term(res) if chg else z

    def _floor_const(self, a, facts):
        key = (facts.key, -a.id)
        if key in self.memo_dec: return self.memo_dec[key]
        r = None
        x = a.args[0]
        for k in (0, -1, 1, 2, -2):
            c = and_(le(const(k), x), lt(x, const(k + 1)))
            if self.check(facts.list, (not_(c),), 400) == "unsat":
                r = k; break
        self.memo_dec[key] = r
        return r

    # -------------------------------------------------------------------------------- sums
    def sum_nonneg(self, s):
        """S atom >= 0 because its body is >= 0 for every binder value in range"""
        if s.id in self.sumpos: return self.sumpos[s.id]
        self.sumpos[s.id] = False
        mp = {}
        for nm, ext in zip(s.val, s.args[:-1]):
            mp[nm] = fresh("s", subst(ext, mp))
        body = subst(s.args[-1], mp)
        fs = Facts([])
        ok = False
        try:
            ok = self.check(fs.list, (lt(body, const(0)),), 1500) == "unsat"
        except Budget:
            raise
        self.sumpos[s.id] = ok
        return ok

    # -------------------------------------------------------------------------------- goals
    def prove(self, goal, facts=None, budget=None):
        """returns (True,'how') or (False,'reason')"""
        self.model = None
        self.deadline = time.time() + (budget or self.budget_s)
        facts = facts or Facts([])
        try:
            return self._prove(goal, facts, 0)
        except Budget:
            return False, "budget exhausted"
        except Unsupported as e:
            return False, "outside the fragment: %s" % e
        finally:
            self.deadline = None

    def _prove(self, g, facts, depth):
        if g is TRUE: return True, "trivial"
        if g is FALSE:
            if self.check(facts.list, (), None, True) == "unsat": return True, "z3:infeasible"
            return False, "false"
        if g.op == "and":
            how = []
            for a in g.args:
                ok, w = self._prove(a, facts, depth)
                if not ok: return False, w
                how.append(w)
            return True, how[-1]
        if g.op == "not" and g.args[0].op == "and":
            # disjunction: assume all but one disjuncts false
            xs = list(g.args[0].args)
            # order: numeric equalities/inequalities last
            xs.sort(key=lambda a: (a.op in ("gt0",) or (a.op == "not" and a.args[0].op == "gt0"), len(fv(a)), a.id))
            goal = not_(xs[-1])
            f2 = facts
            for x in xs[:-1]: f2 = f2.add(self, x)
            if f2 is None: return True, "z3:infeasible"
            return self._prove(goal, f2, depth)
        if g.op == "not" and g.args[0].op == "not":
            return self._prove(g.args[0].args[0], facts, depth)
        if g.op == "eq0":
            return self.prove_eq(g.args[0], facts, depth)
        if g.op == "not" and g.args[0].op == "eq0":
            return self.prove_rel("ne", g.args[0].args[0], facts, depth)
        if g.op == "gt0":
            return self.prove_rel("gt", g.args[0], facts, depth)
        if g.op == "not" and g.args[0].op == "gt0":
            return self.prove_rel("le", g.args[0].args[0], facts, depth)
        d = self.decide(g, facts, self.z3_ms)
        if d: return True, "z3"
        return False, "boolean goal undecided"

    def conds(self, t, facts, p=None):
        """candidate split conditions occurring in t (outside binders)"""
        cnt = {}
        if p is not None:
            for m in p:
                for a, e in m:
                    if a.op == "ind": cnt[a.args[0]] = cnt.get(a.args[0], 0) + 1
        else:
            for x in subterms(t, stop=("sum", "S", "bmax", "bmin")):
                if x.op == "ite":
                    try: c = canon_cond(x.args[0])
                    except Unsupported: c = x.args[0]
                    for y in (c.args if c.op == "and" else (c,)):
                        y = y.args[0] if y.op == "not" else y
                        if y.op == "and": y = y.args[0]
                        if y.op == "not": y = y.args[0]
                        cnt[y] = cnt.get(y, 0) + 1
                elif x.op == "ind":
                    cnt[x.args[0]] = cnt.get(x.args[0], 0) + 1
        return cnt

    def pick(self, cnt):
        best = None
        for c, n in cnt.items():
            if any(v.startswith("#") for v in fv(c)): continue
            inner = sum(1 for x in subterms(c) if x.op in ("ite", "ind"))
            key = (inner, -n, len(subterms(c)), c.id)
            if best is None or key < best[0]: best = (key, c)
        return best[1] if best else None

    def prove_eq(self, t, facts, depth):
        STATS["poly"] += 1
        t = self.simp(t, facts)
        p = None
        try:
            with limit(1500 if depth < 6 else 6000):
                p = poly(t)
                if not p or ir.p_is_zero(p):
                    bump("normal-form"); return True, "normal-form"
                # use equality literals
                t2 = facts.apply_eqs(t)
                if t2 is not t:
                    t2 = self.simp(t2, facts)
                    p2 = poly(t2)
                    if not p2 or ir.p_is_zero(p2):
                        bump("normal-form"); return True, "normal-form"
                    t, p = t2, p2
        except ir.TooBig:
            p = None
        if depth > 24: return False, "split depth"
        c = self.pick(self.conds(t, facts, p)) or self.pick(self.conds(t, facts, None))
        if c is not None:
            r = self.split(c, facts, lambda f: self.prove_eq(t, f, depth + 1))
            return r
        # leaf
        if p is None:
            p = poly(t)
            if ir.p_is_zero(p): bump("normal-form"); return True, "normal-form"
        if p is not None:
            try:
                q = ir.clear_dens(p)
            except Unsupported:
                q = p
            g = p_term(q)
            if facts.list or self.ground:
                if self.check(facts.list, ()) == "unsat": bump("z3"); return True, "z3:infeasible"
            if len(q) < 400:
                r = self.check(facts.list, (not_(eq0(g)),), None, True)
                if r == "unsat": bump("z3"); return True, "z3"
                return False, "z3 %s at leaf; residual %s | case: %s" % (r, str(g)[:300], " AND ".join(str(x)[:600] for x in facts.list))
            return False, "nonzero residual with %d monomials" % len(q)
        return False, "normal form too large"

    def split(self, c, facts, k):
        if self.deadline and time.time() > self.deadline: raise Budget()
        STATS["splits"] += 1
        how = "case-split"
        for lit in (c, not_(c)):
            f2 = facts.add(self, lit)
            if f2 is None: continue
            ok, w = k(f2)
            if not ok: return False, w
            how = w
        return True, how

    def prove_rel(self, rel, t, facts, depth):
        key = (rel, t.id, facts.key)
        if key in self.rel_memo: return True, self.rel_memo[key]
        r = self._prove_rel(rel, t, facts, depth)
        if r[0]: self.rel_memo[key] = r[1]
        return r

    def _prove_rel(self, rel, t, facts, depth):
        """rel in gt (t>0), le (t<=0), ne (t!=0)"""
        t = self.simp(t, facts)
        if rel == "le":
            if raw_neg_sos(t): bump("sign"); return True, "sign"
            fs = mul_factors(t)
            c = 1
            for f in fs:
                if is_c(f): c = c * f.val
            nf = [f for f in fs if not is_c(f)]
            if c < 0 and len(nf) > 1 and all(f.op not in ("v", "app") for f in nf):
                if all(self.prove_rel("le", neg(f), facts, depth + 1)[0] for f in dict.fromkeys(nf)):
                    return True, "factors"

        def goal(u): return gt0(u) if rel == "gt" else not_(gt0(u)) if rel == "le" else not_(eq0(u))
        p = None
        try:
            p = poly(t)
            if not p:
                if rel == "le": bump("normal-form"); return True, "normal-form"
                t = const(0)
            elif set(p) == {()}:
                t = p_term(p)
                g = goal(t)
                if g is TRUE: bump("normal-form"); return True, "normal-form"
            elif ir.is_int_poly(p):
                cc = icond(goal(t))
                if cc is TRUE: bump("interval"); return True, "interval"
            if rel == "le" and self.syntactic_nonneg(p_scale(p, -ONE)): bump("sign"); return True, "sign"
        except ir.TooBig:
            p = None
        t2 = facts.apply_eqs(t)
        if t2 is not t: t = self.simp(t2, facts)
        us = [t]
        if p is not None and len(p) < 300 and t2 is t:
            us = [p_term(p), t] if len(p) <= 60 else [t, p_term(p)]
            if us[0] is us[1] or len(p) <= 12 and not any(x.op == 'ite' for x in subterms(t)): us = us[:1]
        for u in us[:1]:
            if self.lin_check(facts.list, (not_(goal(u)),)) == "unsat": bump("z3"); return True, "z3:linear"
        if p is not None and rel in ("gt", "le") and any(e < 0 for m in p for a, e in m):
            try: u = self.clear_pos(p, facts)
            except ir.TooBig: u = None
            if u is not None and self.lin_check(facts.list, (not_(goal(p_term(u))),)) == "unsat": bump("z3"); return True, "z3:linear"
        for u in us:
            r = self.check(facts.list, (not_(goal(u)),), self.z3_ms if depth else min(self.z3_ms, 2500))
            if r == "unsat": bump("z3"); return True, "z3"
        if depth > 14: return False, "split depth"
        c = self.pick(self.conds(t, facts, None))
        if c is not None:
            return self.split(c, facts, lambda f: self.prove_rel(rel, t, f, depth + 1))
        if p is not None and rel in ("gt", "le"):
            # clear denominators known positive
            u = self.clear_pos(p, facts)
            if u is not None:
                if self.lin_check(facts.list, (not_(goal(p_term(u))),)) == "unsat": bump("z3"); return True, "z3:linear"
                r = self.check(facts.list, (not_(goal(p_term(u))),), self.z3_ms)
                if r == "unsat": bump("z3"); return True, "z3"
        r = self.check(facts.list, (not_(goal(t)),), self.z3_ms, True)
        if r == "unsat": bump("z3"); return True, "z3"
        return False, "z3 %s at leaf %s" % (r, str(t)[:300])

    def syntactic_nonneg(self, p):
        for m, c in p.items():
            if c < 0: return False
            for a, e in m:
                if e == int(e) and int(e) % 2 == 0: continue
                if a.op == "S":
                    if not self.sum_nonneg(a): return False
                    continue
                if a.op in ("sqrt", "exp", "ind"): continue
                if ir.is_positive(a): continue
                f = self.arr_facts.get(a.val) if a.op in ("app", "v") else None
                if f and any(x is le(const(0), a) or x is gt0(a) for x in f(a)): continue
                return False
        return True

    def clear_pos(self, p, facts):
        for _ in range(6):
            neg = {}
            for m in p:
                for a, e in m:
                    if e < 0: neg[a] = min(neg.get(a, 0), e)
            if not neg: return p
            a = max(neg, key=lambda x: x.id)
            base = a.args[0] if a.op == "den" else a
            k = int(-neg[a])
            if k % 2 == 1:
                if self.lin_check(facts.list, (not_(gt0(base)),)) != "unsat" and self.decide(gt0(base), facts, 2000) is not True: return None
            bp = poly(base)
            out = {}
            for m, c in p.items():
                d = dict(m); e = d.pop(a, 0)
                mm = tuple(x for x in m if x[0] is not a)
                out = p_add(out, p_mul({mm: c}, ir.p_pow(bp, k + int(e))))
            p = out
        return p


def raw_neg_sos(t):
    """-t is syntactically a sum of squares"""
    if t.op == "c": return t.val <= 0
    if t.op == "add": return all(raw_neg_sos(a) for a in t.args)
    if t.op == "ite": return all(raw_neg_sos(a) for a in t.args[1:])
    if t.op == "mul":
        for i in (0, 1):
            if is_c(t.args[i]): return t.args[i].val <= 0 and ir.raw_sos(t.args[1 - i])
            if raw_neg_sos(t.args[i]) and ir.raw_sos(t.args[1 - i]): return True
    return False


def conj(c):
    return [y for x in c.args for y in conj(x)] if c.op == "and" else [c]


def mul_factors(t):
    out = []; st = [t]
    while st:
        x = st.pop()
        if x.op == "mul": st.extend(x.args)
        else: out.append(x)
    return out


def zval(v):
    try:
        if z3.is_int_value(v): return v.as_long()
        if z3.is_rational_value(v): return float(v.as_fraction())
        if z3.is_algebraic_value(v): return float(v.approx(20).as_fraction())
        if z3.is_true(v): return True
        if z3.is_false(v): return False
    except Exception:
        pass
    return None


def qdiv_(a, b): return ir.qdiv(a, b)


class Facts:
    """immutable set of assumed conditions"""

    def __init__(self, lst, lits=None, key=0, free=None):
        self.list = lst
        self.lits = lits if lits is not None else set()
        self.key = key
        self.free = free

    _keys = {}

    def add(self, pv, c):
        """returns None when the extended set is inconsistent (cheap check)"""
        try: cc = canon_cond(c)
        except Unsupported: cc = c
        if cc is FALSE: return None
        if cc is TRUE: return self
        z = icond(cc)
        if z is FALSE: return None
        k = (self.key, cc.id)
        nk = Facts._keys.setdefault(k, len(Facts._keys) + 1)
        lits = set(self.lits)
        lits.add(cc)
        if cc.op == "and": lits |= set(cc.args)
        f = Facts(self.list + [cc], lits, nk, self.free)
        try:
            if pv.check(f.list, (), 600) == "unsat": return None
        except Unsupported:
            pass
        return f

    def apply_eqs(self, t):
        for l in list(self.lits):
            if l.op != "eq0": continue
            p = poly(l.args[0])
            best = None
            for m, c in p.items():
                if len(m) == 1 and m[0][1] == 1 and m[0][0].op in ("app", "v", "S", "fn", "sqrt"):
                    a = m[0][0]
                    if any(x is a or any(y is a for y in subterms(x)) for mm in p if mm != m for x, _ in mm): continue
                    if best is None or a.id > best[0].id: best = (a, c, m)
            if best is None: continue
            a, c, m = best
            rhs = p_term(p_scale({k: v for k, v in p.items() if k != m}, ir.qdiv(-1, c)))
            t = mapterm(t, lambda x, a=a, rhs=rhs: rhs if x is a else None, {})
        return t


# ------------------------------------------------------------------------------------------ definedness
def definedness(t, limit=400):
    """obligations (path condition, condition) for every partial operation reachable in t"""
    order = sorted(subterms(t), key=lambda x: -x.id)
    paths = {t.id: {frozenset()}}
    obl = []

    def addpath(x, ps):
        cur = paths.setdefault(x.id, set())
        for p in ps:
            if any(q <= p for q in cur): continue
            for q in [q for q in cur if p <= q]: cur.discard(q)
            cur.add(p)
        if len(cur) > 12:
            inter = frozenset.intersection(*cur)
            paths[x.id] = {inter}
    for x in order:
        ps = paths.get(x.id)
        if ps is None: continue
        if x.op == "ite":
            c, a, b = x.args
            addpath(c, ps)
            addpath(a, {p | {c} for p in ps})
            addpath(b, {p | {not_(c)} for p in ps})
            continue
        need = None
        if x.op == "inv": need = not_(eq0(x.args[0]))
        elif x.op == "sqrt": need = le(const(0), x.args[0])
        elif x.op == "log": need = gt0(x.args[0])
        elif x.op == "pow":
            need = gt0(x.args[0])
            if is_c(x.args[1]) and x.args[1].val > 0: need = le(const(0), x.args[0])
        if need is not None and need is not TRUE and not (x.op in ("inv", "sqrt", "log") and ir.is_positive(x.args[0])):
            for p in ps: obl.append((and_(*p), need))
        for a in x.args: addpath(a, ps)
    return obl[:limit]
