"""Element tests (hydraxmpm/element_tests): the single-point driver and the triaxial test."""
from contracts.common import *
from fractions import Fraction
from contracts.laws import tr_, T_, law_inputs, DT, LinearElasticLaw
from hydraxmpm.constitutive_laws.modifiedcamclay import ModifiedCamClay
from hydraxmpm.element_tests.driver import ElementTestDriver
from hydraxmpm.element_tests.triaxial_test import TriaxialTest

I3 = jnp.eye(3)
pos = lambda lo=.1, hi=5.: In((), gt=0, gen=lambda r, s, d: r.uniform(lo, hi))


class SpyLaw(ConstitutiveLaw):
    """law with a history variable; its update depends on the stress, the gradient, the deformation and the time step it is given"""
    requires_F_reset: bool = eqx.field(static=True, default=False)
    c: object = None

    def update(self, mp, st, dt):
        s = mp.stress_stack + dt * self.c * mp.L_stack + st[:, None, None] * mp.F_stack
        return eqx.tree_at(lambda m: m.stress_stack, mp, s), st + self.c * dt * mp.L_stack[:, 2, 2]

    def __init__(self, c): self.c, self.requires_F_reset = c, False


def one_step(law, mp, st, L, dt, F):
    """the specification of a step: F is the new deformation gradient"""
    t = eqx.tree_at(lambda m: (m.L_stack, m.F_stack), mp, (L, F))
    o, st2 = law.update(t, st, dt)
    return eqx.tree_at(lambda m: (m.stress_stack, m.volume_stack), t, (o.stress_stack, jnp.linalg.det(F) * mp.volume0_stack)), st2


def driver(n_sym):
    """one step: F' = increment * F, volume = det F' * reference volume, the law sees the new gradient and deformation; nothing else changes"""
    def fn(I, k, D):
        law = SpyLaw(I.cc)
        mp0 = make_mp(I)
        m3 = lambda A, B: sum(A[:, :, q, None] * B[:, None, q, :] for q in range(3))
        lin = m3(I3 - I.dt * I.Lin, I.F)
        ex = m3(jax.scipy.linalg.expm(-I.Lin * I.dt), I.F)
        cases = (("field_exact", ElementTestDriver(law), (), ex), ("field_linear", ElementTestDriver(law, True), (), lin), ("field_false", ElementTestDriver(law, is_F_linear_approx=False), (), ex),
                 ("arg_linear", ElementTestDriver(law, False), (True,), lin), ("arg_exact", ElementTestDriver(law, True), (False,), ex))
        for nm, drv, extra, F in cases:
            got, st = drv.step(mp0, I.st, I.Lin, I.dt, *extra)
            want, wst = one_step(law, mp0, I.st, I.Lin, I.dt, F)
            k.eq(nm + ".F", got.F_stack, F)
            k.eq(nm + ".volume", got.volume_stack, jnp.linalg.det(got.F_stack) * I.V0)
            k.eq(nm + ".L", got.L_stack, I.Lin)
            k.eq(nm + ".stress", got.stress_stack, want.stress_stack)
            k.eq(nm + ".history", st, wst)
            for f in ("position_stack", "velocity_stack", "force_stack", "mass_stack", "volume0_stack"): k.eq(nm + ".frame_" + f, getattr(got, f), getattr(mp0, f))
            for f in ("F_stack", "stress_stack", "volume_stack", "L_stack"): k.shape(nm + ".shape_" + f, getattr(got, f), getattr(mp0, f).shape)
    ins = law_inputs(3, Lin=In(("n", 3, 3)), st=In(("n",)), cc=In(()), dt=DT)
    return Contract("driver", fn, ins, dims=["n"], sizes=[dict(n=3), dict(n=1)], rounds=2, batch=48,
                    assumes=["jax.scipy.linalg.expm is the matrix exponential (library)"])


class Linearised(ElementTestDriver):
    """the real driver with the linearisation selected on every call"""
    def step(self, mp_state, law_state, L_input, dt): return ElementTestDriver.step(self, mp_state, law_state, L_input, dt, True)


def driver_of(law, lin): return Linearised(law) if lin else ElementTestDriver(law)


def point(I, dim=3):
    return make_mp(I)


def tri_inputs(**kw):
    ins = {q: (In((1,) + v.shape[1:], v.kind, v.ge, v.gt, v.le, v.lt, v.gen)) for q, v in law_inputs(3).items()}
    ins["F"] = In((1, 3, 3), gen=lambda r, s, d: np.eye(3)[None] + r.uniform(-.2, .2, s))
    ins["sig"] = In((1, 3, 3), gen=lambda r, s, d: r.uniform(-1, 1, s))
    u = lambda a, b: (lambda r, s, d: r.uniform(a, b, s))
    ins.update(st=In((1,), gen=u(-.05, .05)), cc=In((), gen=u(2, 3)), conf=In((), gen=u(-1, 1)), rate=In((), gen=lambda r, s, d: r.uniform(-1, 1)), dt=DT)
    ins.update(kw)
    return ins


def trajectory(undrained, lin, static=False, stride=1):
    """for any number of steps: snapshot t is the driver's step applied to snapshot t-1 with the prescribed axial rate; undrained steps
    have no volume change"""
    def fn(I, k, D):
        law = SpyLaw(I.cc)
        drv = driver_of(law, lin)
        N = D.N * stride
        test = TriaxialTest(solver=drv, confine=I.conf, axial_rate=I.rate, dt=I.dt, is_undrained=undrained, num_steps=N, num_newton_iters=3, stride=stride, start_static=static)
        mp0 = point(I)
        tr, st = test.run(mp0, I.st)
        for f in ("position_stack", "velocity_stack", "force_stack", "L_stack", "stress_stack", "F_stack"):
            k.shape("shape_" + f, getattr(tr, f), (D.N,) + getattr(mp0, f).shape[1:])
        k.shape("shape_volume", tr.volume_stack, (D.N,)); k.shape("shape_state", st, (D.N,))
        L = tr.L_stack
        off = 1 - I3
        w = None
        if static: w = jnp.broadcast_to((jnp.arange(D.N) > 0)[:, None, None], L.shape)
        k.eq("gradient_diagonal", L * off, 0.0, when=w)
        k.eq("axial_rate", L[:, 2, 2], I.rate, when=None if w is None else w[:, 0, 0])
        k.eq("lateral_equal", L[:, 0, 0], L[:, 1, 1], when=None if w is None else w[:, 0, 0])
        if undrained: k.eq("isochoric", tr_(L), 0.0, when=None if w is None else w[:, 0, 0])
        # first snapshot and recursion
        at = lambda o, t: eqx.tree_at(lambda m: (m.position_stack, m.mass_stack, m.velocity_stack, m.force_stack, m.volume_stack, m.volume0_stack, m.L_stack, m.stress_stack, m.F_stack),
                                      o, tuple(x[t] for x in (o.position_stack, o.mass_stack, o.velocity_stack, o.force_stack, o.volume_stack, o.volume0_stack, o.L_stack, o.stress_stack, o.F_stack)))

        def compare(tag, got, gst, prev, pst, L):
            # got, prev: stacks of single-point states; the law is applied to the stack as to that many points
            Ld = L * I3          # diagonal, by the obligations above
            F = prev.F_stack
            for _ in range(stride):
                E = I3 - I.dt * Ld if lin else jax.scipy.linalg.expm(-Ld * I.dt)
                F = sum(E[:, :, q, None] * prev.F_stack[:, None, q, :] for q in range(3))
                prev, pst = one_step(law, prev, pst, L, I.dt, F)
            k.eq(tag + ".F", got.F_stack, F)
            k.eq(tag + ".volume", got.volume_stack, jnp.linalg.det(got.F_stack) * prev.volume0_stack)
            k.eq(tag + ".stress", got.stress_stack, prev.stress_stack)
            k.eq(tag + ".history", gst, pst)
            for f in ("position_stack", "velocity_stack", "force_stack", "mass_stack", "volume0_stack"): k.eq(tag + ".frame_" + f, getattr(got, f), getattr(prev, f))
        head = at(tr, slice(0, 1)); nxt = at(tr, slice(1, None)); prv = at(tr, slice(0, D.N - 1))
        if static:
            for f in ("stress_stack", "F_stack", "L_stack", "volume_stack"): k.eq("start." + f, getattr(head, f), getattr(mp0, f))
            k.eq("start.history", st[:1], I.st)
        elif stride == 1 or undrained: compare("first", head, st[:1], mp0, I.st, head.L_stack)
        if stride == 1 or undrained: compare("next", nxt, st[1:], prv, st[:-1], nxt.L_stack)
        if undrained and not lin and stride == 1 and not static:
            k.eq("volume_constant", jnp.linalg.det(nxt.F_stack), jnp.linalg.det(prv.F_stack))
        if not lin:
            k.eq("axial_stretch", nxt.F_stack[:, 2, :], jnp.exp(-stride * I.rate * I.dt) * prv.F_stack[:, 2, :])
    nm = "triaxial.%s.%s%s%s" % ("undrained" if undrained else "drained", "linear" if lin else "exact", ".static" if static else "", ".stride%d" % stride if stride > 1 else "")
    return Contract(nm, fn, tri_inputs(), dims=["N"], sizes=[dict(N=2), dict(N=4)], rounds=1, batch=24, loop="sequence", dmin=2, nocheck=True,
                    assumes=["jax.scipy.linalg.expm is the matrix exponential (library); of a diagonal matrix: the diagonal of the exponentials",
                             "lax.scan iterates its body over the leading axis"])


def rate_arrays(which, undrained):
    """rates and time steps given per step: step i uses entry i"""
    N = 3

    def fn(I, k, D):
        law = SpyLaw(I.cc)
        R, T = (I.rates if "r" in which else I.rate), (I.dts if "t" in which else I.dt)
        test = TriaxialTest(solver=driver_of(law, True), confine=I.conf, axial_rate=R, dt=T, is_undrained=undrained, num_steps=N, num_newton_iters=3)
        tr, st = test.run(make_mp(I), I.st)
        cur, cst = make_mp(I), I.st
        for i in range(N):
            r = I.rates[i] if "r" in which else I.rate; t = I.dts[i] if "t" in which else I.dt
            x = tr.L_stack[i, 0, 0]
            L = jnp.zeros((1, 3, 3)).at[0, 0, 0].set(x).at[0, 1, 1].set(x).at[0, 2, 2].set(r)
            if undrained: k.eq("isochoric%d" % i, x, -r / 2)
            k.eq("gradient%d" % i, tr.L_stack[i], L[0])
            E = I3 - t * L
            F = sum(E[:, :, q, None] * cur.F_stack[:, None, q, :] for q in range(3))
            cur, cst = one_step(law, cur, cst, L, t, F)
            k.eq("F%d" % i, tr.F_stack[i], cur.F_stack[0]); k.eq("stress%d" % i, tr.stress_stack[i], cur.stress_stack[0])
            k.eq("history%d" % i, st[i], cst[0]); k.eq("volume%d" % i, tr.volume_stack[i], jnp.linalg.det(tr.F_stack[i]) * I.V0[0])
            if "t" in which: k.eq("strain%d" % i, test.axial_strain_stack[i], sum((I.rates[j] if "r" in which else I.rate) * (I.dts[j] if "t" in which else I.dt) for j in range(i + 1)))
    return Contract("triaxial.arrays.%s.%s" % (which, "undrained" if undrained else "drained"), fn,
                    tri_inputs(rates=In((N,), gen=lambda r, s, d: r.uniform(-1, 1, s)), dts=In((N,), gt=0, gen=lambda r, s, d: 10 ** r.uniform(-3, -1, s))), rounds=1, batch=24, loop="sequence", nocheck=True,
                    assumes=["three steps; every step is the same loop body (any number of steps: triaxial.* with scalar rates)"])


def strain(which, static, stride):
    """the reported axial strain is the accumulated axial strain of the snapshots"""
    N = 4

    def fn(I, k, D):
        R, T = (I.rates if "r" in which else I.rate), (I.dts if "t" in which else I.dt)
        test = TriaxialTest(solver=driver_of(SpyLaw(I.rate), True), confine=0.0, axial_rate=R, dt=T, is_undrained=True, num_steps=N, stride=stride, start_static=static)
        es = test.axial_strain_stack
        k.shape("shape", es, (N // stride,))
        inc = [(I.rates[i] if "r" in which else I.rate) * (I.dts[i] if "t" in which else I.dt) for i in range(N)]
        if static: inc[0] = 0.0
        want = jnp.stack([jnp.asarray(sum(inc[:i + 1])) for i in range(N)])[stride - 1::stride]
        for j in range(N // stride): k.eq("strain%d" % j, es[j] if es.ndim == 1 else es[j, 0], want[j])
    return Contract("strain.%s%s%s" % (which or "scalar", ".static" if static else "", ".stride%d" % stride if stride > 1 else ""), fn,
                    dict(rate=In((), gen=lambda r, s, d: r.uniform(-1, 1)), dt=DT, rates=In((N,), gen=lambda r, s, d: r.uniform(-1, 1, s)), dts=In((N,), gt=0, gen=lambda r, s, d: 10 ** r.uniform(-3, -1, s))),
                    rounds=1, batch=24)


def newton(k_it, pconst):
    """lateral stress control of a material with linear response: every Newton iteration reduces the distance to the target by the factor 0.2"""
    def fn(I, k, D):
        law = LinearElasticLaw(E=I.E, nu=I.nu)
        mp0 = make_mp(I); st0 = law.create_state(mp0)
        drv = driver_of(law, True)
        test = TriaxialTest(solver=drv, confine=I.conf, axial_rate=I.rate, dt=I.dt, is_p_constant=pconst, num_steps=1, num_newton_iters=k_it)
        tr, _ = test.run(mp0, st0)
        S = tr.stress_stack[0]
        L0 = jnp.zeros((1, 3, 3)).at[0, 2, 2].set(I.rate)
        z, _ = drv.step(mp0, st0, L0, I.dt)
        f = (lambda s: (s[0, 0] + s[1, 1] + s[2, 2]) / 3) if pconst else (lambda s: s[0, 0])
        k.eq("convergence", f(S) - I.conf, float(Fraction(1, 5 ** k_it)) * (f(z.stress_stack[0]) - I.conf))
        k.eq("axial", tr.L_stack[0, 2, 2], I.rate); k.eq("lateral", tr.L_stack[0, 0, 0], tr.L_stack[0, 1, 1])
    return Contract("triaxial.newton%d.%s" % (k_it, "p" if pconst else "sigma"), fn, tri_inputs(E=pos(), nu=In((), gt=-1, lt=.5)), rounds=1, batch=48, nocheck=True,
                    assumes=["Newton iteration on a law with linear response (LinearElasticLaw); nonlinear laws: triaxial.target, bounded"])


def target(lawname, pconst, lin):
    """bounded: drained tests keep the confining stress (mean pressure) on its target at every snapshot"""
    def fn(I, k, D):
        if lawname == "elastic":
            law = LinearElasticLaw(E=1e5, nu=0.3)
            mp0 = MaterialPointState.create(position_stack=jnp.zeros((1, 3)), stress_stack=I.p0 * I3[None])
            st0 = law.create_state(mp0)
        else:
            law = ModifiedCamClay(nu=0.3, M=1.2, lam=0.1, kap=0.02, N=2.0, p_ref=1000.0, rho_p=2600.0, p_min_calc=1.0)
            st0, S, rho = law.create_state_from_ocr(I.p0 * jnp.ones(1), I.ocr * jnp.ones(1))
            mp0 = MaterialPointState.create(position_stack=jnp.zeros((1, 3)), stress_stack=S, density_stack=rho)
        test = TriaxialTest(solver=driver_of(law, lin), confine=I.p0, axial_rate=I.rate, dt=1e-3, is_p_constant=pconst, num_steps=20)
        tr, _ = test.run(mp0, st0)
        S = tr.stress_stack
        k.eq("target", (S[:, 0, 0] + S[:, 1, 1] + S[:, 2, 2]) / 3 if pconst else S[:, 0, 0], I.p0, tol=1e-5)
        k.eq("lateral_equal", S[:, 0, 0], S[:, 1, 1], tol=1e-6)
        k.true("finite", jnp.isfinite(S).all())
    return Contract("triaxial.target.%s.%s.%s" % (lawname, "p" if pconst else "sigma", "linear" if lin else "exact"), fn,
                    dict(p0=In((), gt=0, gen=lambda r, s, d: 10 ** r.uniform(4, 6)), ocr=In((), ge=1, gen=lambda r, s, d: r.uniform(1, 4)), rate=In((), gen=lambda r, s, d: r.uniform(.2, 1.) )),
                    rounds=1, batch=24, search_only=True, bounded="%s law, 20 steps of 1e-3, axial rates 0.2 to 1, confinement 1e4 to 1e6, overconsolidation 1 to 4, random samples" % lawname)


CONTRACTS = ([driver(True)] + [trajectory(u, l) for u in (True, False) for l in (True, False)]
             + [trajectory(True, False, True), trajectory(False, True, True), trajectory(True, False, stride=2), trajectory(False, False, stride=2)]
             + [rate_arrays(w, u) for w in ("r", "t", "rt") for u in (True, False)] + [newton(n, p) for n in (1, 2, 20) for p in (False, True)])
CONTRACTS += [strain(w, st, sd) for w in ("", "r", "t", "rt") for st, sd in ((False, 1), (True, 1), (False, 2))]
CONTRACTS += [target(l, p, q) for l in ("elastic", "mcc") for p in (False, True) for q in (False, True)]
