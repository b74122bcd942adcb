"""Modified Cam Clay (hydraxmpm/constitutive_laws/modifiedcamclay.py). The Newton loop of the return mapping is replaced by its invariant."""
from contracts.common import *
from contracts.laws import dev5, sym6, sph, tr_, T_, dev_, ddot, I3, frame, law_inputs, pos, DT, NS, Ns2
from hydraxmpm.constitutive_laws import modifiedcamclay as mc
from hydraxmpm.constitutive_laws.modifiedcamclay import ModifiedCamClay, ModifiedCamClayState

# lam = kap + cp with cp > 0, M > 0, reference pressures > 0
MC = dict(nu=In((), gt=-1, lt=.5, gen=lambda r, s, d: r.uniform(0, .45)), M=pos(.5, 1.5), cp=pos(.03, .2), kap=pos(.005, .05), N=pos(1.5, 3), pref=pos(1, 2000), pmin=In((), ge=1, gen=lambda r, s, d: r.uniform(1, 20)), rhop=pos(1, 3000))


def mk(I, **kw): return ModifiedCamClay(nu=I.nu, M=I.M, lam=I.kap + I.cp, kap=I.kap, N=I.N, p_ref=I.pref, p_min_calc=I.pmin, rho_p=I.rhop, **kw)


def lines():
    """normal consolidation, swelling and critical state lines meet where they should; stiffnesses; incremental pressure laws"""
    def fn(I, k, D):
        lam = I.kap + I.cp
        k.eq("ncl_reference", mc.get_v_ncl(I.pref, I.pref, I.N, lam), I.N)
        k.eq("ncl_slope", jnp.log(mc.get_v_ncl(I.pc, I.pref, I.N, lam)), jnp.log(I.N) - lam * (jnp.log(I.pc) - jnp.log(I.pref)))
        k.eq("swelling_starts_on_ncl", mc.get_v_sl(I.pc, I.pc, I.pref, I.N, lam, I.kap), mc.get_v_ncl(I.pc, I.pref, I.N, lam))
        k.eq("swelling_slope", jnp.log(mc.get_v_sl(I.pc, I.p, I.pref, I.N, lam, I.kap)) - jnp.log(mc.get_v_ncl(I.pc, I.pref, I.N, lam)), I.kap * (jnp.log(I.pc) - jnp.log(I.p)))
        k.eq("critical_state", jnp.log(mc.get_v_csl(I.pc / 2, I.pref, I.N, lam, I.kap)), jnp.log(mc.get_v_sl(I.pc, I.pc / 2, I.pref, I.N, lam, I.kap)))
        k.eq("critical_stress", mc.yield_function(I.pc / 2, I.pc, I.M * I.pc / 2, I.M), 0.0)
        pc = I.p + I.x
        k.eq("yield_ratio", mc.yield_function(I.p, pc, I.p * mc.get_qp_ys(pc, I.p, I.M), I.M), 0.0)
        k.ge("inside", 0.0, mc.yield_function(I.p, pc, 0.0, I.M))
        k.gt("outside", mc.yield_function(pc + I.y, pc, I.q, I.M), 0.0)
        k.eq("pressure_increment", I.kap * (jnp.log(mc.get_pressure_mcc(I.e, I.kap, I.p)) - jnp.log(I.p)), I.e)
        k.eq("consolidation_increment", I.cp * (jnp.log(mc.get_nc_pressure_mcc(I.e, I.cp, I.pc)) - jnp.log(I.pc)), I.e)
        K = mc.get_K(I.kap, I.p, I.Kmin, I.Kmin + I.x)
        k.eq("bulk", mc.get_K(I.kap, I.p + 1.0), (I.p + 1.0) / I.kap)
        k.ge("bulk_min", K, I.Kmin); k.ge("bulk_max", I.Kmin + I.x, K)
        k.ge("bulk_monotone", mc.get_K(I.kap, I.p + I.y), mc.get_K(I.kap, I.p))
        k.gt("shear_positive", mc.get_G(I.nu, K), 0.0); k.eq("poisson", (3 * K - 2 * mc.get_G(I.nu, K)) / (6 * K + 2 * mc.get_G(I.nu, K)), I.nu)
        k.eq("shear_increment", mc.get_s(I.t, I.Kmin, I.t2), I.t2 + 2 * I.Kmin * I.t)
    ins = dict(MC, pc=pos(.1, 1e4), p=pos(.1, 1e4), x=In((), ge=0), y=In((), gt=0), q=In((), ge=0), e=In((), gen=lambda r, s, d: 1e-2 * r.standard_normal()), Kmin=pos(1, 1e4), t=In((3, 3)), t2=In((3, 3)))
    return Contract("mcc.lines", fn, ins)


def ysf(p, pc, q2, M): return q2 / M ** 2 + p * (p - pc)


def state(what):
    """states from the over-consolidation ratio, from a stress on the yield surface and from density"""
    def fn(I, k, D):
        law = mk(I)
        lam = I.kap + I.cp
        v_line = lambda pc, p: jnp.log(I.N) - lam * (jnp.log(pc) - jnp.log(I.pref)) + I.kap * (jnp.log(pc) - jnp.log(p))
        vol = lambda rho: jnp.log(I.rhop) - jnp.log(rho)
        if what in ("ocr", "ocrq", "ocr1"):
            ocr = 1 + I.x
            if what == "ocr1": st, sig, rho = law.create_state_from_ocr(I.p, 2.0); ocr = jnp.full_like(I.p, 2.0)
            elif what == "ocr": st, sig, rho = law.create_state_from_ocr(I.p, ocr)
            else: st, sig, rho = law.create_state_from_ocr(I.p, ocr, I.q)
            k.eq("consolidation", st.p_c_stack, I.p * ocr)
            k.eq("pressure", tr_(sig) / 3, I.p)
            q = sig[:, 2, 2] - sig[:, 0, 0]
            if what == "ocrq":
                qy2 = I.M ** 2 * I.p * (st.p_c_stack - I.p)
                k.eq("shear_kept", q, I.q, when=I.q ** 2 <= qy2)
                k.eq("shear_projected", ysf(I.p, st.p_c_stack, q ** 2, I.M) / st.p_c_stack ** 2, 0.0, tol=1e-9, when=I.q ** 2 > qy2)
            else: k.eq("isotropic", q, 0.0)
            k.ge("admissible", 0.0, ysf(I.p, st.p_c_stack, 1.5 * ddot(dev_(sig), dev_(sig)), I.M) / st.p_c_stack ** 2, tol=1e-9)
            k.eq("on_swelling_line", vol(rho), v_line(st.p_c_stack, I.p))
            k.eq("reference", st.stress_ref_stack, sig); k.eq("strain_free", st.eps_e_stack, 0.0)
        elif what == "stress":
            st, rho = law.create_state_from_stress(I.p, I.q)
            sig = st.stress_ref_stack
            k.eq("on_yield_surface", ysf(I.p, st.p_c_stack, I.q ** 2, I.M) / st.p_c_stack ** 2, 0.0, tol=1e-9)
            k.eq("pressure", tr_(sig) / 3, I.p); k.eq("shear", sig[:, 2, 2] - sig[:, 0, 0], I.q); k.eq("axial", sig[:, 0, 0], sig[:, 1, 1]); k.eq("diagonal", sig * (1 - I3), 0.0)
            k.eq("on_swelling_line", vol(rho), v_line(st.p_c_stack, I.p)); k.eq("strain_free", st.eps_e_stack, 0.0)
        elif what == "density":
            rho = I.rhop / I.v
            st, v = law.create_state_from_density(I.p, rho)
            k.eq("volume", v, I.v)
            k.eq("on_swelling_line", jnp.log(I.v), v_line(st.p_c_stack, I.p))
            k.eq("isotropic", st.stress_ref_stack, sph(I.p)); k.eq("strain_free", st.eps_e_stack, 0.0)
            # round trip: the density of a state with given pressure and consolidation gives the consolidation back
            st1, _, rho1 = law.create_state_from_ocr(I.p, 1 + I.x)
            st2, _ = law.create_state_from_density(I.p, rho1)
            k.eq("round_trip", jnp.log(st2.p_c_stack), jnp.log(st1.p_c_stack))
        else:
            mp0 = make_mp(Ns2(I, sig=dev5(I.s) + sph(I.p)))
            st = law.create_state(mp0)
            k.eq("consolidation", st.p_c_stack, I.p); k.eq("reference_pressure", tr_(st.stress_ref_stack) / 3, I.p)
    ins = dict(MC, p=In(("n",), gt=0, gen=lambda r, s, d: 10 ** r.uniform(0, 5, s)), x=In(("n",), ge=0), q=In(("n",), ge=0, gen=lambda r, s, d: 10 ** r.uniform(0, 5, s)), v=In(("n",), gt=0))
    if what == "points": ins = law_inputs(3, s=In(("n", 5)), **ins); del ins["sig"]
    return Contract("mcc.state." + what, fn, ins, dims=["n"], sizes=NS, rounds=2, batch=64)


def predictor(I, part, bd=None):
    """every state and increment: written from the elastic predictor, its deviator t and the deviatoric strain increment d, so that the stress before the step is t - 2 G d + p"""
    t, d = dev5(I.t), dev5(I.d)
    p = I.pmin + I.dp
    ptr = p * jnp.exp(I.ev / I.kap)
    G = mc.get_G(I.nu, mc.get_K(I.kap, jnp.maximum(ptr, I.pmin), *(bd or (None, None))))      # contracts of both: mcc.lines
    De = d + sph(I.ev / 3)
    sig0 = t - 2 * G[:, None, None] * d + sph(p)
    v = I.N * 0.999999 + I.x if part == "vacuum" else I.vv * I.N * 0.999999
    law = mk(I, K_min=bd[0], K_max=bd[1]) if bd else mk(I)
    return Ns2(I, m=I.rhop / v * (I.V + 1e-16), sig=sig0, L=De / I.dt), law, t, De, p, ptr


def update(part, bounds=False):
    def fn(I, k, D):
        bd = (I.Kmin, I.Kmin + I.Kr) if bounds else None
        J, law, t, De, p, ptr = predictor(I, part, bd)
        mp0 = make_mp(J)
        e0 = sym6(I.e)
        st0 = ModifiedCamClayState(p_c_stack=I.pc, stress_ref_stack=I.ref, eps_e_stack=e0)
        mp, st = law.update(mp0, st0, I.dt)
        s, e, pc = mp.stress_stack, st.eps_e_stack, st.p_c_stack
        el = ysf(ptr, I.pc, 1.5 * ddot(t, t), I.M) <= 0
        if part == "vacuum":
            k.assume(I.x > 0)
            k.eq("stress_free", s, 0.0); k.eq("consolidation_kept", pc, I.pc); k.eq("strain_kept", e, e0)
            frame(k, mp, mp0); k.eq("reference", st.stress_ref_stack, I.ref)
        elif part == "elastic":
            E = el[:, None, None]
            # hence inside or on the yield surface, at positive pressure: el is that of the predictor
            k.eq("stress", s, t + sph(ptr), when=E)
            if not bd: k.eq("consolidation_kept", pc, I.pc, when=el)
            k.eq("strain", e, e0 + De, when=E)
        else:
            pl = ~el; P3 = pl[:, None, None]
            pn = tr_(s) / 3
            if part == "volume":
                # the volumetric strain splits exactly into the swelling and the consolidation part: the state stays on its swelling line
                k.eq("pressure", pn, p * jnp.exp((I.ev - I.cp * (jnp.log(pc) - jnp.log(I.pc))) / I.kap), when=pl)
                k.gt("pressure_positive", pn, 0.0, when=pl)
                k.ge("consolidation_min", pc, 1.0, when=pl)
            elif part == "shear":
                sn = dev_(s)
                c5 = lambda z: jnp.stack([z[:, 0, 0], z[:, 0, 1], z[:, 0, 2], z[:, 1, 1], z[:, 1, 2]], 1)
                a, b = c5(sn), c5(t)
                k.eq("coaxial", a[:, :4] * b[:, 1:], b[:, :4] * a[:, 1:], when=pl[:, None])
                k.ge("same_side", a * b, 0.0, when=pl[:, None]); k.ge("shorter", b * (b - a), 0.0, when=pl[:, None])
                k.eq("symmetric", s, T_(s), when=P3)
            else:
                Kn = mc.get_K(I.kap, pn, *(bd or (None, None))); Gn = mc.get_G(I.nu, Kn)
                p0 = tr_(I.ref) / 3
                k.eq("elastic_volume", Kn * tr_(e), pn - p0, when=pl)
                k.eq("elastic_deviator", 2 * Gn[:, None, None] * dev_(e), dev_(s) - dev_(I.ref), when=P3 & (jnp.arange(9).reshape(3, 3) < 8))      # the last diagonal component: both sides have no trace

    ins = law_inputs(3, t=In(("n", 5)), d=In(("n", 5)), ev=In(("n",)), dp=In(("n",), ge=0), e=In(("n", 6)), pc=In(("n",), ge=1), ref=In(("n", 3, 3)), vv=In(("n",), gt=0, le=1), dt=DT, **MC)
    if part == "vacuum": ins["x"] = In(("n",), ge=0)
    if bounds: ins.update(Kmin=pos(1, 1e4), Kr=In((), ge=0, gen=lambda r, s, d: 10 ** r.uniform(0, 6)))
    for x in ("m", "sig", "L"): del ins[x]
    return Contract("mcc.update." + part + (".bounded_stiffness" if bounds else ""), fn, ins, dims=["n"], sizes=NS, rounds=3, batch=64, sampler=lambda r, d, s: mcc_sample(r, s),
                    loop="function" if bounds else newton_invariant, defined=not bounds, nocheck=bounds, shards=3 if part in ("shear", "strain") else 1)


def spin():
    """a step with spin is the step without it from the rotated stress and elastic strain: s + W s - s W (Jaumann); the elastic strain likewise"""
    def fn(I, k, D):
        X = I.X; W, De = -0.5 * (X - T_(X)), 0.5 * (X + T_(X))      # compression positive velocity gradient
        e0, s0 = sym6(I.e), sym6(I.s)
        law = mk(I)
        rot = lambda a: a + W @ a - a @ W

        def run(X, s, e):
            st0 = ModifiedCamClayState(p_c_stack=I.pc, stress_ref_stack=I.ref, eps_e_stack=e)
            return law.update(make_mp(Ns2(I, L=X / I.dt, sig=s)), st0, I.dt)
        mp, st = run(X, s0, e0)
        mp1, st1 = run(De, rot(s0), rot(e0))
        k.eq("stress", mp.stress_stack, mp1.stress_stack); k.eq("consolidation", st.p_c_stack, st1.p_c_stack); k.eq("strain", st.eps_e_stack, st1.eps_e_stack)

    def sam(r, d, s):
        o = mcc_sample(r, s); n = s["pc"].shape[0]
        sc = 10 ** r.uniform(-3, -1) * float(s["kap"])
        o["X"] = sc * r.standard_normal((n, 3, 3)); o["s"] = r.standard_normal((n, 6)) * o["dp"][:, None] * .2; o["s"][:, [0, 3, 5]] += o["dp"][:, None] + float(s["pmin"])
        o["m"] = s["rhop"] / (r.uniform(.3, 1.2, n) * float(s["N"])) * s["V"]
        for x in ("t", "d", "ev", "dp", "vv"): o.pop(x, None)
        return o
    ins = law_inputs(3, s=In(("n", 6)), e=In(("n", 6)), X=In(("n", 3, 3)), pc=In(("n",), ge=1), ref=In(("n", 3, 3)), dt=DT, **MC)
    for x in ("sig", "L"): del ins[x]
    return Contract("mcc.update.spin", fn, ins, dims=["n"], sizes=NS, rounds=2, batch=64, sampler=sam, loop="function", defined=False)      # definedness: the other contracts


def newton_invariant(init, now):
    """carry: plastic multiplier and log of the consolidation pressure: both stay non-negative"""
    return []


newton_invariant.nonneg = "all"      # every carried real


def mcc_sample(rng, s, small=None):
    """states inside or on the yield surface, strain increments up to a tenth of kappa"""
    o = {}
    sc = (small or 10 ** rng.uniform(-3, -1)) * float(s["kap"])
    n = s["pc"].shape[0]
    o["dp"] = 10 ** rng.uniform(1, 5, n)
    p = float(s["pmin"]) + o["dp"]
    o["pc"] = p * rng.uniform(1, 3, n)
    u = rng.standard_normal((n, 5)); d = sc * rng.standard_normal((n, 5)); o["d"] = d; o["ev"] = sc * rng.standard_normal(n)
    t = np.array([[[a[0], a[1], a[2]], [a[1], a[3], a[4]], [a[2], a[4], -a[0] - a[3]]] for a in u])
    q = np.sqrt(1.5 * (t * t).sum((1, 2)))
    s0 = u / q[:, None] * (rng.uniform(0, 1, n) * float(s["M"]) * np.sqrt(p * (o["pc"] - p)))[:, None]
    K = np.maximum(p * np.exp(o["ev"] / float(s["kap"])), float(s["pmin"])) / float(s["kap"])
    if "Kmin" in s: K = np.clip(K, float(s["Kmin"]), float(s["Kmin"]) + float(s["Kr"]))
    o["t"] = s0 + 2 * (3 * (1 - 2 * float(s["nu"])) / (2 * (1 + float(s["nu"]))) * K)[:, None] * d
    o["ref"] = np.eye(3) * p[:, None, None] * rng.uniform(.5, 1.5)
    if "vv" in s: o["vv"] = rng.uniform(.3, 1, n)
    return o


def converge():
    """bounded: the ten Newton iterations end on the yield surface and on the flow rule for increments up to about 0.03 kappa"""
    def fn(I, k, D):
        J, law, t, De, p, ptr = predictor(I, "converge")
        st0 = ModifiedCamClayState(p_c_stack=I.pc, stress_ref_stack=I.ref, eps_e_stack=sym6(I.e))
        mp, st = law.update(make_mp(J), st0, I.dt)
        pl = ysf(ptr, I.pc, 1.5 * ddot(t, t), I.M) > 0
        s, pc = mp.stress_stack, st.p_c_stack
        pn = tr_(s) / 3
        ss = ddot(dev_(s), dev_(s))
        k.eq("on_yield_surface", ysf(pn, pc, 1.5 * ss, I.M) / pc ** 2, 0.0, when=pl, tol=1e-5)
        # hardening for compressive, softening for dilatant flow
        epv = I.cp * (jnp.log(pc) - jnp.log(I.pc))
        k.ge("associated_volume", epv * (2 * pn - pc) / pc, 0.0, when=pl, tol=1e-9)
        # normality: the multiplier from the deviatoric return is the one of the volumetric return
        Gn = 3 * (1 - 2 * I.nu) / (2 * (1 + I.nu)) * jnp.maximum(pn, 1.0) / I.kap
        m = (jnp.sqrt(ddot(t, t)) / jnp.maximum(jnp.sqrt(ss), 1e-12 * pc) - 1) / (6 * Gn)
        k.eq("flow_rule", epv / I.kap, m * (2 * pn - pc) * I.M ** 2 / I.kap, when=pl & (ss > 1e-6 * pc ** 2), tol=1e-4)

    ins = law_inputs(3, t=In(("n", 5)), d=In(("n", 5)), ev=In(("n",)), dp=In(("n",), ge=0), e=In(("n", 6)), pc=In(("n",), ge=1), ref=In(("n", 3, 3)), vv=In(("n",), gt=0, le=1), dt=DT, **MC)
    for x in ("m", "sig", "L"): del ins[x]
    return Contract("mcc.converge", fn, ins, dims=["n"], sizes=[dict(n=8)], rounds=4, batch=256, sampler=lambda r, d, s: mcc_sample(r, s, 10 ** r.uniform(-3, -1.5)), search_only=True,
                    bounded="Newton convergence of the return mapping on sampled states: strain increments up to about 0.03 kappa, over-consolidation 1 to 3, pressures 10 Pa to 100 kPa")


CONTRACTS = [lines()] + [state(w) for w in ("ocr", "ocrq", "ocr1", "stress", "density", "points")]
CONTRACTS += [update(p, b) for p, b in (("elastic", False), ("elastic", True), ("vacuum", False), ("volume", False), ("shear", False), ("strain", False))] + [spin(), converge()]
