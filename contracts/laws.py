"""Constitutive laws (hydraxmpm/constitutive_laws): stress updates, state creation, critical time steps."""
from contracts.common import *
from hydraxmpm.constitutive_laws.linearelastic import LinearElasticLaw, LinearElasticState
from hydraxmpm.constitutive_laws.newtonfluid import NewtonFluid, NewtonFluidState
from hydraxmpm.constitutive_laws.mu_i_rheology import MuI_LC, MuIState
from hydraxmpm.constitutive_laws.druckerprager import DruckerPrager, DruckerPragerState

I3 = jnp.eye(3)
tr_ = lambda a: jnp.trace(a, axis1=-2, axis2=-1)
T_ = lambda a: jnp.swapaxes(a, -1, -2)
dev_ = lambda a: a - tr_(a)[..., None, None] / 3 * I3
ddot = lambda a, b: (a * b).sum((-1, -2))
sph = lambda p: p[..., None, None] * I3
FIELDS = ("position_stack", "velocity_stack", "force_stack", "mass_stack", "volume_stack", "volume0_stack", "L_stack", "F_stack")


def frame(k, mp, mp0, skip=()):
    """a law changes the stress only"""
    for f in FIELDS:
        if f not in skip: k.eq("frame_" + f, getattr(mp, f), getattr(mp0, f))
    k.shape("shape_stress", mp.stress_stack, mp0.stress_stack.shape)


def law_inputs(dim=3, **kw):
    ins = mp_inputs(dim); ins["L"] = In(("n", 3, 3)); ins.update(kw)
    return ins


pos = lambda lo=.1, hi=10.: In((), gt=0, gen=lambda r, s, d: r.uniform(lo, hi))
NS = [dict(n=3), dict(n=1)]
DT = In((), gt=0, gen=lambda r, s, d: 10 ** r.uniform(-4, -1))


# ------------------------------------------------------------------------------------------------ linear elasticity
def elastic(dim):
    def fn(I, k, D):
        law = LinearElasticLaw(E=I.E, nu=I.nu)
        mp0 = make_mp(I)
        st0 = law.create_state(mp0)
        mp, st = law.update(mp0, st0, I.dt)
        De = 0.5 * (I.L + T_(I.L)) * I.dt
        ds = mp.stress_stack - I.sig
        # isotropic Hooke law in terms of E and nu (compression positive strain and stress)
        k.eq("hooke", ds, I.E / (1 + I.nu) * (De + I.nu / (1 - 2 * I.nu) * sph(tr_(De))))
        # inverse: strain from stress
        k.eq("compliance", I.E * De, (1 + I.nu) * ds - I.nu * sph(tr_(ds)))
        k.eq("symmetric", ds, T_(ds))
        k.eq("bulk", tr_(ds) / 3, law.K * tr_(De)); k.eq("shear", dev_(ds), 2 * law.G * dev_(De))
        k.eq("lame", law.lam, law.K - 2 * law.G / 3)
        k.ge("work_nonneg", law.K * tr_(De) ** 2 + 2 * law.G * ddot(dev_(De), dev_(De)), 0.0)
        k.eq("work", ddot(ds, De), law.K * tr_(De) ** 2 + 2 * law.G * ddot(dev_(De), dev_(De)))
        # path: two increments of the same gradient are one of the summed duration; reversal restores the stress
        mp2, _ = law.update(mp, st, I.dt2)
        one, _ = law.update(mp0, st0, I.dt + I.dt2)
        k.eq("increments_add", mp2.stress_stack, one.stress_stack)
        back, _ = law.update(eqx.tree_at(lambda m: m.L_stack, mp, -I.L), st, I.dt)
        k.eq("reversible", back.stress_stack, I.sig)
        spin, _ = law.update(eqx.tree_at(lambda m: m.L_stack, mp0, I.L - T_(I.L)), st0, I.dt)
        k.eq("rigid_rotation_no_stress", spin.stress_stack, I.sig)
        frame(k, mp, mp0)
        k.eq("state", st.stress_ref_stack, I.sig)
    return Contract("elastic.%dd" % dim, fn, law_inputs(dim, E=pos(), nu=In((), gt=-1, lt=.5), dt=DT, dt2=DT), dims=["n"], sizes=NS, rounds=2, batch=64)


def elastic_state():
    def fn(I, k, D):
        law = LinearElasticLaw(E=I.E, nu=I.nu)
        k.eq("zero_reference", law.create_state(density_stack=I.rho).stress_ref_stack, jnp.zeros((I.rho.shape[0], 3, 3)))
        k.eq("given_reference", law.create_state(stress_ref_stack=I.s).stress_ref_stack, I.s)
        k.eq("point_reference", law.create_state(make_mp(I)).stress_ref_stack, I.sig)
    return Contract("elastic.state", fn, law_inputs(3, E=pos(), nu=In((), gt=-1, lt=.5), rho=In(("n",), gt=0), s=In(("n", 3, 3))), dims=["n"], sizes=NS, rounds=1, batch=32)


# ------------------------------------------------------------------------------------------------ critical time step
def mk_law(name, I):
    if name == "elastic": return LinearElasticLaw(E=I.E, nu=I.nu), I.E * (1 - I.nu) / ((1 + I.nu) * (1 - 2 * I.nu))
    if name == "newton": return NewtonFluid(K=I.K, viscosity=I.mu, beta=I.beta), I.K * I.beta
    if name == "mui": return MuI_LC(mu_s=I.mus, mu_d=I.mud, I_0=I.I0, d_p=I.dp, K=I.K, rho_p=I.rhop, alpha=I.al), I.K
    return DruckerPrager(K=I.K, nu=I.nu, mu_1=I.m1), I.K + 4 / 3 * (3 * I.K * (1 - 2 * I.nu) / (2 * (1 + I.nu)))


LAWIN = dict(elastic=dict(E=pos(), nu=In((), gt=-1, lt=.5)), newton=dict(K=pos(), mu=pos(), beta=pos(1, 8)),
             mui=dict(K=pos(), mus=In((), gt=0, lt=1), mud=In((), gt=0, lt=2), I0=pos(.1, 1), dp=pos(.01, .1), rhop=pos(1, 3), al=pos(1e-6, 1e-3)),
             dp=dict(K=pos(), nu=In((), gt=-1, lt=.5), m1=In((), gt=0, lt=2)))


def dtcrit(name, dim):
    """courant number of every particle: dt (c_p + |v_p|) <= alpha h, and the bound is attained up to the 1e-9 guard"""
    def fn(I, k, D):
        law, M = mk_law(name, I)
        mp = make_mp(I)
        dt = law.get_dt_crit(mp, I.hh, I.a)
        rho = I.m / I.V if name != "dp" else I.m / (I.V + 1e-16)
        c = jnp.sqrt(M / rho); v = jnp.sqrt((I.v ** 2).sum(1))
        k.eq("value", dt, I.a * I.hh / (jnp.max(c + v) + 1e-9))
        k.gt("positive", dt, 0.0)
        k.shape("scalar", dt, ())
        k.ge("courant", I.a * I.hh, dt * (c + v))
    return Contract("dtcrit.%s.%dd" % (name, dim), fn, law_inputs(dim, hh=pos(), a=In((), gt=0, le=1), **LAWIN[name]), dims=["n"], sizes=NS, rounds=2, batch=64)


# ------------------------------------------------------------------------------------------------ accumulated shear
def shear_reset(dim, on):
    """the reset of the deformation gradient keeps its determinant (hence the volume) and removes all shear; off: nothing changes"""
    def fn(I, k, D):
        law = NoLaw(on)
        mp0 = make_mp(I)
        mp = law.remove_accumulated_shear(mp0)
        J = jnp.linalg.det(I.F)
        if dim == 2:
            k.assume_eq(I.F[:, 2, :], jnp.array([0., 0, 1]), rewrite=True); k.assume_eq(I.F[:, :2, 2], 0.0, rewrite=True)
        k.assume(J > 0)
        if on:
            off = 1 - I3
            k.eq("no_shear", mp.F_stack * off, 0.0)
            k.eq("isotropic", mp.F_stack[:, 0, 0], mp.F_stack[:, 1, 1])
            if dim == 2: k.eq("plane_strain", mp.F_stack[:, 2, 2], 1.0)
            else: k.eq("isotropic3", mp.F_stack[:, 0, 0], mp.F_stack[:, 2, 2])
            k.eq("det", mp.F_stack[:, 0, 0] * mp.F_stack[:, 1, 1] * mp.F_stack[:, 2, 2], J)
        else:
            k.eq("untouched", mp.F_stack, I.F)
        frame(k, mp, mp0, skip=("F_stack",))
        k.eq("stress", mp.stress_stack, I.sig); k.eq("history", mp.F_store_stack, I.Fs)

    def sam(rng, dims, s):
        F = np.eye(3) + .4 * rng.standard_normal(s["F"].shape)
        if dim == 2: F[:, 2, :] = [0, 0, 1]; F[:, :2, 2] = 0
        s = np.sign(np.linalg.det(F)); F[:, 0] *= s[:, None]
        return dict(F=F)
    ins = law_inputs(dim); ins["Fs"] = In(("n", 3, 3))
    return Contract("reset.%dd.%s" % (dim, "on" if on else "off"), fn, ins, dims=["n"], sizes=NS, sampler=sam, rounds=2, batch=64)


CONTRACTS = [elastic(2), elastic(3), elastic_state()] + [dtcrit(l, d) for l in LAWIN for d in (2, 3)] + [shear_reset(d, o) for d in (2, 3) for o in (True, False)]


# ------------------------------------------------------------------------------------------------ Newtonian fluid
def newton():
    def fn(I, k, D):
        law = NewtonFluid(K=I.K, viscosity=I.mu, beta=I.beta)
        I = Ns2(I, m=I.ratio * I.V * I.rho0)
        mp0 = make_mp(I)
        st0 = NewtonFluidState(density_ref_stack=I.rho0)
        mp, st = law.update(mp0, st0, I.dt)
        s = mp.stress_stack
        Dd = dev_(0.5 * (I.L + T_(I.L)))
        ratio = I.ratio
        p = tr_(s) / 3
        k.eq("deviator", dev_(s), 2 * I.mu * Dd)
        k.eq("symmetric", s, T_(s))
        k.eq("pressure_compressed", p, I.K * (ratio ** I.beta - 1), when=ratio >= 1)
        k.eq("no_tension", p, 0.0, when=ratio <= 1)
        k.ge("pressure_nonneg", p, 0.0)
        k.ge("dissipation", ddot(dev_(s), Dd), 0.0)
        frame(k, mp, mp0)
        k.eq("state", st.density_ref_stack, I.rho0)
    return Contract("newton.update", fn, law_inputs(3, K=pos(), mu=In((), ge=0), beta=In((), ge=1, gen=lambda r, s, d: r.uniform(1, 8)), dt=DT, rho0=In(("n",), gt=0),
                    ratio=In(("n",), gt=0, gen=lambda r, s, d: np.where(r.random(s) < .1, 1e-8, r.uniform(.7, 1.6, s)))), dims=["n"], sizes=NS, rounds=2, batch=64)


def newton_state(on):
    """the created state reproduces the given pressure at the given density, with no motion"""
    def fn(I, k, D):
        law = NewtonFluid(K=I.K, viscosity=I.mu, beta=I.beta)
        I = Ns2(I, p=I.K * (I.x ** I.beta - 1))       # every pressure >= 0 is of this form, x >= 1
        rho = I.m / I.V
        mp0 = make_mp(Ns2(I, L=jnp.zeros_like(I.L), sig=sph(I.p), V0=I.V))
        if on == "points": st = law.create_state(mp0)
        elif on == "pressure": st = law.create_state_from_density(density_stack=rho, pressure_stack=I.p)
        else: st = law.create_state_from_density(density_stack=rho)
        mp, _ = law.update(mp0, st, I.dt)
        k.shape("shape", st.density_ref_stack, I.p.shape)
        k.eq("equilibrium", mp.stress_stack, sph(I.p) if on != "density" else jnp.zeros_like(I.sig))
    return Contract("newton.state." + on, fn, law_inputs(3, K=pos(), mu=In((), ge=0), beta=In((), ge=1, gen=lambda r, s, d: r.uniform(1, 8)), dt=DT, x=In(("n",), ge=1, gen=lambda r, s, d: 1 + r.random(s) * (r.random() < .8))), dims=["n"], sizes=NS, rounds=2, batch=64)


# ------------------------------------------------------------------------------------------------ mu(I)
def mui():
    def fn(I, k, D):
        law = mk_law("mui", I)[0]
        mp0 = make_mp(I)
        st0 = MuIState(density_ref_stack=I.rho0)
        mp, st = law.update(mp0, st0, I.dt)
        s = mp.stress_stack
        Dd = dev_(0.5 * (I.L + T_(I.L)))
        ratio = I.m / I.V / I.rho0
        p = tr_(s) / 3
        con = ratio > 1; con3 = con[:, None, None]
        k.eq("disconnected_stress_free", s, 0.0, when=~con3)
        k.eq("pressure", p, I.K * (ratio - 1), when=con)
        k.ge("pressure_nonneg", p, 0.0)
        k.eq("symmetric", s, T_(s))
        # shear stress tau = mu(I) p along the shear rate, regularised static part
        gd2 = 2 * ddot(Dd, Dd); gd = jnp.sqrt(gd2)
        pe = jnp.where(con, I.K * (ratio - 1), 1.0)
        inertial = gd * I.dp / jnp.sqrt(pe / I.rhop)
        eta = pe * (I.mus / jnp.sqrt(gd2 + I.al ** 2) + (I.mud - I.mus) * I.dp / (I.I0 * jnp.sqrt(pe / I.rhop) + I.dp * gd))
        k.eq("coaxial", dev_(s), 2 * eta[:, None, None] * Dd, when=con3)
        k.ge("viscosity_nonneg", eta, 0.0)
        k.ge("dissipation", 2 * eta * ddot(Dd, Dd), 0.0)
        # lemmas: eta * gd = mu p with mu_s gd/sqrt(gd^2+a^2) + (mu_d-mu_s) I/(I0+I) <= mu_d
        k.eq("mu_of_I", eta * gd, pe * (I.mus * gd / jnp.sqrt(gd2 + I.al ** 2) + (I.mud - I.mus) * inertial / (I.I0 + inertial)))
        k.ge("bounded_static", 1.0, gd / jnp.sqrt(gd2 + I.al ** 2))
        k.ge("bounded_dynamic", 1.0, inertial / (I.I0 + inertial))
        frame(k, mp, mp0)
        k.eq("state", st.density_ref_stack, I.rho0)
    L = dict(LAWIN["mui"])

    def sam(rng, dims, s):
        return dict(m=s["rho0"] * s["V"] * rng.uniform(.7, 1.6, s["V"].shape), mud=np.asarray(s["mus"]) + abs(rng.standard_normal()))
    c = Contract("mui.update", fn, law_inputs(3, dt=DT, rho0=In(("n",), gt=0), **L), dims=["n"], sizes=NS, rounds=2, batch=64, sampler=sam)
    f0 = c.fn
    def fn2(I, k, D):
        k.assume(I.mud >= I.mus); f0(I, k, D)
    c.fn = fn2
    return c


def mui_state(on):
    def fn(I, k, D):
        law = mk_law("mui", I)[0]
        rho = I.m / I.V
        mp0 = make_mp(Ns2(I, L=jnp.zeros_like(I.L), sig=sph(I.p), V0=I.V))
        if on == "points": st = law.create_state(mp0)
        elif on == "pressure": st = law.create_state_from_density(density_stack=rho, pressure_stack=I.p)
        else: st = law.create_state_from_density(density_stack=rho)
        mp, _ = law.update(mp0, st, I.dt)
        k.shape("shape", st.density_ref_stack, I.p.shape)
        k.eq("equilibrium", mp.stress_stack, sph(I.p) if on != "density" else jnp.zeros_like(I.sig))
    return Contract("mui.state." + on, fn, law_inputs(3, dt=DT, p=In(("n",), gt=0), **LAWIN["mui"]), dims=["n"], sizes=NS, rounds=2, batch=64)


class Ns2:
    def __init__(self, base, **kw): self.__dict__.update(base.__dict__); self.__dict__.update(kw)
    def __getitem__(self, k): return self.__dict__[k]


CONTRACTS += [newton()] + [newton_state(o) for o in ("points", "pressure", "density")] + [mui()] + [mui_state(o) for o in ("points", "pressure", "density")]


# ------------------------------------------------------------------------------------------------ Drucker-Prager
DPIN = dict(K=In((), ge=1e-3, gen=lambda r, s, d: r.uniform(.1, 10)), nu=In((), gt=-1, lt=.5), m1=In((), gt=1e-3, lt=2), m2=In((), ge=0, gen=lambda r, s, d: r.uniform(0, 2) * (r.random() < .8)),
            c0=In((), ge=0, gen=lambda r, s, d: r.uniform(0, 1) * (r.random() < .7)), mh=In((), ge=0, gen=lambda r, s, d: r.uniform(0, 1) * (r.random() < .7)),
            H=In((), ge=0, gen=lambda r, s, d: r.uniform(0, 1) * (r.random() < .7)), rhoc=pos())


def mk_dp(I): return DruckerPrager(K=I.K, nu=I.nu, mu_1=I.m1, mu_2=I.m2, c0=I.c0, mu_1_hat=I.mh, H=I.H, rho_0=I.rhoc)


def nu_of(K, G): return (3 * K - 2 * G) / (2 * (3 * K + G))       # the Poisson ratio with shear modulus G: G > 0 <=> -1 < nu < 1/2


def sym6(a):
    """symmetric tensor of its six components (last axis)"""
    return jnp.stack([jnp.stack([a[..., 0], a[..., 1], a[..., 2]], -1), jnp.stack([a[..., 1], a[..., 3], a[..., 4]], -1), jnp.stack([a[..., 2], a[..., 4], a[..., 5]], -1)], -2)


def dev5(a):
    """traceless symmetric tensor of its five components"""
    return sym6(jnp.stack([a[..., 0], a[..., 1], a[..., 2], a[..., 3], a[..., 4], -a[..., 0] - a[..., 3]], -1))


def dp_trial():
    """the update depends on the motion only through the (Jaumann) trial elastic strain; the rest of the state is framed"""
    def fn(I, k, D):
        I = Ns2(I, m=I.rho * (I.V + 1e-16), nu=nu_of(I.K, I.G), L=I.X / I.dt)
        law = mk_dp(I)
        mp0 = make_mp(I)
        e0 = sym6(I.e)
        mp, st = law.update(mp0, DruckerPragerState(eps_e_stack=e0, eps_p_acc_stack=I.q, p_0_stack=I.p0), I.dt)
        W = -0.5 * (I.X - T_(I.X)); De = 0.5 * (I.X + T_(I.X))          # L is compression positive
        etr = e0 + W @ e0 - e0 @ W + De
        mp1, st1 = law.update(eqx.tree_at(lambda m: m.L_stack, mp0, jnp.zeros_like(I.X)), DruckerPragerState(eps_e_stack=etr, eps_p_acc_stack=I.q, p_0_stack=I.p0), I.dt)
        k.eq("stress", mp.stress_stack, mp1.stress_stack); k.eq("elastic_strain", st.eps_e_stack, st1.eps_e_stack)
        k.eq("hardening", st.eps_p_acc_stack, st1.eps_p_acc_stack)
        frame(k, mp, mp0); k.eq("reference_pressure", st.p_0_stack, I.p0)

    def sam(rng, dims, s):
        o = dp_sam(rng, dims, s)
        o["X"] = 10 ** rng.uniform(-3, 0) * rng.standard_normal(s["X"].shape)
        return o
    ins = law_inputs(3, rho=In(("n",), gt=0), e=In(("n", 6)), X=In(("n", 3, 3)), q=In(("n",), ge=0), p0=In(("n",)), dt=DT, G=pos(), **DPIN)
    for x in ("m", "L", "nu"): del ins[x]
    return Contract("dp.trial", fn, ins, dims=["n"], sizes=NS, rounds=2, batch=64, sampler=sam)


def dp_sam(rng, dims, s):
    o = {}
    o["rho"] = np.asarray(s["rhoc"]) * rng.uniform(.8, 1.6, s["rho"].shape)
    sc = 10 ** rng.uniform(-3, 0)
    o["e"] = sc * rng.standard_normal(s["e"].shape); o["p0"] = rng.uniform(0, 3, s["p0"].shape) * sc * float(s["K"])
    if "ev" in s: o["ev"] = sc * rng.standard_normal(s["ev"].shape)
    return o


def dp_update(part):
    """return mapping from an arbitrary trial elastic strain (dp.trial reduces every motion to this)"""
    def fn(I, k, D):
        # the bulk density and the shear modulus are inputs
        I = Ns2(I, m=I.rho * (I.V + 1e-16), nu=nu_of(I.K, I.G), L=jnp.zeros_like(I.F))
        law = mk_dp(I)
        mp0 = make_mp(I)
        ed = dev5(I.e); etr = ed + sph(I.ev / 3)
        st0 = DruckerPragerState(eps_e_stack=etr, eps_p_acc_stack=I.q, p_0_stack=I.p0)
        mp, st = law.update(mp0, st0, I.dt)
        s, e, q = mp.stress_stack, st.eps_e_stack, st.eps_p_acc_stack
        G = I.G
        con = I.rho >= I.rhoc
        c3 = con[:, None, None]
        ptr = I.K * I.ev + I.p0; strl = 2 * G * ed
        J2t = 0.5 * ddot(strl, strl); rt = jnp.sqrt(jnp.maximum(J2t, 1e-12))
        c = I.c0 + I.H * I.q
        f = rt - I.m1 * ptr - I.m2 * c
        p = tr_(s) / 3; c1 = I.c0 + I.H * q
        if part == "elastic":
            k.eq("disconnected_stress_free", s, 0.0, when=~c3); k.eq("disconnected_strain_free", e, 0.0, when=~c3)
            k.eq("disconnected_hardening_kept", q, I.q, when=~con)
            el = con & (f <= 0)
            k.eq("elastic_strain", e, etr, when=el[:, None, None]); k.eq("elastic_no_hardening", q, I.q, when=el)
            k.eq("elastic_stress", s, strl + sph(ptr), when=el[:, None, None])
            k.eq("stress_of_elastic_strain", s, 2 * G * dev_(e) + sph(I.K * tr_(e) + I.p0), when=c3)
        elif part == "admissible":
            # sqrt(J2') <= mu_1 p' + mu_2 c', equality after plastic flow
            lam = f / (G + I.K * I.m1 * I.mh + I.H * I.m2 ** 2)
            pl = con & (f > 0)
            cone = pl & (rt - G * lam >= 0); apex = pl & ~(rt - G * lam >= 0)
            c33 = cone[:, None, None]
            k.eq("cone_coaxial", dev_(s) * rt[:, None, None], strl * (rt - G * lam)[:, None, None], when=c33)
            k.eq("cone_on_surface", rt - G * lam, I.m1 * p + I.m2 * c1, when=cone)
            k.eq("cone_volumetric_flow", tr_(etr - e), -I.mh * lam, when=cone)
            k.eq("cone_hardening", q - I.q, I.m2 * lam, when=cone)
            k.ge("multiplier_nonneg", lam, 0.0, when=pl)
            k.ge("trial_norm", rt ** 2, J2t)
            k.eq("apex_no_shear", dev_(s), 0.0, when=apex[:, None, None])
            k.eq("apex_on_surface", I.m1 * p + I.m2 * c1, 0.0, when=apex)
            k.ge("apex_dilates", -(I.m1 * ptr + I.m2 * c), 0.0, when=apex)
        else:
            k.ge("hardening_monotone", q, I.q)
            k.ge("pressure_tension_cutoff", I.m1 * p + I.m2 * c1, 0.0, when=con)

    ins = law_inputs(3, rho=In(("n",), gt=0), e=In(("n", 5)), ev=In(("n",)), q=In(("n",), ge=0), p0=In(("n",)), dt=DT, G=pos(), **DPIN)
    for x in ("m", "L", "nu"): del ins[x]
    return Contract("dp.update." + part, fn, ins, dims=["n"], sizes=NS, rounds=3, batch=128, sampler=dp_sam)


def dp_state(what):
    """an admissible initial stress is reproduced, and rotates with a rigidly rotating body"""
    def fn(I, k, D):
        s0 = dev5(I.s); sig = s0 + sph(I.p)
        I = Ns2(I, m=I.rho * (I.V + 1e-16), nu=nu_of(I.K, I.G), sig=sig, L=jnp.zeros_like(I.F))
        law = mk_dp(I)
        st0 = law.create_state(I.sig)
        con = I.rho >= I.rhoc
        if what == "rest":
            k.eq("pressure", st0.p_0_stack, I.p); k.eq("no_hardening", st0.eps_p_acc_stack, 0.0)
            k.eq("elastic_deviator", 2 * I.G * st0.eps_e_stack, s0)
            still, _ = law.update(make_mp(I), st0, I.dt)
            f0 = jnp.sqrt(jnp.maximum(0.5 * ddot(s0, s0), 1e-12)) - I.m1 * I.p - I.m2 * I.c0
            k.eq("initial_stress_kept", still.stress_stack, I.sig, when=(con & (f0 <= 0))[:, None, None])
        else:
            w = I.w                # (incremental) spin of the body; L is minus the velocity gradient
            o = jnp.zeros_like(w[:, 0])
            W = jnp.stack([jnp.stack([o, -w[:, 2], w[:, 1]], -1), jnp.stack([w[:, 2], o, -w[:, 0]], -1), jnp.stack([-w[:, 1], w[:, 0], o], -1)], -2)
            rot, st = law.update(make_mp(Ns2(I, L=-W / I.dt)), st0, I.dt)
            sw = s0 + W @ s0 - s0 @ W
            fw = jnp.sqrt(jnp.maximum(0.5 * ddot(sw, sw), 1e-12)) - I.m1 * I.p - I.m2 * I.c0
            k.eq("rotates_with_body", rot.stress_stack, sw + sph(I.p), when=(con & (fw <= 0))[:, None, None])

    def sam(rng, dims, s):
        return dict(rho=np.asarray(s["rhoc"]) * rng.uniform(.9, 1.6, s["rho"].shape), s=.1 * rng.random() * rng.standard_normal(s["s"].shape), p=rng.uniform(0, 3, s["p"].shape), w=.2 * rng.standard_normal(s["w"].shape))
    ins = law_inputs(3, rho=In(("n",), gt=0), s=In(("n", 5)), p=In(("n",)), w=In(("n", 3)), dt=DT, G=pos(), **DPIN)
    for x in ("m", "L", "nu", "sig"): del ins[x]
    return Contract("dp.state." + what, fn, ins, dims=["n"], sizes=NS, rounds=3, batch=128, sampler=sam)


CONTRACTS += [dp_trial()] + [dp_update(p) for p in ("elastic", "admissible", "bounds")] + [dp_state(w) for w in ("rest", "spin")]
