"""What one step touches (frames, indices, composition) and the limiters of the affine scheme."""
from contracts.common import *
from contracts.transfer import build, body_inputs, assume_cache, grid_inputs, solver_inputs, SCHEMES, SZ, CUT
from contracts.forces import StubSDF
from hydraxmpm.sdf.sdfobject import SDFObjectState
from hydraxmpm.solvers.usl_asflip import USLAFLIPState

FIELDS = ("position_stack", "velocity_stack", "force_stack", "mass_stack", "volume_stack", "volume0_stack", "L_stack", "F_stack", "stress_stack")


class SpyLaw(ConstitutiveLaw):
    """law with a history variable; its update depends on everything it is given"""
    requires_F_reset: bool = eqx.field(static=True, default=False)
    c: object = None
    box: object = eqx.field(static=True, default=None)

    def update(self, mp, st, dt):
        if self.box is not None: self.box.seen = (mp, st, dt)
        s = mp.stress_stack + dt * self.c * mp.L_stack + st[:, None, None] * mp.F_stack
        return eqx.tree_at(lambda m: m.stress_stack, mp, s), st + self.c * mp.volume_stack

    def __init__(self, c, box=None, reset=False): self.c, self.box, self.requires_F_reset = c, box, reset


def run(scheme, I, dim, bodies, mps, laws, lst, sol, couplings, domains, forces=(), fst=(), sdfs=(), sst=(), kw=None):
    kw = dict(dict(use_dynamic_alpha=False) if scheme == "aflip" else {}, **(kw or {}))
    solver = (USLSolver if scheme == "usl" else USLAFLIP)(grid_domains=tuple(domains), constitutive_laws=tuple(laws), couplings=tuple(couplings), forces=tuple(forces),
                                                           sdf_logics=tuple(sdfs), alpha=I.alpha, **kw)
    st = SimState(world=WorldState(material_points=tuple(mps), sdfs=tuple(sst)), mechanics=MechanicsState(constitutive_laws=tuple(lst), solvers=tuple(sol), forces=tuple(fst)),
                  time=I.time, step=I.step, dt=I.dt)
    return solver(st), st


def cpl(I, s, dim, p, g, c, so, skip=False):
    return BodyCoupling(shape_map=StubMap(make_cache(I["h" + s], I["N" + s], I["G" + s], I["d" + s]), dim, I["N" + s].shape[1]), p_idx=p, g_idx=g, c_idx=c, s_idx=so, skip_mpm_logic=skip)


def base_inputs(scheme, dim, sfx, Ms):
    ins = dict(hh=In((), gt=0, gen=lambda r, s, d: r.uniform(.05, 2)), dt=In((), gt=0, gen=lambda r, s, d: r.uniform(1e-3, .1)), alpha=In((), ge=0, le=1), time=In(()), step=In((), "I", ge=0))
    dims, sz, sam = [], {}, []
    for j, s in enumerate(sfx):
        ins.update(body_inputs(scheme, dim, s, "n" + s, "w", Ms[j]))
        ins["st" + s] = In(("n" + s,)); ins["c" + s] = In(())
        dims += ["n" + s]; sz["n" + s] = 2 + j; sam.append(normalise_cache(s, dim))
        for M in [Ms[j]]:
            if M not in dims: dims.append(M); sz[M] = 4 + j
    return ins, dims + ["w"], dict(sz, w=4), sam


def same_points(k, tag, a, b, fields=FIELDS):
    for f in fields: k.eq(tag + f, getattr(a, f), getattr(b, f))


def frame_contract(scheme, dim, reset):
    """two coupled bodies on two grids with permuted indices, one uncoupled body, one skipped coupling of each kind: every body evolves as if it were alone"""
    def fn(I, k, D):
        A, B, U, S = (make_mp(I, s) for s in "abus")
        R = RigidMaterialPointState.create(position_stack=I.xr)
        dm = [abs_domain(dim, D.M0, I.hh), abs_domain(dim, D.M1, I.hh)]
        la, lb = SpyLaw(I.ca, reset=reset), SpyLaw(I.cb)
        sol = (lambda s: USLAFLIPState(Bp_stack=I["B" + s])) if scheme == "aflip" else (lambda s: None)
        out, st = run(scheme, I, dim, None, [B, U, A, R, S], [SpyLaw(I.cu), lb, la], [I.stu, I.stb, I.sta], [sol("u"), sol("a"), sol("b")],
                      [cpl(I, "a", dim, 2, 1, 2, 1), cpl(I, "s", dim, 4, 0, 0, 0, skip=True), cpl(I, "b", dim, 0, 0, 1, 2)], dm)
        if reset and dim == 2:       # the isotropic part of F exists
            o0, _ = run(scheme, I, dim, None, [A], [SpyLaw(I.ca)], [I.sta], [sol("a")], [cpl(I, "a", dim, 0, 0, 0, 0)], [dm[1]])
            k.assume(jnp.linalg.det(o0.world.material_points[0].F_stack) > 0)
        oa, _ = run(scheme, I, dim, None, [A], [la], [I.sta], [sol("a")], [cpl(I, "a", dim, 0, 0, 0, 0)], [dm[1]])
        ob, _ = run(scheme, I, dim, None, [B], [lb], [I.stb], [sol("b")], [cpl(I, "b", dim, 0, 0, 0, 0)], [dm[0]])
        w, me = out.world.material_points, out.mechanics
        same_points(k, "a_", w[2], oa.world.material_points[0]); same_points(k, "b_", w[0], ob.world.material_points[0])
        k.eq("history_a", me.constitutive_laws[2], oa.mechanics.constitutive_laws[0]); k.eq("history_b", me.constitutive_laws[1], ob.mechanics.constitutive_laws[0])
        k.eq("history_other", me.constitutive_laws[0], I.stu)
        if scheme == "aflip":
            k.eq("affine_a", me.solvers[1].Bp_stack, oa.mechanics.solvers[0].Bp_stack); k.eq("affine_b", me.solvers[2].Bp_stack, ob.mechanics.solvers[0].Bp_stack)
            k.eq("affine_other", me.solvers[0].Bp_stack, I.Bu)
        same_points(k, "uncoupled_", w[1], U)
        same_points(k, "skipped_", w[4], S, [f for f in FIELDS if f not in ("L_stack", "force_stack")])
        for f in ("position_stack", "velocity_stack", "mass_stack", "normal_stack"): k.eq("rigid_" + f, getattr(w[3], f), getattr(R, f))
        k.static("number_of_bodies", len(w) == 5 and len(me.constitutive_laws) == 3 and len(me.solvers) == 3)
        k.eq("time", out.time, I.time + I.dt); k.eq("step", out.step, I.step + 1); k.eq("dt", out.dt, I.dt)
    ins, dims, sz, sam = base_inputs(scheme, dim, "abus", ["M1", "M0", "M0", "M0"])
    ins["xr"] = In(("nr", dim))

    def sam2(rng, dims, s): return {"F" + x: np.eye(3) + .1 * rng.standard_normal(s["F" + x].shape) for x in "abus"}
    return Contract("frame.%s.%dd%s" % (scheme, dim, ".reset" if reset else ""), fn, ins, dims=dims + ["nr"], sizes=[dict(sz, nr=2)], sampler=sampler(*sam, sam2), minor=["w"], assumes=[BASIS], rounds=1, batch=32)


def order_contract(scheme, dim):
    """bodies sharing a grid: the order of bodies and couplings does not matter"""
    def fn(I, k, D):
        A, B = make_mp(I, "a"), make_mp(I, "b")
        dm = [abs_domain(dim, D.M0, I.hh)]
        la, lb = SpyLaw(I.ca), SpyLaw(I.cb)
        sol = (lambda s: USLAFLIPState(Bp_stack=I["B" + s])) if scheme == "aflip" else (lambda s: None)
        o1, _ = run(scheme, I, dim, None, [A, B], [la, lb], [I.sta, I.stb], [sol("a"), sol("b")], [cpl(I, "a", dim, 0, 0, 0, 0), cpl(I, "b", dim, 1, 0, 1, 1)], dm)
        o2, _ = run(scheme, I, dim, None, [B, A], [lb, la], [I.stb, I.sta], [sol("b"), sol("a")], [cpl(I, "b", dim, 0, 0, 0, 0), cpl(I, "a", dim, 1, 0, 1, 1)], dm)
        for i in (0, 1):
            same_points(k, "body%d_" % i, o1.world.material_points[i], o2.world.material_points[1 - i])
            k.eq("history_%d" % i, o1.mechanics.constitutive_laws[i], o2.mechanics.constitutive_laws[1 - i])
    ins, dims, sz, sam = base_inputs(scheme, dim, "ab", ["M0", "M0"])
    return Contract("order.%s.%dd" % (scheme, dim), fn, ins, dims=dims, sizes=[sz, dict(sz, na=1)], sampler=sampler(*sam), minor=["w"], assumes=[BASIS], rounds=1, batch=32)


def stale_contract(scheme, dim):
    """forces and velocity gradients of the previous step have no influence; the law comes last, sees the advanced particle with the old stress, and its result is stored"""
    def fn(I, k, D):
        box = Box()
        A = make_mp(I, "a"); Z = eqx.tree_at(lambda m: (m.force_stack, m.L_stack), A, (jnp.zeros_like(I.fa), jnp.zeros_like(I.La)))
        dm = [abs_domain(dim, D.M0, I.hh)]
        sol = [USLAFLIPState(Bp_stack=I.Ba)] if scheme == "aflip" else [None]
        c = [cpl(I, "a", dim, 0, 0, 0, 0)]
        o, _ = run(scheme, I, dim, None, [A], [SpyLaw(I.ca, box)], [I.sta], sol, c, dm)
        mp, st, dt = box.seen
        o2, _ = run(scheme, I, dim, None, [Z], [SpyLaw(I.ca)], [I.sta], sol, c, dm)
        w = o.world.material_points[0]
        same_points(k, "stale_", w, o2.world.material_points[0])
        for f in FIELDS:
            if f != "stress_stack": k.eq("law_last_" + f, getattr(w, f), getattr(mp, f))
        k.eq("law_sees_old_stress", mp.stress_stack, I.siga); k.eq("law_dt", dt, I.dt); k.eq("law_history", st, I.sta)
        k.eq("stress_stored", w.stress_stack, I.siga + I.dt * I.ca * w.L_stack + I.sta[:, None, None] * w.F_stack)
        k.eq("history_stored", o.mechanics.constitutive_laws[0], I.sta + I.ca * w.volume_stack)
        k.eq("force_cleared", w.force_stack, 0.0)
    ins, dims, sz, sam = base_inputs(scheme, dim, "a", ["M0"])
    return Contract("stale.%s.%dd" % (scheme, dim), fn, ins, dims=dims, sizes=[sz, dict(sz, na=1)], sampler=sampler(*sam), minor=["w"], assumes=[BASIS], rounds=1, batch=32)


def sdf_contract(scheme, dim, one):
    """a rigid object that no force refers to does not influence the step; every object is moved by its own kinematics"""
    def fn(I, k, D):
        A = make_mp(I, "a")
        dm = [abs_domain(dim, D.M0, I.hh)]
        sol = [USLAFLIPState(Bp_stack=I.Ba)] if scheme == "aflip" else [None]
        c = [cpl(I, "a", dim, 0, 0, 0, 0)]
        sd = [StubSDF(M=D.M0, sd=I.sd0, nor=I.nor, vw=I.vw, mu=I.mu), StubSDF(M=D.M0, sd=I.sd1, nor=-I.nor, vw=I.vw, mu=I.mu)]
        ss = [SDFObjectState(center_of_mass=I.com[i], rotation=I.rot[i] if dim == 2 else jnp.array([1., 0, 0, 0]), velocity=I.vel[i], angular_velocity=I.om[i] if dim == 2 else jnp.zeros(3)) for i in (0, 1)]
        o, _ = run(scheme, I, dim, None, [A], [SpyLaw(I.ca)], [I.sta], sol, c, dm, sdfs=sd, sst=ss)
        o2, _ = run(scheme, I, dim, None, [A], [SpyLaw(I.ca)], [I.sta], sol, c, dm)
        same_points(k, "points_", o.world.material_points[0], o2.world.material_points[0])
        for i in (0, 1):
            q = o.world.sdfs[i]
            k.eq("center_%d" % i, q.center_of_mass, I.com[i] + I.dt * I.vel[i])
            if dim == 2: k.eq("angle_%d" % i, q.rotation, I.rot[i] + I.dt * I.om[i])
            k.eq("velocity_%d" % i, q.velocity, I.vel[i])
    ins, dims, sz, sam = base_inputs(scheme, dim, "a", ["M0"])
    ins.update(sd0=In(("M0",)), sd1=In(("M0",)), nor=In(("M0", dim)), vw=In(("M0", dim)), mu=In(("M0",)), com=In((2, dim)), vel=In((2, dim)), rot=In((2,)), om=In((2,)))
    if one:
        ins = {n: In(tuple(1 if x == "na" else x for x in i.shape), i.kind, i.ge, i.gt, i.le, i.lt, i.gen, i.scale) for n, i in ins.items()}
        dims = [d for d in dims if d != "na"]
    return Contract("sdf.%s.%dd%s" % (scheme, dim, ".one" if one else ""), fn, ins, dims=dims, sizes=[sz], sampler=sampler(*sam), minor=["w"], assumes=[BASIS], rounds=1, batch=32)


CONTRACTS = [frame_contract(s, d, r) for s in SCHEMES for d in (2, 3) for r in (False, True)]
CONTRACTS += [order_contract(s, d) for s in SCHEMES for d in (2, 3)] + [stale_contract(s, d) for s in SCHEMES for d in (2, 3)]
CONTRACTS += [sdf_contract(s, d, o) for s in SCHEMES for d in (2, 3) for o in (False, True)]


# ------------------------------------------------------------------------------------------------ limiters of the affine scheme
def limit_contract(dim, dyn):
    def fn(I, k, D):
        box = Box(); dom = abs_domain(dim, D.M, I.hh)
        kw = dict(use_dynamic_alpha=dyn, cfl_limit=I.cfl, beta_min=I.bmin, beta_max=I.bmax, alpha_support_min=I.smin, alpha_support_max=I.smin + I.sw)
        solver, state = build("aflip", I, dim, D.M, [("0", 0)], [Probe(box)], alpha=I.alpha, dt=I.dt, domains=[dom], solver_kw=kw)
        box.gmom = replace_grids(None, mass_stack=[I.mg], moment_stack=[I.pg], moment_nt_stack=[I.png])
        mp = solver(state).world.material_points[0]
        h, N = I.h0, I.N0
        mh = I.mg[h][..., None]
        vo = jnp.where(mh > 1e-7, I.pg[h] / jnp.where(mh > 1e-7, mh, 1.0), 0.0)
        vn = jnp.where(mh > 1e-7, I.png[h] / jnp.where(mh > 1e-7, mh, 1.0), 0.0)
        pic = (N[..., None] * vn).sum(1); old = (N[..., None] * vo).sum(1)
        # support ratio -> share of the incremented velocity
        ratio = (N * I.mg[h]).sum(1) / (I.m0 + 1e-9)
        share = jnp.clip((ratio - I.smin) / I.sw, 0.0, 1.0)[:, None] if dyn else 1.0
        a = I.alpha * share
        vb = pic + a * (I.v0 - old)
        lim = I.cfl * I.hh / I.dt
        sp = jnp.sqrt((vb ** 2).sum(1, keepdims=True))
        k.eq("clamped_blend", mp.velocity_stack, vb * jnp.minimum(1.0, lim / (sp + 1e-12)))
        if not dyn:       # with the support share: limit.lemma applied to the form just stated
            k.ge("cfl", (I.cfl * I.hh) ** 2, I.dt ** 2 * (mp.velocity_stack ** 2).sum(1))
            k.ge("no_gain", (vb ** 2).sum(1), (mp.velocity_stack ** 2).sum(1))
        if dyn:
            few = jnp.broadcast_to((ratio <= I.smin)[:, None] & (sp + 1e-12 <= lim), pic.shape)
            full = jnp.broadcast_to((ratio >= I.smin + I.sw)[:, None] & (sp + 1e-12 <= lim), pic.shape)
            k.eq("isolated_is_pic", mp.velocity_stack, pic, when=few)
            k.eq("supported_is_blend", mp.velocity_stack, pic + I.alpha * (I.v0 - old), when=full)
            k.ge("share_nonneg", a, 0.0); k.ge("share_bounded", I.alpha, a)
        # the separation correction is not limited by the support ratio, but off in compression for beta_min = 0
        J = mp.volume_stack / I.V00
        beta = jnp.where(jnp.linalg.det(mp.F_stack) < 1, I.bmin, I.bmax)[:, None]
        k.eq("position", mp.position_stack, I.x0 + I.dt * (pic + I.alpha * beta * (I.v0 - old)))
    ex = dict(cfl=In((), gt=0, gen=lambda r, s, d: 10 ** r.uniform(-2, 2)), bmin=In((), ge=0, le=1), bmax=In((), ge=0, le=1), smin=In((), ge=0, gen=lambda r, s, d: r.uniform(0, 2)), sw=In((), gt=0, gen=lambda r, s, d: r.uniform(.1, 2)))
    ex.update(grid_inputs(dim))
    ins = solver_inputs("aflip", dim, **ex)

    def sam(rng, dims, s):
        o = {"F0": np.eye(3) + .3 * rng.standard_normal(s["F0"].shape), "dt": np.float64(rng.uniform(1e-3, .1)), "m0": rng.uniform(.1, 1, s["m0"].shape)}
        for q in ("pg", "png", "v0"): o[q] = rng.standard_normal(s[q].shape)
        o["mg"] = np.where(rng.random(s["mg"].shape) < .2, 0.0, rng.uniform(.1, 3, s["mg"].shape))
        o["N0"] = rng.random(s["N0"].shape); o["N0"] /= o["N0"].sum(1, keepdims=True)
        o["pg"] *= o["mg"][:, None]; o["png"] *= o["mg"][:, None]
        return o
    return Contract("limit.%dd.%s" % (dim, "dynamic" if dyn else "fixed"), fn, ins, dims=["M", "n", "w"], sizes=SZ, sampler=sam, assumes=[BASIS], rounds=2, batch=64)


CONTRACTS += [limit_contract(d, y) for d in (2, 3) for y in (True, False)]


def limit_lemma(dim):
    """whatever the blend, the clamped form respects the limit and gains no speed"""
    def fn(I, k, D):
        sp = jnp.sqrt((I.vb ** 2).sum(1, keepdims=True))
        lim = I.cfl * I.hh / I.dt
        v = I.vb * jnp.minimum(1.0, lim / (sp + 1e-12))
        k.ge("cfl", (I.cfl * I.hh) ** 2, I.dt ** 2 * (v ** 2).sum(1))
        k.ge("no_gain", (I.vb ** 2).sum(1), (v ** 2).sum(1))
    ins = dict(cfl=In((), gt=0, gen=lambda r, s, d: 10 ** r.uniform(-2, 2)), hh=In((), gt=0), dt=In((), gt=0, gen=lambda r, s, d: r.uniform(1e-3, .1)), vb=In(("n", dim)))
    return Contract("limit.lemma.%dd" % dim, fn, ins, dims=["n"], sizes=[dict(n=3)])


CONTRACTS += [limit_lemma(d) for d in (2, 3)]
