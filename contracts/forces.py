"""Forces (hydraxmpm/forces) observed through the public step: gravity, local damping, rigid colliders."""
from contracts.common import *
from contracts.transfer import build, body_inputs, assume_cache, SCHEMES, SZ
from hydraxmpm.forces.gravity import Gravity
from hydraxmpm.forces.damping import Damping
from hydraxmpm.forces.sdf_collider import SDFCollider
from hydraxmpm.sdf.sdfobject import SDFObjectBase, SDFObjectState

POS = dict(hh=In((), gt=0, lt=1e9, gen=lambda r, s, d: r.uniform(.05, 2)), dt=In((), gt=0, gen=lambda r, s, d: r.uniform(1e-3, .1)))


def two_grids(scheme, dim, extra):
    ins = dict(POS); dims = []; sz = {}; sam = []
    for s in "01":
        ins.update(body_inputs(scheme, dim, s, "n" + s, "w", "M" + s))
        dims += ["M" + s, "n" + s]; sz.update({"M" + s: 4 + int(s), "n" + s: 3 - int(s)}); sam.append(normalise_cache(s, dim))
    ins.update(extra)
    return ins, dims + ["w"], [dict(sz, w=3)], sam


class Seq:
    """two probes around a force under test: grids/world before and after the force at each hook"""
    def __init__(self): self.a, self.b = Box(), Box()
    def around(self, *f): return [Probe(self.a), *f, Probe(self.b)]


def gravity_contract(scheme, dim, on_grid, listed):
    def fn(I, k, D):
        q = Seq()
        gr = Gravity(is_apply_on_grid=on_grid, g_idx_list=listed, p_idx_list=listed, f_idx=1)
        doms = [abs_domain(dim, D.M0, I.hh), abs_domain(dim, D.M1, I.hh)]
        fst = (None, gr.create_state(I.g))
        solver, state = build(scheme, I, dim, None, [("0", 0), ("1", 1)], q.around(gr), dt=I.dt, domains=doms, forces_states=fst)
        out = solver(state)
        for b in (0, 1):
            M = [D.M0, D.M1][b]; s = str(b)
            assume_cache(k, I, s, dim, lin=scheme == "aflip", gsum=True)
            ga, gb = q.a.p2g[b], q.b.p2g[b]
            wa, wb = q.a.world_pre.material_points[b], q.b.world_pre.material_points[b]
            hit = b in listed
            m = I["m" + s]
            k.eq("grid_force_%d" % b, gb.force_stack, ga.force_stack + (ga.mass_stack[:, None] * I.g if hit and on_grid else 0.0))
            k.eq("point_force_%d" % b, wb.force_stack, m[:, None] * I.g * (1.0 if hit and not on_grid else 0.0))
            # whatever the route, the momentum a body gains in the step from gravity is dt * (total mass) * g
            nt = q.a.mom[b]
            k.eq("impulse_%d" % b, (nt.moment_nt_stack - nt.moment_stack).sum(0), I.dt * m.sum() * I.g * (1.0 if hit else 0.0))
            for nm in ("mass_stack", "moment_stack"):
                k.eq("grid_%s_unchanged_%d" % (nm, b), getattr(gb, nm), getattr(ga, nm))
            for nm in ("position_stack", "velocity_stack", "mass_stack", "stress_stack"):
                k.eq("point_%s_unchanged_%d" % (nm, b), getattr(wb, nm), getattr(wa, nm))
        k.eq("state_kept", out.mechanics.forces[1].gravity, I.g)
        k.shape("point_force_shape", q.b.world_pre.material_points[0].force_stack, I.f0.shape)
    ins, dims, sz, sam = two_grids(scheme, dim, dict(g=In((dim,))))
    for s in "01": ins["sig" + s] = In(("n" + s, 3, 3))
    return Contract("gravity.%s.%dd.%s.%s" % (scheme, dim, "grid" if on_grid else "points", "".join(map(str, listed))), fn, ins, dims=dims, sizes=sz,
                    sampler=sampler(*sam), minor=["w"], assumes=[BASIS], rounds=1, batch=64)


def damping_contract(dim, on_grid, listed=(1,)):
    """F' = F + D with |D| = a |F| against the motion: no positive power, never reverses the force for a <= 1, zero at rest"""
    listed = list(listed)
    def fn(I, k, D):
        q = Seq()
        da = Damping(is_apply_on_grid=on_grid, g_idx_list=listed, p_idx_list=listed, f_idx=1)
        doms = [abs_domain(dim, D.M0, I.hh), abs_domain(dim, D.M1, I.hh)]
        fst = (None, eqx.tree_at(lambda s: s.alpha, da.create_state(0.5), I.a))
        q.a.pre = lambda wo, me, sc: (eqx.tree_at(lambda z: tuple(m.force_stack for m in z.material_points), wo, (I.f0, I.f1)), me, sc)
        q.a.gforce = replace_grids(None, mass_stack=[I.mg0, I.mg1], moment_stack=[I.pg0, I.pg1], force_stack=[I.fg0, I.fg1])
        solver, state = build("usl", I, dim, None, [("0", 0), ("1", 1)], q.around(da), dt=I.dt, domains=doms, forces_states=fst)
        out = solver(state)
        for b in (0, 1):
            s = str(b)
            gb = q.b.p2g[b]; wb = q.b.world_pre.material_points[b]
            if on_grid: F, F2, v = I["fg" + s], gb.force_stack, I["pg" + s]
            else: F, F2, v = I["f" + s], wb.force_stack, I["v" + s]
            moving = jnp.where(I["mg" + s][:, None] > 0, True, False) if on_grid else jnp.ones(F.shape, bool)
            d = F2 - F
            if b in listed:
                k.eq("magnitude_%d" % b, d * d, (I.a * F) ** 2, when=jnp.broadcast_to(moving, F.shape) & (v != 0))
                k.ge("opposes_%d" % b, -d * v, 0.0)
                k.eq("zero_at_rest_%d" % b, F2, F, when=v == 0)
                k.ge("bounded_%d" % b, (I.a * F) ** 2, d * d)
                k.ge("never_reverses_%d" % b, F2 * F, 0.0, when=jnp.broadcast_to(I.a <= 1, F.shape))
            else:
                k.eq("untouched_%d" % b, F2, F)
            if on_grid:
                k.eq("grid_mass_unchanged_%d" % b, gb.mass_stack, I["mg" + s]); k.eq("grid_momentum_unchanged_%d" % b, gb.moment_stack, I["pg" + s])
                k.eq("points_untouched_%d" % b, wb.force_stack, I["f" + s])
            else:
                k.eq("velocity_unchanged_%d" % b, wb.velocity_stack, I["v" + s])
                k.eq("grid_untouched_%d" % b, gb.force_stack, I["fg" + s])
        k.eq("state_kept", out.mechanics.forces[1].alpha, I.a)
    ex = dict(a=In((), ge=0, gen=lambda r, s, d: r.uniform(0, 2)))
    for s in "01":
        z = lambda r, sh, d: r.standard_normal(sh) * (r.random(sh) < .8)
        ex.update({"mg" + s: In(("M" + s,), ge=0, gen=lambda r, sh, d: abs(z(r, sh, d))), "pg" + s: In(("M" + s, dim), gen=z), "fg" + s: In(("M" + s, dim), gen=z)})
    ins, dims, sz, sam = two_grids("usl", dim, ex)
    return Contract("damping.%dd.%s" % (dim, "grid" if on_grid else "points"), fn, ins, dims=dims, sizes=sz, sampler=sampler(*sam), minor=["w"], assumes=[BASIS],
                    rounds=1, batch=64)


class StubSDF(SDFObjectBase):
    """arbitrary shape: its distances, normals, wall velocities and frictions at the nodes are the declared inputs"""
    M: object = eqx.field(static=True)
    sd: object; nor: object; vw: object; mu: object

    def _pick(self, X, a):
        return a if X.shape[0] == self.M else jnp.zeros((X.shape[0],) + a.shape[1:])

    def get_signed_distance_stack(self, st, X): return self._pick(X, self.sd)
    def get_normal_stack(self, st, X): return self._pick(X, self.nor)
    def get_velocity_stack(self, st, X, dt): return self._pick(X, self.vw)
    def get_surface_friction_stack(self, st, X): return self._pick(X, self.mu)


def collider_contract(scheme, dim, frictionless=False):
    """rigid body contact at the grid nodes, for any shape and any grid momenta"""
    def fn(I, k, D):
        q = Seq()
        M = D.M1
        stub = StubSDF(M=M, sd=I.sd, nor=I.nor, vw=I.vw, mu=I.mu)
        other = StubSDF(M=M, sd=I.sd2, nor=I.nor, vw=I.vw * 0, mu=I.mu)
        col = SDFCollider(sdf_idx=1, g_idx_list=[1], friction=I.base)
        sst = tuple(SDFObjectState(center_of_mass=jnp.zeros(dim), rotation=0.0 if dim == 2 else jnp.array([1., 0, 0, 0]), velocity=jnp.zeros(dim),
                                   angular_velocity=0.0 if dim == 2 else jnp.zeros(3)) for _ in (0, 1))
        doms = [abs_domain(dim, D.M0, I.hh), abs_domain(dim, M, I.hh)]
        q.a.gmom = replace_grids(None, mass_stack=[I.mg0, I.mg1], moment_nt_stack=[I.pn0, I.pn1])
        kw = {} if scheme == "usl" else dict(use_dynamic_alpha=False)
        solver, state = build(scheme, I, dim, None, [("0", 0), ("1", 1)], q.around(col), dt=I.dt, domains=doms, sdfs=(other, stub), sdf_states=sst, solver_kw=kw)
        solver(state)
        g0, g1 = q.b.mom
        k.assume_eq(I.nor[:, 0] ** 2, 1.0 - (I.nor[:, 1:] ** 2).sum(1), name="unit_normal", rewrite=True)
        m = I.mg1; ok = m > 1e-14
        im = jnp.where(ok, 1.0 / jnp.where(ok, m, 1.0), 0.0)[:, None]
        v = I.pn1 * im; v2 = g1.moment_nt_stack * im
        contact = ok & (I.sd - I.hh <= 0)
        vr, vr2 = v - I.vw, v2 - I.vw
        un, un2 = (vr * I.nor).sum(1), (vr2 * I.nor).sum(1)
        mu = I.base * I.mu
        k.ge("no_penetration", un2, 0.0, when=contact)
        k.eq("normal_velocity", un2, jnp.maximum(un, 0.0), when=contact)
        k.eq("separating_untouched", g1.moment_nt_stack, I.pn1, when=jnp.broadcast_to((contact & (un >= 0))[:, None], v.shape))
        k.eq("outside_untouched", g1.moment_nt_stack, I.pn1, when=jnp.broadcast_to((ok & (I.sd - I.hh > 0))[:, None], v.shape))
        t, t2 = vr - un[:, None] * I.nor, vr2 - un2[:, None] * I.nor
        lim = mu * jnp.maximum(0.0, -un)
        # tangential velocity: t' = s t with 0 <= s <= 1 and |t| - |t'| <= mu * impulse
        tm = jnp.sqrt((t * t).sum(1))
        s = jnp.where(tm > 1e-12, 1.0 - jnp.minimum(tm, lim) / (tm + 1e-12), 1.0)
        k.eq("coulomb", t2, s[:, None] * t, when=jnp.broadcast_to(contact[:, None], v.shape))
        k.ge("limit_nonneg", lim, 0.0)
        if frictionless:
            k.assume(I.base == 0)
            k.eq("free_slip", t2, t, when=jnp.broadcast_to(contact[:, None], v.shape))
        k.eq("mass_unchanged", g1.mass_stack, m)
        k.eq("empty_node_stays_empty", g1.moment_nt_stack, 0.0, when=jnp.broadcast_to((m == 0)[:, None], v.shape))
        k.eq("other_grid_momentum", g0.moment_nt_stack, I.pn0); k.eq("other_grid_mass", g0.mass_stack, I.mg0)
        k.shape("momentum_shape", g1.moment_nt_stack, (M, dim))
    def unit(r, sh, d):
        a = r.standard_normal(sh); return a / np.linalg.norm(a, axis=1, keepdims=True)
    ex = dict(sd=In(("M1",)), sd2=In(("M1",)), nor=In(("M1", dim), gen=unit), vw=In(("M1", dim)), mu=In(("M1",), ge=0, gen=lambda r, s, d: r.uniform(0, 2, s)),
              base=In((), ge=0, gen=lambda r, s, d: r.choice([0.0, .3, 1.0])))
    for s in "01":
        ex.update({"mg" + s: In(("M" + s,), ge=0, gen=lambda r, sh, d: r.uniform(0, 2, sh) * (r.random(sh) < .8)), "pn" + s: In(("M" + s, dim))})
    ins, dims, sz, sam = two_grids(scheme, dim, ex)
    sam.append(lambda rng, dims, s: dict(base=0.0) if frictionless else {})
    return Contract("collider.%s.%dd%s" % (scheme, dim, ".slip" if frictionless else ""), fn, ins, dims=dims, sizes=[dict(M0=4, M1=7, n0=3, n1=2, w=4)], sampler=sampler(*sam), minor=["w"],
                    assumes=[BASIS, "wall normals have unit length (normal contracts)"], rounds=2, batch=64)


def coulomb_lemma():
    """what the collider postcondition t' = s t means: s in [0, 1], |t| - |t'| <= mu * impulse, sticking when |t| <= mu * impulse"""
    def fn(I, k, D):
        tm, lim = I.tm, I.lim
        s = jnp.where(tm > 1e-12, 1.0 - jnp.minimum(tm, lim) / (tm + 1e-12), 1.0)
        k.ge("no_reversal", s, 0.0); k.ge("no_gain", 1.0, s); k.ge("cone", lim, (1.0 - s) * tm)
        k.ge("sticking", 1e-12, s * tm, when=lim >= tm)
    return Contract("collider.coulomb_lemma", fn, dict(tm=In((), ge=0), lim=In((), ge=0)), rounds=1)


CONTRACTS = [coulomb_lemma()]
CONTRACTS += [gravity_contract(s, d, g, l) for s in SCHEMES for d in (2, 3) for g in (True, False) for l in ([1], [0, 1])]
CONTRACTS += [damping_contract(d, g) for d in (2, 3) for g in (True, False)]
CONTRACTS += [collider_contract(s, d) for s in SCHEMES for d in (2, 3)] + [collider_contract("usl", d, True) for d in (2, 3)]
