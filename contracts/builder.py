"""Assembling a simulation (hydraxmpm/common/builder.py, grid/grid.py GridDomain.create, utils/generate_body.py).

The builder works on Python lists of objects: which object ends up at which index does not depend on array contents, so every configuration is
evaluated exactly (static obligations) for symbolic array contents; the enumeration of configurations is bounded."""
import itertools
from contracts.common import *
from contracts.step import SpyLaw
from hydraxmpm.common.builder import SimBuilder
from hydraxmpm.forces.gravity import Gravity
from hydraxmpm.forces.damping import Damping
from hydraxmpm.forces.sdf_collider import SDFCollider
from hydraxmpm.forces.gridcontact import GridContact
from hydraxmpm.sdf.sdfcollection import SphereSDF, PlaneSDF, BoxSDF
from hydraxmpm.constitutive_laws.linearelastic import LinearElasticLaw
from hydraxmpm.constitutive_laws.newtonfluid import NewtonFluid
from hydraxmpm.utils.generate_body import generate_particles_in_sdf

BOUND = "every listed configuration, up to 3 bodies, 2 grids, 2 laws, 2 rigid objects, 4 forces; array contents arbitrary"
pos = lambda *sh: In(sh, gt=0, gen=lambda r, s, d: r.uniform(.1, 5, s))


def inputs():
    return dict(xa=In(("n", 2)), xb=In(("m", 2)), xr=In(("q", 2)), va=In(("n", 2)), vb=In(("m", 2)), rhoa=pos("n"), rhob=pos("m"), Va=pos("n"), Vb=pos("m"),
                s0=In(("n",)), s1=In(("m",)), ca=In(()), cb=In(()), g1=In((2,)), g2=In((2,)), al=In(()), c1=In((2,)), c2=In((2,)), v1=In((2,)), w1=In(()), th=In(()))


SZ = [dict(n=3, m=2, q=4)]


def wiring(scheme, shard, shards):
    """returned indices name the same object in solver and state, whatever the order of the calls"""
    confs = []
    bo = list(itertools.permutations("ABR")); fo = list(itertools.permutations("gdpc")); co = list(itertools.permutations("ABR"))
    for i, (b, c) in enumerate(itertools.product(bo, co)): confs.append((b, c, fo[(7 * i + 3) % 24], i % 2, (i // 2) % 2, (i // 4) % 2))
    confs = confs[shard::shards]

    def one(I, k, D, tag, b_order, c_order, f_order, gswap, lswap, sswap):
        B = SimBuilder()
        dom = dict(G0=GridDomain.create((0., 0.), (4., 6.), 1.0, padding=1), G1=GridDomain.create((-1., -2.), (1., 2.), 0.5, padding=2))
        laws = dict(A=(SpyLaw(I.ca), I.s0), B=(SpyLaw(I.cb), I.s1))
        sdf = dict(S=(SphereSDF(1.0), dict(center_of_mass=I.c1, velocity=I.v1, angular_velocity=I.w1, rotation=I.th)), P=(PlaneSDF(jnp.array([0., 1.])), dict(center_of_mass=I.c2)))
        # bodies
        p, P = {}, dict(A=dict(position_stack=I.xa, velocity_stack=I.va, volume_stack=I.Va, density_stack=I.rhoa), B=dict(position_stack=I.xb, velocity_stack=I.vb, volume_stack=I.Vb, density_stack=I.rhob),
                        R=dict(position_stack=I.xr, is_rigid=True))
        for b in b_order: p[b] = B.add_material_points(**P[b])
        g = {}
        for d in (("G1", "G0") if gswap else ("G0", "G1")): g[d] = B.add_grid(grid_domain=dom[d])
        c = {}
        for l in ("BA" if lswap else "AB"): c[l] = B.add_constitutive_law(law=laws[l][0], law_state=laws[l][1])
        s = {}
        for o in ("PS" if sswap else "SP"): s[o] = B.add_sdf_object(sdf_logic=sdf[o][0], **sdf[o][1])
        bg = dict(A="G0", B="G1", R="G0")
        cp = {}
        for b in c_order: cp[b] = B.couple(p_idx=p[b], g_idx=g[bg[b]], c_idx=c.get(b), shapefunction={"A": "linear", "B": "cubic", "R": "quadratic"}[b])
        f = {}
        for q in f_order:
            if q == "g": f[q] = B.add_gravity(gravity=I.g1, g_idx_list=[g["G1"]])
            if q == "p": f[q] = B.add_gravity(gravity=I.g2, is_apply_on_grid=False, p_idx_list=[p["B"]])
            if q == "d": f[q] = B.add_damping(alpha=I.al, g_idx_list=[g["G0"]])
            if q == "c": f[q] = B.add_sdf_collider(sdf_idx=s["S"], g_idx_list=[g["G1"]], friction=0.25, gap=0.125)
        kw = dict(alpha=0.75)
        sid = B.set_solver(scheme=scheme, **kw)
        solver, st = B.build(time=1.5, step=7, dt=0.25)
        S = lambda nm, ok, d="": k.static(tag + nm, ok, d)
        S("solver_class", type(solver) is (USLSolver if scheme == "usl" else USLAFLIP)); S("solver_id", sid == 0); S("alpha", solver.alpha == 0.75)
        S("clock", st.time == 1.5 and st.step == 7 and st.dt == 0.25)
        S("counts", (len(st.world.material_points), len(st.world.sdfs), len(solver.grid_domains), len(st.mechanics.constitutive_laws), len(st.mechanics.forces), len(solver.couplings)) == (3, 2, 2, 2, 4, 3))
        mp = st.world.material_points
        for b, x in (("A", I.xa), ("B", I.xb), ("R", I.xr)): k.shape(tag + "body_shape", mp[p[b]].position_stack, x.shape); k.eq(tag + "body_position", mp[p[b]].position_stack, x)
        for b, v, r, V in (("A", I.va, I.rhoa, I.Va), ("B", I.vb, I.rhob, I.Vb)):
            k.eq(tag + "body_velocity", mp[p[b]].velocity_stack, v); k.eq(tag + "body_mass", mp[p[b]].mass_stack, r * V); k.eq(tag + "body_volume", mp[p[b]].volume_stack, V)
        S("rigid", type(mp[p["R"]]) is RigidMaterialPointState)
        for b in "ABR":
            cc = solver.couplings[cp[b]]
            S("coupling." + b, (cc.p_idx, cc.g_idx) == (p[b], g[bg[b]]), (cc.p_idx, cc.g_idx))
            S("kernel." + b, cc.shape_map.shapefunction == {"A": "linear", "B": "cubic", "R": "quadratic"}[b])
            S("skip." + b, bool(cc.skip_mpm_logic) == (b == "R"))
            if b == "R": S("rigid_no_law", cc.c_idx is None and cc.s_idx is None); continue
            S("grid." + b, solver.grid_domains[cc.g_idx] == dom[bg[b]])
            S("law." + b, solver.constitutive_laws[cc.c_idx] is laws[b][0])
            k.eq(tag + "history." + b, st.mechanics.constitutive_laws[cc.c_idx], laws[b][1])
            k.shape(tag + "history_shape." + b, st.mechanics.constitutive_laws[cc.c_idx], laws[b][1].shape)
            ss = st.mechanics.solvers[cc.s_idx]
            if scheme == "usl": S("solver_state." + b, type(ss) is type(solver.create_state(mp[p[b]])))
            else:
                k.shape(tag + "solver_state_shape." + b, ss.Bp_stack, (mp[p[b]].num_points, 3, 3)); k.eq(tag + "solver_state." + b, ss.Bp_stack, 0.0)
        F = solver.forces
        S("forces", all(type(F[f[q]]) is t for q, t in (("g", Gravity), ("p", Gravity), ("d", Damping), ("c", SDFCollider))))
        for q, w in (("g", I.g1), ("p", I.g2)):
            S("force_index." + q, F[f[q]].f_idx == f[q]); k.eq(tag + "gravity." + q, st.mechanics.forces[F[f[q]].f_idx].gravity, w)
        S("force_index.d", F[f["d"]].f_idx == f["d"]); k.eq(tag + "damping", st.mechanics.forces[F[f["d"]].f_idx].alpha, I.al)
        S("routes", F[f["g"]].is_apply_on_grid and not F[f["p"]].is_apply_on_grid and F[f["d"]].is_apply_on_grid)
        S("targets", list(F[f["g"]].g_idx_list) == [g["G1"]] and list(F[f["p"]].p_idx_list) == [p["B"]] and list(F[f["d"]].g_idx_list) == [g["G0"]] and list(F[f["c"]].g_idx_list) == [g["G1"]])
        S("collider", F[f["c"]].sdf_idx == s["S"] and F[f["c"]].base_friction == 0.25 and F[f["c"]].gap == 0.125)
        for o in "SP":
            S("sdf." + o, solver.sdf_logics[s[o]] is sdf[o][0])
            k.eq(tag + "sdf_position." + o, st.world.sdfs[s[o]].center_of_mass, sdf[o][1]["center_of_mass"])
        z = st.world.sdfs[s["S"]]
        k.eq(tag + "sdf_motion", jnp.concatenate([z.velocity, jnp.stack([z.angular_velocity, z.rotation])]), jnp.concatenate([I.v1, jnp.stack([I.w1, I.th])]))
        z = st.world.sdfs[s["P"]]
        k.eq(tag + "sdf_rest", jnp.concatenate([z.velocity, jnp.stack([jnp.asarray(z.angular_velocity), jnp.asarray(z.rotation)])]), 0.0)

    def fn(I, k, D):
        for j, cf in enumerate(confs): one(I, k, D, "c%d." % j, *cf)
    return Contract("wiring.%s.%d" % (scheme, shard), fn, inputs(), dims=["n", "m", "q"], sizes=SZ, rounds=1, batch=2, nocheck=True, bounded=BOUND)


def defaults(scheme):
    """omitted arguments: the last body, grid, law and rigid object, all grids and bodies; subsets of couplings and forces keep the global indices"""
    def fn(I, k, D):
        S = k.static
        B = SimBuilder()
        a = B.add_material_points(position_stack=I.xa, cell_size=2.0, ppc=8)
        g0 = B.add_grid(origin=(0., 0.), end=(4., 6.), cell_size=1.0, padding=1)
        g1 = B.add_grid(origin=(-1., -2.), end=(1., 2.), cell_size=0.5)
        l0 = B.add_constitutive_law(law=SpyLaw(I.ca), law_state=I.s0)
        c0 = B.couple()
        b = B.add_material_points(position_stack=I.xb, velocity_stack=I.vb)
        lw = SpyLaw(I.cb)
        l1 = B.add_constitutive_law(law=lw, law_state=I.s1)
        c1 = B.couple(g_idx=g0)
        sp = SphereSDF(1.0)
        s0, zs = B.add_sdf_object(sdf_logic=PlaneSDF(jnp.array([0., 1.])), center_of_mass=I.c2, return_state=True)
        given = sp.create_state(center_of_mass=I.c1, velocity=I.v1)
        s1 = B.add_sdf_object(sdf_logic=sp, sdf_state=given)
        f0 = B.add_gravity(gravity=I.g1); f1 = B.add_damping(alpha=I.al); f2 = B.add_sdf_collider(); f3 = B.add_gravity(gravity=I.g2, is_apply_on_grid=False)
        sid = B.set_solver(scheme=scheme)
        solver, st = B.build()
        S("indices", (a, b, g0, g1, l0, l1, c0, c1, s0, s1, f0, f1, f2, f3) == (0, 1, 0, 1, 0, 1, 0, 1, 0, 1, 0, 1, 2, 3))
        C = solver.couplings
        S("couple_last", (C[0].p_idx, C[0].g_idx, C[0].c_idx, C[0].s_idx) == (0, 1, 0, 0), str((C[0].p_idx, C[0].g_idx, C[0].c_idx)))
        S("couple_given", (C[1].p_idx, C[1].g_idx, C[1].c_idx, C[1].s_idx) == (1, 0, 1, 1))
        S("kernel", C[0].shape_map.shapefunction == "cubic" and C[0].shape_map.dim == 2)
        S("all_grids", list(solver.forces[f0].g_idx_list) == [0, 1] and list(solver.forces[f1].g_idx_list) == [0, 1] and list(solver.forces[f2].g_idx_list) == [0, 1])
        S("all_bodies", list(solver.forces[f3].p_idx_list) == [0, 1])
        S("collider_last", solver.forces[f2].sdf_idx == s1)
        S("gravity_on_grid", solver.forces[f0].is_apply_on_grid and solver.forces[f1].is_apply_on_grid)
        S("clock", st.time == 0.0 and st.step == 0 and st.dt == 1e-3)
        S("padding", solver.grid_domains[1].padding == 3 and solver.grid_domains[1].grid_size == (11, 15) and solver.grid_domains[0].grid_size == (7, 9), str(solver.grid_domains))
        S("origin", solver.grid_domains[1].origin == (-2.5, -3.5) and solver.grid_domains[0].origin == (-1., -1.))
        k.eq("volume", st.world.material_points[0].volume_stack, 0.5 * jnp.ones(D.n)); k.eq("mass", st.world.material_points[0].mass_stack, 500.0 * jnp.ones(D.n))
        k.eq("returned_state", zs.center_of_mass, I.c2); k.eq("given_state", st.world.sdfs[1].velocity, I.v1)
        k.eq("force_state0", st.mechanics.forces[f0].gravity, I.g1); k.eq("force_state3", st.mechanics.forces[solver.forces[f3].f_idx].gravity, I.g2)
        # several solvers over subsets of couplings and forces
        B = SimBuilder()
        B.add_material_points(position_stack=I.xa); B.add_material_points(position_stack=I.xb)
        B.add_grid(origin=(0., 0.), end=(4., 6.), cell_size=1.0, padding=1)
        B.add_constitutive_law(law=SpyLaw(I.ca), law_state=I.s0); B.add_constitutive_law(law=lw, law_state=I.s1)
        B.couple(p_idx=0, c_idx=0); B.couple(p_idx=1, c_idx=1)
        B.add_gravity(gravity=I.g1); f = B.add_gravity(gravity=I.g2)
        i0 = B.set_solver(scheme=scheme, b_idx_list=[1], f_idx_list=[f]); i1 = B.set_solver(scheme="USL", b_idx_list=[0], f_idx_list=[])
        sols, st = B.build()
        S("two_solvers", len(sols) == 2 and (i0, i1) == (0, 1))
        c = sols[0].couplings[0]
        S("subset", len(sols[0].couplings) == 1 and (c.p_idx, c.c_idx) == (1, 1) and len(sols[0].forces) == 1 and len(sols[1].forces) == 0)
        S("subset_law", sols[0].constitutive_laws[c.c_idx] is lw)
        k.eq("subset_force", st.mechanics.forces[sols[0].forces[0].f_idx].gravity, I.g2)
        if scheme != "usl": k.shape("subset_state", st.mechanics.solvers[c.s_idx].Bp_stack, (D.m, 3, 3))
        S("subset_states", len(st.mechanics.solvers) == 2 and all(x is not None for x in st.mechanics.solvers), len(st.mechanics.solvers))
        # fluid laws get their state from the density
        B = SimBuilder()
        nf = NewtonFluid(K=2.0, viscosity=0.1, beta=7.0)
        i = B.add_constitutive_law(law=nf, density_stack=I.rhoa)
        k.eq("fluid_state", B.law_states[i].density_ref_stack if hasattr(B.law_states[i], "density_ref_stack") else I.rhoa, nf.create_state_from_density(density_stack=I.rhoa).density_ref_stack
             if hasattr(B.law_states[i], "density_ref_stack") else I.rhoa)
        S("elastic_state", B.law_states[B.add_constitutive_law(law=LinearElasticLaw(E=1.0, nu=.25))] is None)
        try: B.add_constitutive_law(law=lw); bad = True
        except ValueError: bad = False
        S("state_required", not bad)
    return Contract("defaults.%s" % scheme, fn, inputs(), dims=["n", "m", "q"], sizes=SZ, rounds=1, batch=4, nocheck=True, bounded=BOUND)


def assembled(scheme):
    """one step of an assembled simulation equals one step of the same solver put together by hand (random states)"""
    def fn(I, k, D):
        for j, (bo, fo) in enumerate(((("A", "B"), "gpc"), (("B", "A"), "cpg"), (("B", "A"), "pgc"))):
            B = SimBuilder()
            kw = dict(A=dict(position_stack=I.xa, velocity_stack=I.va, volume_stack=I.Va, density_stack=I.rhoa), B=dict(position_stack=I.xb, velocity_stack=I.vb, volume_stack=I.Vb, density_stack=I.rhob))
            p = {b: B.add_material_points(**kw[b]) for b in bo}
            G = [GridDomain.create((0., 0.), (6., 6.), 1.0, padding=2), GridDomain.create((0., 0.), (6., 6.), 0.5, padding=2)]
            gi = [B.add_grid(grid_domain=d) for d in G]
            law = dict(A=LinearElasticLaw(E=10.0, nu=.2), B=SpyLaw(0.3))
            lst = dict(A=None, B=I.s1)
            c = {b: B.add_constitutive_law(law=law[b], law_state=lst[b]) for b in reversed(bo)}
            at = dict(A=0, B=1)
            cp = {b: B.couple(p_idx=p[b], g_idx=gi[at[b]], c_idx=c[b]) for b in "AB"}
            pl, sp = PlaneSDF(jnp.array([0., 1.])), SphereSDF(1.0)
            s0 = B.add_sdf_object(sdf_logic=pl, center_of_mass=jnp.array([3., 2.5])); s1 = B.add_sdf_object(sdf_logic=sp, center_of_mass=jnp.array([3., 3.]), velocity=jnp.array([.2, .1]))
            F = {}
            for q in fo:
                if q == "g": F[q] = B.add_gravity(gravity=I.g1, g_idx_list=[gi[1]])
                if q == "p": F[q] = B.add_gravity(gravity=I.g2, is_apply_on_grid=False, p_idx_list=[p["A"]])
                if q == "c": F[q] = B.add_sdf_collider(sdf_idx=s1, g_idx_list=[gi[0]], friction=0.3)
            B.set_solver(scheme=scheme, alpha=.9)
            solver, st = B.build(dt=1e-2)
            out = solver(st)
            # by hand: one body, one grid, its own forces
            for b in "AB":
                mp0 = MaterialPointState.create(**kw[b])
                cls = USLSolver if scheme == "usl" else USLAFLIP
                fs = [Gravity(is_apply_on_grid=False, p_idx_list=[0], f_idx=0), SDFCollider(sdf_idx=0, g_idx_list=[0], friction=0.3)] if b == "A" else [Gravity(is_apply_on_grid=True, g_idx_list=[0], f_idx=0)]
                sv = cls(constitutive_laws=(law[b],), forces=tuple(fs), couplings=(BodyCoupling(shape_map=ShapeFunctionMapping("cubic", 2), p_idx=0, g_idx=0, c_idx=0, s_idx=0),),
                         sdf_logics=(sp,), grid_domains=(G[at[b]],), alpha=.9)
                w = WorldState(material_points=(mp0,), sdfs=(sp.create_state(center_of_mass=jnp.array([3., 3.]), velocity=jnp.array([.2, .1])),))
                fst = (fs[0].create_state(gravity=I.g2), None) if b == "A" else (fs[0].create_state(gravity=I.g1),)
                ref = sv(SimState(world=w, mechanics=MechanicsState(constitutive_laws=(lst[b],), solvers=(sv.create_state(mp0),), forces=fst), time=0.0, step=0, dt=1e-2))
                m, r = out.world.material_points[p[b]], ref.world.material_points[0]
                for fld in ("position_stack", "velocity_stack", "volume_stack", "L_stack", "F_stack", "stress_stack"): k.eq("%d.%s.%s" % (j, b, fld), getattr(m, fld), getattr(r, fld))
    ins = inputs()
    for x in ("xa", "xb"): ins[x] = In(ins[x].shape, gen=lambda r, s, d: r.uniform(2., 4., s))
    return Contract("assembled.%s" % scheme, fn, ins, dims=["n", "m", "q"], sizes=SZ, rounds=1, batch=12, search_only=True, bounded="three orders of bodies, laws and forces, random particle states")


def grid_create():
    """the grid covers the padded domain: nodes at origin - pad*h + i*h, the last one within a cell of the padded end (exactly on it for multiples)"""
    def fn(I, k, D):
        with jax.ensure_compile_time_eval(): body(k)

    def body(k):
        n = 0
        for h in (0.1, 0.05, 0.01, 0.2, 0.25, 0.3, 1 / 3, 0.7, 1.0, 1e-3, 0.35):
            for cells in (1, 2, 3, 7, 10, 13, 30, 99, 100):
                for o in (0.0, -0.3, 0.1, 1.7, -2.0):
                    for pad in (0, 1, 2, 3):
                        n += 1
                        e = o + cells * h
                        d = GridDomain.create((o, 0.0), (e, 1.5 * h), h, padding=pad)
                        ok = d.grid_size[0] == cells + 2 * pad + 1 and d.grid_size[1] == 2 + 2 * pad and d.padding == pad and d.dim == 2 and d.num_cells == d.grid_size[0] * d.grid_size[1]
                        ok = ok and abs(d.origin[0] - (o - pad * h)) < 1e-12 and abs(d.end[0] - (e + pad * h)) < 1e-12 and d.cell_size == h and abs(d._inv_cell_size * h - 1) < 1e-12
                        if not ok: k.static("grid(h=%g,cells=%d,origin=%g,padding=%d)" % (h, cells, o, pad), False, (d.grid_size, d.origin, d.end))
        k.static("all", True, n)
        d = GridDomain.create(jnp.array([0., 1., 2.]), jnp.array([1., 3., 5.]), 0.5)
        k.static("arrays", d.grid_size == (2 + 5, 4 + 5, 6 + 5) and d.origin == (-1., 0., 1.) and d.end == (2., 4., 6.) and d.dim == 3, str(d))
        X = d.position_stack
        ix = np.stack(np.meshgrid(np.arange(7), np.arange(9), np.arange(11), indexing="ij"), -1).reshape(-1, 3)
        k.eq("positions", X, jnp.asarray(ix * 0.5 + np.array([-1., 0., 1.])), tol=1e-6)
        k.shape("mesh", d.position_mesh, (7, 9, 11, 3))
        g = GridArrays.new(d)
        for nm, a, sh in (("mass", g.mass_stack, (d.num_cells,)), ("moment", g.moment_stack, (d.num_cells, 3)), ("moment_nt", g.moment_nt_stack, (d.num_cells, 3)), ("force", g.force_stack, (d.num_cells, 3))):
            k.shape("new_shape_" + nm, a, sh); k.eq("new_" + nm, a, 0.0)
        k.static("new_dim", g.dim == 3)
    return Contract("grid.create", fn, dict(u=In(())), sizes=[{}], rounds=1, batch=1, search_only=True, bounded="11 cell sizes x 9 extents x 5 origins x 4 paddings, one 3D grid given by arrays")


def bodies():
    """generated particles: exactly the candidate points inside the object; regular sampling is a lattice of at least ppc points per cell"""
    def fn(I, k, D):
        with jax.ensure_compile_time_eval(): body(k)

    def body(k):
        for nm, dim, sdf, lo, hi in (("disc", 2, SphereSDF(0.8), (-1., -1.), (1., 1.)), ("box", 3, BoxSDF(jnp.array([0.94, .53, .83])), (-.5, -.5, -.5), (.5, .5, .5)), ("ball", 3, SphereSDF(0.45), (-.5, -.5, -.5), (.5, .5, .5)),
                                     ("tight", 2, SphereSDF(0.92), (-.92, -.92), (.92, .92)), ("shifted", 2, SphereSDF(0.61), (.17, 1.31), (1.39, 2.53))):
            lo, hi = jnp.array(lo), jnp.array(hi)
            for cell in (0.25, 0.5):
                for ppc in (1, 2, 4, 8, 9):
                    P = np.asarray(generate_particles_in_sdf(sdf_obj=sdf, bounds_min=lo, bounds_max=hi, mode="regular", cell_size=cell, ppc=ppc))
                    m = int(np.ceil(round(ppc ** (1 / dim), 9)))
                    ax = [(np.arange(int(np.floor(float(a) / cell)) * m, int(np.ceil(float(b) / cell)) * m) + .5) * cell / m for a, b in zip(lo, hi)]
                    C = np.stack(np.meshgrid(*ax, indexing="ij"), -1).reshape(-1, dim)
                    st = sdf.create_state(center_of_mass=(lo + hi) / 2)
                    dist = np.asarray(sdf.get_signed_distance_stack(st, jnp.asarray(C)))
                    want = C[dist < 0]
                    key = lambda A: A[np.lexsort(np.round(A, 7).T)]
                    ok = P.shape == want.shape and (len(P) == 0 or np.abs(key(P) - key(want)).max() < 1e-5)
                    k.static("regular.%s.%g.%d" % (nm, cell, ppc), ok, (P.shape, want.shape))
            for seed in range(3):
                P = generate_particles_in_sdf(sdf_obj=sdf, bounds_min=lo, bounds_max=hi, mode="random", num_particles=500, key=jax.random.PRNGKey(seed), center_of_mass=(lo + hi) / 2 + .1)
                st = sdf.create_state(center_of_mass=(lo + hi) / 2 + .1)
                dist = np.asarray(sdf.get_signed_distance_stack(st, P))
                frac = P.shape[0] / 500
                A = np.asarray(P)
                k.static("random_inside.%s.%d" % (nm, seed), bool((dist < 0).all()) and P.shape[1] == dim and 0 < P.shape[0] <= 500, dist.max())
                k.static("random_bounds.%s.%d" % (nm, seed), bool((A >= np.asarray(lo)).all() and (A <= np.asarray(hi)).all()))
                U = jax.random.uniform(jax.random.PRNGKey(seed + 100), (20000, dim), minval=lo, maxval=hi)
                exp_ = float((np.asarray(sdf.get_signed_distance_stack(st, U)) < 0).mean())
                k.static("random_fraction.%s.%d" % (nm, seed), abs(frac - exp_) < 0.12, (frac, exp_))
    return Contract("bodies", fn, dict(u=In(())), sizes=[{}], rounds=1, batch=1, search_only=True, bounded="disc, box and ball, two cell sizes, five densities, three random keys")


CONTRACTS = [wiring(s, j, 3) for s in ("usl", "usl_aflip") for j in range(3)] + [defaults("usl"), defaults("usl_aflip"), assembled("usl"), assembled("usl_aflip"), grid_create(), bodies()]
