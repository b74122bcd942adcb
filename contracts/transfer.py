"""Particle-grid transfers and the grid update of one solver step (hydraxmpm/solvers, shapefunctions/mapping, forces)."""
from contracts.common import *

SCHEMES = ("usl", "aflip")


def build(scheme, I, dim, M, bodies, probes, alpha=0.99, laws=None, dt=None, extra_forces=(), couplings=None, solver_kw=None, time=0.0, step=0,
          domains=None, sdfs=(), sdf_states=(), law_states=None, forces_states=(), mps=None, kernel="cubic"):
    """solver + state for bodies [(suffix, grid index)] whose interaction caches are the symbolic ones"""
    nb = len(bodies)
    mps = mps or [make_mp(I, s) for s, g in bodies]
    laws = laws or [NoLaw() for _ in bodies]
    if couplings is None:
        couplings = []
        for i, (s, g) in enumerate(bodies):
            cache = make_cache(I["h" + s], I["N" + s], I["G" + s], I["d" + s])
            couplings.append(BodyCoupling(shape_map=StubMap(cache, dim, I["N" + s].shape[1], kernel), p_idx=i, g_idx=g, c_idx=i, s_idx=i))
    kw = dict(grid_domains=tuple(domains), constitutive_laws=tuple(laws), couplings=tuple(couplings), forces=tuple(probes) + tuple(extra_forces),
              sdf_logics=tuple(sdfs), alpha=alpha)
    kw.update(solver_kw or {})
    solver = (USLSolver if scheme == "usl" else USLAFLIP)(**kw)
    sol = []
    from hydraxmpm.solvers.usl_asflip import USLAFLIPState
    for i, (s, g) in enumerate(bodies):
        if scheme == "usl": sol.append(solver.create_state(mps[i]))
        else: sol.append(USLAFLIPState(Bp_stack=I["B" + s]))
    state = SimState(world=WorldState(material_points=tuple(mps), sdfs=tuple(sdf_states)),
                     mechanics=MechanicsState(constitutive_laws=tuple(law_states or [None] * nb), solvers=tuple(sol), forces=tuple(forces_states)),
                     time=time, step=step, dt=dt)
    return solver, state


def body_inputs(scheme, dim, sfx, n, w, M, store=False):
    r = {}
    r.update(intr_inputs(dim, sfx, n, w, M)); r.update(mp_inputs(dim, sfx, n, store))
    if scheme == "aflip": r["B" + sfx] = In((n, 3, 3))
    return r


def assume_cache(k, I, s, dim, pu=True, lin=False, gsum=False, gmom=None):
    N, G, d = I["N" + s], I["G" + s], I["d" + s]
    if pu: k.assume_eq(N.sum(1), 1.0, rewrite=True, name="pu" + s)
    if lin: k.assume_eq((N[..., None] * d).sum(1), 0.0, rewrite=True, name="lin" + s)
    if gsum: k.assume_eq(G.sum(1), 0.0, rewrite=True, name="gsum" + s)
    if gmom is not None:
        e = jnp.eye(3) * jnp.array([1.0] * dim + [0.0] * (3 - dim))
        k.assume_eq((G[:, :, :, None] * d[:, :, None, :]).sum(1), -e / gmom, rewrite=True, name="gmom" + s)


def p2g_contract(scheme, dim, nbody):
    """what reaches the grid: total mass, momentum and external force of all particles, no net internal force, and the same per node"""
    bodies = [("%d" % i, 0) for i in range(nbody)]

    def fn(I, k, D):
        box = Box()
        dom = abs_domain(dim, D.M, I.hh)
        solver, state = build(scheme, I, dim, D.M, bodies, [Probe(box)], dt=I.dt, domains=[dom])
        # forces on particles are reset at the start of the step and set by the pre-P2G hook: probe force sets them
        box.pre = lambda wo, me, sc: (eqx.tree_at(lambda q: tuple(m.force_stack for m in q.material_points), wo, tuple(I["f" + s] for s, g in bodies)), me, sc)
        solver(state)
        g = box.p2g[0]
        for s, _ in bodies: assume_cache(k, I, s, dim, lin=scheme == "aflip", gsum=True)
        mass = sum(I["m" + s].sum() for s, _ in bodies)
        mom = sum((I["m" + s][:, None] * I["v" + s]).sum(0) for s, _ in bodies)
        fext = sum(I["f" + s].sum(0) for s, _ in bodies)
        k.eq("total_mass", g.mass_stack.sum(), mass)
        k.eq("total_momentum", g.moment_stack.sum(0), mom)
        k.eq("total_force", g.force_stack.sum(0), fext)
        k.ge("mass_nonneg", g.mass_stack, 0.0)
        # nodal formulas
        mm = jnp.zeros((D.M,)); pp = jnp.zeros((D.M, dim)); ff = jnp.zeros((D.M, dim))
        for s, _ in bodies:
            h, N, G, d = I["h" + s], I["N" + s], I["G" + s], I["d" + s]
            mm = mm.at[h].add(N * I["m" + s][:, None])
            vel = I["v" + s][:, None, :] * jnp.ones_like(N)[..., None]
            if scheme == "aflip":      # velocity gradient is compression positive: v - B (x_g - x_p)
                vel = vel + I.hh * jnp.einsum("pij,psj->psi", I["B" + s], d)[..., :dim]
            pp = pp.at[h].add(N[..., None] * I["m" + s][:, None, None] * vel)
            fi = jnp.einsum("pij,psj->psi", I["sig" + s], G)[..., :dim] * I["V" + s][:, None, None] + N[..., None] * I["f" + s][:, None, :]
            ff = ff.at[h].add(fi)
        k.eq("node_mass", g.mass_stack, mm)
        k.eq("node_momentum", g.moment_stack, pp)
        k.eq("node_force", g.force_stack, ff)
        k.shape("mass_shape", g.mass_stack, (D.M,)); k.shape("mom_shape", g.moment_stack, (D.M, dim))
        # explicit integration of the momenta
        k.eq("integrate", box.mom[0].moment_nt_stack, g.moment_stack + I.dt * g.force_stack)
    ins = dict(hh=In((), gt=0), dt=In((), gt=0))
    dims = ["M"]; sz = dict(M=5); sam = []; minor = []
    for s, _ in bodies:
        ins.update(body_inputs(scheme, dim, s, "n" + s, "w" + s, "M"))
        dims += ["n" + s, "w" + s]; sz.update({"n" + s: 3 + int(s), "w" + s: 4}); minor.append("w" + s)
        sam.append(normalise_cache(s, dim))
    sz1 = dict(sz); sz1["n0"] = 1
    return Contract("p2g.%s.%dd.%dbody" % (scheme, dim, nbody), fn, ins, dims=dims, sizes=[sz, sz1], sampler=sampler(*sam), minor=minor, assumes=[BASIS], rounds=2, batch=64)



def grid_inputs(dim, sfx=""):
    return {"mg" + sfx: In(("M",), ge=0), "pg" + sfx: In(("M", dim)), "png" + sfx: In(("M", dim))}


def solver_inputs(scheme, dim, store=False, **kw):
    ins = dict(hh=In((), gt=0, lt=1e9, gen=lambda r, s, d: r.uniform(.05, 2)), dt=In((), gt=0), alpha=In((), ge=0, le=1))
    ins.update(body_inputs(scheme, dim, "0", "n", "w", "M", store))
    ins.update(kw)
    return ins


SZ = [dict(M=6, n=3, w=5), dict(M=5, n=1, w=5)]
C2 = {"cubic": 1 / 3, "quadratic": 1 / 4}       # second moments of the kernels (C01)
CUT = {"usl": 1e-12, "aflip": 1e-7}


def g2p_contract(scheme, dim, store):
    """grid-to-particle update formulas for arbitrary grid arrays"""
    def fn(I, k, D):
        box = Box(); dom = abs_domain(dim, D.M, I.hh)
        kw = {} if scheme == "usl" else dict(use_dynamic_alpha=False, cfl_limit=I.cfl, beta_min=I.bmin, beta_max=I.bmax)
        solver, state = build(scheme, I, dim, D.M, [("0", 0)], [Probe(box)], alpha=I.alpha, dt=I.dt, domains=[dom], solver_kw=kw, time=I.time, step=I.step)
        box.gmom = replace_grids(None, mass_stack=[I.mg], moment_stack=[I.pg], moment_nt_stack=[I.png])
        out = solver(state)
        mp = out.world.material_points[0]
        h, N, G, d = I.h0, I.N0, I.G0, I.d0
        if dim == 2: k.assume_eq(G[..., 2], 0.0, rewrite=True)
        cut = CUT[scheme]
        mh = I.mg[h][..., None]
        vo = jnp.where(mh > cut, I.pg[h] / jnp.where(mh > cut, mh, 1.0), 0.0)
        vn = jnp.where(mh > cut, I.png[h] / jnp.where(mh > cut, mh, 1.0), 0.0)
        pic = (N[..., None] * vn).sum(1); old = (N[..., None] * vo).sum(1)
        flip = pic + I.alpha * (I.v0 - old)
        L = -jnp.einsum("psi,psj->pij", jnp.pad(vn, ((0, 0), (0, 0), (0, 3 - dim))), G)
        Fi = jnp.eye(3) - I.dt * L
        Fn = jnp.einsum("pij,pjk->pik", Fi, I.F0)
        if dim == 2: Fn = Fn.at[:, 2, 2].set(1.0)
        J = jnp.linalg.det(mp.F_stack)
        k.eq("L", mp.L_stack, L)
        k.eq("F", mp.F_stack, Fn)
        k.eq("volume_is_detF_V0", mp.volume_stack, J * I.V00)
        if store: k.eq("F_store", mp.F_store_stack, jnp.einsum("pij,pjk->pik", Fi, I.Fs0))
        if scheme == "usl":
            k.eq("velocity", mp.velocity_stack, flip)
            k.eq("position", mp.position_stack, I.x0 + I.dt * pic)
        else:
            sp2 = (flip ** 2).sum(1, keepdims=True); lim = I.cfl * I.hh / I.dt
            k.eq("velocity", mp.velocity_stack, flip, when=jnp.broadcast_to((jnp.sqrt(sp2) + 1e-12 <= lim), flip.shape))
            beta = jnp.where(J < 1, I.bmin, I.bmax)[:, None]
            k.eq("position", mp.position_stack, I.x0 + I.dt * (pic + I.alpha * beta * (I.v0 - old)))
            k.eq("affine", out.mechanics.solvers[0].Bp_stack, L)
        # frame
        k.eq("mass_unchanged", mp.mass_stack, I.m0); k.eq("volume0_unchanged", mp.volume0_stack, I.V00)
        k.eq("stress_unchanged_by_solver", mp.stress_stack, I.sig0)
        k.eq("time", out.time, I.time + I.dt); k.eq("step", out.step, I.step + 1); k.eq("dt", out.dt, I.dt)
        for nm in ("position_stack", "velocity_stack", "volume_stack", "volume0_stack", "mass_stack", "L_stack", "F_stack", "stress_stack", "force_stack"):
            k.shape("shape_" + nm, getattr(mp, nm), getattr(state.world.material_points[0], nm).shape)
    extra = dict(time=In(()), step=In((), "I", ge=0)); extra.update(grid_inputs(dim))
    if scheme == "aflip": extra.update(cfl=In((), gt=0), bmin=In(()), bmax=In(()))

    def sam(rng, dims, s):
        o = {"F0": np.eye(3) + .3 * rng.standard_normal(s["F0"].shape), "L0": rng.standard_normal(s["L0"].shape), "dt": np.float64(rng.uniform(1e-3, .1)), "hh": np.float64(rng.uniform(.1, 2))}
        for q in ("pg", "png", "G0", "d0", "N0", "x0", "v0"): o[q] = np.abs(rng.standard_normal(s[q].shape)) if q == "N0" else rng.standard_normal(s[q].shape)
        o["mg"] = np.where(rng.random(s["mg"].shape) < .2, 0.0, rng.uniform(.1, 1, s["mg"].shape))
        if rng.random() < .4: o["mg"] = np.where(rng.random(s["mg"].shape) < .6, 10 ** rng.uniform(np.log10(CUT[scheme]) + .1, -4, s["mg"].shape), o["mg"])
        o["pg"] *= o["mg"][:, None]; o["png"] *= o["mg"][:, None]
        s = dict(s, **o)
        if dim == 2:
            G = np.array(s["G0"]); G[..., 2] = 0; o["G0"] = G
        if scheme == "aflip" and rng.random() < .7: o["cfl"] = 1e3
        return o
    return Contract("g2p.%s.%dd%s" % (scheme, dim, ".store" if store else ""), fn, solver_inputs(scheme, dim, store, **extra), dims=["M", "n", "w"], sizes=SZ, sampler=sam,
                    assumes=[BASIS], rounds=2, batch=64)


def affine_contract(scheme, dim, mls=True, kernel="cubic"):
    """an affine grid velocity field is interpolated exactly: v = A x + b, L = -A"""
    def fn(I, k, D):
        box = Box(); dom = abs_domain(dim, D.M, I.hh)
        kw = {} if scheme == "usl" else dict(use_dynamic_alpha=False, cfl_limit=I.cfl, use_mls_update=mls, beta_min=I.bmin, beta_max=I.bmax)
        solver, state = build(scheme, I, dim, D.M, [("0", 0)], [Probe(box)], alpha=I.alpha, dt=I.dt, domains=[dom], solver_kw=kw, kernel=kernel)
        A, b = I.A[:dim, :dim], I.b
        vel = I.X @ A.T + b
        box.gmom = replace_grids(None, mass_stack=[I.mg], moment_stack=[I.mg[:, None] * vel], moment_nt_stack=[I.mg[:, None] * vel])
        out = solver(state)
        mp = out.world.material_points[0]
        k.assume_eq(I.X[I.h0], I.x0[:, None, :] - I.hh * I.d0[..., :dim], rewrite=True, name="node_position")
        if dim == 2:
            k.assume_eq(I.d0[..., 2], 0.0, rewrite=True); k.assume_eq(I.G0[..., 2], 0.0, rewrite=True)
        assume_cache(k, I, "0", dim, lin=True, gsum=mls, gmom=I.hh if mls else None)
        if not mls:
            c2 = C2[kernel]
            k.assume_eq((I.N0[..., None, None] * I.d0[..., :dim, None] * I.d0[..., None, :dim]).sum(1), c2 * jnp.eye(dim), rewrite=True, name="second_moment")
        Ap = jnp.pad(A, ((0, 3 - dim), (0, 3 - dim)))
        vp = I.x0 @ A.T + b
        k.eq("L_exact", mp.L_stack, -Ap * jnp.ones((mp.L_stack.shape[0], 1, 1)))
        k.eq("spin_exact", mp.L_stack - mp.L_stack.transpose(0, 2, 1), (Ap.T - Ap) * jnp.ones((mp.L_stack.shape[0], 1, 1)))
        if scheme == "usl":
            k.eq("velocity_exact", mp.velocity_stack, (1 - I.alpha) * vp + I.alpha * I.v0)
            k.eq("position_exact", mp.position_stack, I.x0 + I.dt * vp)
        else:
            k.eq("affine_exact", out.mechanics.solvers[0].Bp_stack, -Ap * jnp.ones((mp.L_stack.shape[0], 1, 1)))
            beta = jnp.where(jnp.linalg.det(mp.F_stack) < 1, I.bmin, I.bmax)[:, None]
            k.eq("position_exact", mp.position_stack, I.x0 + I.dt * (vp + I.alpha * beta * (I.v0 - vp)))
    extra = dict(A=In((3, 3)), b=In((dim,)), X=In(("M", dim)), mg=In(("M",), gt=CUT[scheme], gen=lambda r, s, d: 10 ** r.uniform(np.log10(CUT[scheme]) + .1, 1, s)))
    if scheme == "aflip": extra.update(cfl=In((), gt=0), bmin=In(()), bmax=In(()))
    base = normalise_full("0", dim)

    def sam(rng, dims, s):
        # distinct nodes per interaction so that node positions can be set
        n, w, M = dims["n"], dims["w"], dims["M"]
        h = rng.permutation(M)[: n * w].reshape(n, w)
        s = dict(s, h0=h, dt=np.float64(rng.uniform(1e-3, .1)), F0=np.eye(3) + .3 * rng.standard_normal(s["F0"].shape), A=rng.standard_normal((3, 3)))
        o = base(rng, dims, s); o.update(dt=s["dt"], F0=s["F0"], A=s["A"])
        X = np.zeros((M, dim))
        for p in range(n):
            for q in range(w): X[h[p, q]] = np.asarray(s["x0"])[p] - s["hh"] * o["d0"][p, q, :dim]
        if not mls:
            for p in range(n):
                # +-sqrt(c2*w/2)... stencil with exact second moment: weights 1/(2 dim) on +-e_i
                o["N0"] = np.zeros((n, w)); o["d0"] = np.zeros((n, w, 3))
                for q in range(2 * dim):
                    o["N0"][:, q] = 1.0 / (2 * dim); o["d0"][:, q, q // 2] = (1 if q % 2 else -1) * np.sqrt(dim * C2[kernel])
            for p in range(n):
                for q in range(w): X[h[p, q]] = np.asarray(s["x0"])[p] - s["hh"] * o["d0"][p, q, :dim]
        o.update(X=X, h0=h, cfl=1e6)
        if scheme != "aflip": o.pop("cfl")
        if rng.random() < .5: o["v0"] = np.asarray(s["x0"]) @ np.asarray(s["A"])[:dim, :dim].T + s["b"]
        return o
    return Contract("affine.%s.%dd%s" % (scheme, dim, "" if mls else ".apic." + kernel), fn, solver_inputs(scheme, dim, **extra), dims=["M", "n", "w"],
                    sizes=[dict(M=24, n=3, w=7), dict(M=9, n=1, w=7)], sampler=sam, assumes=[BASIS, "X[node] = x_p - h d (connectivity contract)"], rounds=2, batch=64)


def field_p2g_contract(scheme, dim):
    """particles that carry a rigid translation (and, affine scheme, an affine field) put exactly that field on the grid"""
    def fn(I, k, D):
        dom = abs_domain(dim, D.M, I.hh)

        def run(v, B):
            box = Box()
            J = Ns2(I, v0=v, **({"B0": B} if B is not None else {}))
            solver, state = build(scheme, J, dim, D.M, [("0", 0)], [Probe(box)], dt=I.dt, domains=[dom], alpha=I.alpha)
            solver(state)
            return box.p2g[0]
        n = I.x0.shape[0]
        g = run(jnp.broadcast_to(I.b, (n, dim)), jnp.zeros((n, 3, 3)) if scheme == "aflip" else None)
        k.eq("translation", g.moment_stack, g.mass_stack[:, None] * I.b)
        if scheme == "aflip":
            k.assume_eq(I.X[I.h0], I.x0[:, None, :] - I.hh * I.d0[..., :dim], rewrite=True, name="node_position")
            if dim == 2: k.assume_eq(I.d0[..., 2], 0.0, rewrite=True)
            A = I.A[:dim, :dim]
            g = run(I.x0 @ A.T + I.b, jnp.broadcast_to(-jnp.pad(A, ((0, 3 - dim), (0, 3 - dim))), (n, 3, 3)))
            field = jnp.zeros((D.M, dim)).at[I.h0].add((I.N0 * I.m0[:, None])[..., None] * (I.X[I.h0] @ A.T + I.b))
            k.eq("affine_field", g.moment_stack, field)
    extra = dict(A=In((3, 3)), b=In((dim,)), X=In(("M", dim)))

    def sam(rng, dims, s):
        n, w, M = dims["n"], dims["w"], dims["M"]
        h = rng.permutation(M)[: n * w].reshape(n, w); X = rng.standard_normal((M, dim))
        d = np.array(s["d0"]); d[..., dim:] = 0
        X[h] = np.asarray(s["x0"])[:, None, :] - s["hh"] * d[..., :dim]
        return dict(h0=h, X=X, d0=d)
    return Contract("field.%s.%dd" % (scheme, dim), fn, solver_inputs(scheme, dim, **extra), dims=["M", "n", "w"],
                    sizes=[dict(M=24, n=3, w=7), dict(M=9, n=1, w=7)], sampler=sam, assumes=[BASIS, "X[node] = x_p - h d (connectivity contract)"], rounds=2, batch=64)


class Ns2:
    """inputs with some entries replaced"""
    def __init__(self, base, **kw): self.__dict__.update(base.__dict__); self.__dict__.update(kw)
    def __getitem__(self, k): return self.__dict__[k]


def momentum_contract(scheme, dim, nbody):
    """momentum balance of one whole step for bodies on one grid, without walls.  Per node f the velocity seen by a particle times the
    nodal mass is the nodal momentum (where the mass is above the cut-off), hence
      sum m v' = sum_g F_g(p + dt f) + alpha (sum m v - sum_g F_g(p)),  F_g = momentum of the nodes above the cut-off"""
    bodies = [("%d" % i, 0) for i in range(nbody)]

    def fn(I, k, D):
        box = Box(); dom = abs_domain(dim, D.M, I.hh)
        kw = {} if scheme == "usl" else dict(use_dynamic_alpha=False, cfl_limit=1e30)
        solver, state = build(scheme, I, dim, D.M, bodies, [Probe(box)], alpha=I.alpha, dt=I.dt, domains=[dom], solver_kw=kw)
        box.pre = lambda wo, me, sc: (eqx.tree_at(lambda q: tuple(m.force_stack for m in q.material_points), wo, tuple(I["f" + s] for s, g in bodies)), me, sc)
        solver(state)
        for s, _ in bodies: assume_cache(k, I, s, dim, lin=scheme == "aflip", gsum=True)
        g = box.p2g[0]; cut = CUT[scheme]
        M, p, f = g.mass_stack, g.moment_stack, g.force_stack
        P0 = sum((I["m" + s][:, None] * I["v" + s]).sum(0) for s, _ in bodies)
        # grid velocities as the particles see them
        safe = jnp.where(M > cut, M, 1.0)[:, None]
        vn = jnp.where((M > cut)[:, None], (p + I.dt * f) / safe, 0.0)
        vo = jnp.where((M > cut)[:, None], p / safe, 0.0)
        # G2P on arbitrary grid fields (velocity fields q and r after the cut-off, as gathered by the real code)
        box2 = Box()
        kw2 = {} if scheme == "usl" else dict(use_dynamic_alpha=False, cfl_limit=I.cfl)
        solver2, state2 = build(scheme, I, dim, D.M, bodies, [Probe(box2)], alpha=I.alpha, dt=I.dt, domains=[dom], solver_kw=kw2)
        box2.gmom = replace_grids(None, mass_stack=[I.mg], moment_stack=[I.mg[:, None] * I.r], moment_nt_stack=[I.mg[:, None] * I.q])
        out2 = solver2(state2)
        vel = [mp.velocity_stack for mp in out2.world.material_points]
        if scheme == "aflip":      # below the speed limit (the limiter is a contract of its own, C08)
            want = [(I["N" + s][..., None] * I.q[I["h" + s]]).sum(1) + I.alpha * (I["v" + s] - (I["N" + s][..., None] * I.r[I["h" + s]]).sum(1)) for s, _ in bodies]
            for (s, _), a, b in zip(bodies, vel, want):
                k.eq("gather_velocity" + s, a, b, when=jnp.broadcast_to(jnp.sqrt((b ** 2).sum(1, keepdims=True)) + 1e-12 <= I.cfl * I.hh / I.dt, b.shape))
            vel = want
        P = sum((I["m" + s][:, None] * v).sum(0) for (s, _), v in zip(bodies, vel))
        lhs = sum(((I["N" + s] * I["m" + s][:, None])[..., None] * (I.q[I["h" + s]] - I.alpha * I.r[I["h" + s]])).sum((0, 1)) for s, _ in bodies)
        k.eq("balance_gather", P, lhs + I.alpha * P0)
        Mg = sum(jnp.zeros((D.M,)).at[I["h" + s]].add(I["N" + s] * I["m" + s][:, None]) for s, _ in bodies)
        k.eq("nodal_mass", M, Mg)
        # gather of a nodal field weighted by particle mass = nodal mass times the field (same interactions, transposed)
        k.eq("transpose", sum(((I["N" + s] * I["m" + s][:, None])[..., None] * I.q[I["h" + s]]).sum((0, 1)) for s, _ in bodies), (Mg[:, None] * I.q).sum(0))
        k.eq("nodal_new", M[:, None] * vn, p + I.dt * f, when=jnp.broadcast_to((M > cut)[:, None], p.shape))
        k.eq("nodal_old", M[:, None] * vo, p, when=jnp.broadcast_to((M > cut)[:, None], p.shape))
        k.eq("total_new", (p + I.dt * f).sum(0), P0 + I.dt * sum(I["f" + s].sum(0) for s, _ in bodies))
        k.eq("total_old", p.sum(0), P0)
    ins = dict(hh=In((), gt=0, lt=1e9, gen=lambda r, s, d: r.uniform(.05, 2)), dt=In((), gt=0, gen=lambda r, s, d: r.uniform(1e-3, .1)), alpha=In((), ge=0, le=1), q=In(("M", dim)), r=In(("M", dim)),
               mg=In(("M",), gt=CUT[scheme], gen=lambda r, s, d: 10 ** r.uniform(np.log10(CUT[scheme]) + .1, 0, s)))
    if scheme == "aflip": ins["cfl"] = In((), gt=0, gen=lambda r, s, d: 10 ** r.uniform(0, 6))
    dims = ["M"]; sz = dict(M=5); sam = []; minor = []
    for s, _ in bodies:
        ins.update(body_inputs(scheme, dim, s, "n" + s, "w" + s, "M"))
        dims += ["n" + s, "w" + s]; sz.update({"n" + s: 3 + int(s), "w" + s: 4}); minor.append("w" + s)
        sam.append(normalise_cache(s, dim))
        sam.append(lambda rng, dims, d, s=s: {q + s: rng.standard_normal(d[q + s].shape) for q in ("x", "v", "f", "L", "sig")} | {"F" + s: np.eye(3) + .2 * rng.standard_normal(d["F" + s].shape), "m" + s: rng.uniform(.1, 1, d["m" + s].shape), "V" + s: rng.uniform(.1, 1, d["V" + s].shape), "V0" + s: rng.uniform(.1, 1, d["V0" + s].shape)})
    sz1 = dict(sz); sz1["n0"] = 1
    return Contract("momentum.%s.%dd.%dbody" % (scheme, dim, nbody), fn, ins, dims=dims, sizes=[sz, sz1], sampler=sampler(*sam), minor=minor, assumes=[BASIS], rounds=2, batch=64)


CONTRACTS = [p2g_contract(s, d, b) for s in SCHEMES for d in (2, 3) for b in (1, 2)]
CONTRACTS += [g2p_contract(s, d, st) for s in SCHEMES for d in (2, 3) for st in ((False, True) if d == 3 else (False,))]
CONTRACTS += [affine_contract(s, d) for s in SCHEMES for d in (2, 3)] + [affine_contract("aflip", d, False, kn) for d in (2, 3) for kn in ("cubic", "quadratic")]
CONTRACTS += [field_p2g_contract(s, d) for s in SCHEMES for d in (2, 3)]
CONTRACTS += [momentum_contract(s, d, b) for s in SCHEMES for d in (2, 3) for b in (1, 2)]
