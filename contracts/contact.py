"""Body-to-body grid contact (hydraxmpm/forces/gridcontact.py): node law, mass gradient, and the step with a contact configured."""
from contracts.common import *
from contracts.transfer import build, body_inputs, assume_cache
from hydraxmpm.forces.gridcontact import GridContact
from hydraxmpm.common.builder import SimBuilder

EPS = 1e-12


def node(dim, rigid):
    """the law of one node, for any momenta, masses, distance and unit normal of the actor (any number of nodes)"""
    def fn(I, k, D):
        gc = GridContact(couple_idx_actor=1, couple_idx_receiver=0, friction=0.0, is_rigid=rigid, is_reaction=not rigid)
        k.assume_eq(I.nor[:, 0] ** 2, 1.0 - (I.nor[:, 1:] ** 2).sum(1), name="unit_normal", rewrite=True)
        pr, pa = jax.vmap(gc._solve_node_collision)(I.pr, I.mr, I.pa, I.ma, I.nor, I.d)
        c = lambda x: x[:, None]
        vr, va = I.pr / c(I.mr + EPS), I.pa / c(I.ma + EPS)      # nodal velocities as the solver regularises them
        un = ((vr - va) * I.nor).sum(1)
        hit = (I.d <= 1e-6) & (un < 0)
        k.eq("receiver_apart_or_separating", pr, I.pr, when=c(~hit)); k.eq("actor_apart_or_separating", pa, I.pa, when=c(~hit))
        vr2 = pr / c(I.mr)
        k.eq("approach_removed", ((vr2 - va) * I.nor).sum(1), 0.0, when=hit)
        t = lambda v: v - c((v * I.nor).sum(1)) * I.nor
        k.eq("tangential_kept", t(vr2), t(vr), when=c(hit))
        if rigid: k.eq("actor_kept", pa, I.ma[:, None] * va, when=c(hit))
        else:
            # equal and opposite: what the receiver gains per regularised mass of the actor
            k.eq("reaction", (pa / c(I.ma) - va) * c(I.ma + EPS), -(vr2 - vr) * c(I.mr), when=c(hit))
            k.ge("not_pulled", ((vr2 - pa / c(I.ma)) * I.nor).sum(1), 0.0, when=hit)

    def unit(r, d, s):
        a = r.standard_normal((d["n"], dim)); q = 10.0 ** r.uniform(-6, 1, (d["n"], 1)); m = r.uniform(.1, 3, (2, d["n"]))
        return {"nor": a / np.linalg.norm(a, axis=1, keepdims=True), "pr": q * r.standard_normal((d["n"], dim)), "pa": q * r.standard_normal((d["n"], dim)), "mr": m[0], "ma": m[1]}
    ins = dict(pr=In(("n", dim)), pa=In(("n", dim)), mr=In(("n",), gt=0), ma=In(("n",), gt=0), nor=In(("n", dim)), d=In(("n",)))
    return Contract("contact.node.%s.%dd" % ("rigid" if rigid else "soft", dim), fn, ins, dims=["n"], sizes=[dict(n=6)], rounds=2, batch=64, sampler=unit)


def gradient(size):
    """normals of a rigid actor without given normals: central differences of the nodal mass, one-sided at the boundary"""
    dim = len(size)

    def fn(I, k, D):
        gc = GridContact(couple_idx_actor=1, couple_idx_receiver=0)
        dom = raw(Box, grid_size=size, dim=dim, mass_stack=I.m)
        g = gc._compute_mass_gradient(dom)
        k.eq("explicit_mass", gc._compute_mass_gradient(raw(Box, grid_size=size, dim=dim, mass_stack=None), I.m), g)
        m = I.m.reshape(size)
        k.shape("shape", g, (int(np.prod(size)), dim))
        for ax in range(dim):
            lo = jnp.take(m, jnp.array([max(i - 1, 0) for i in range(size[ax])]), axis=ax); hi = jnp.take(m, jnp.array([min(i + 1, size[ax] - 1) for i in range(size[ax])]), axis=ax)
            w = jnp.array([1.0 if i in (0, size[ax] - 1) else 0.5 for i in range(size[ax])]).reshape([-1 if a == ax else 1 for a in range(dim)])
            k.eq("axis%d" % ax, g[:, ax], ((hi - lo) * w).reshape(-1))
    return Contract("contact.gradient.%dd" % dim, fn, dict(m=In((int(np.prod(size)),), ge=0)), bounded="grid of %s nodes, arbitrary masses" % "x".join(map(str, size)), rounds=1, batch=16)


def step():
    """two bodies on two grids: a step with the contact configured runs, and leaves the total momentum as it is without contact"""
    def fn(I, k, D):
        gc = GridContact(couple_idx_actor=1, couple_idx_receiver=0, is_reaction=True)
        bx = Box()
        doms = [abs_domain(2, D.M, I.hh), abs_domain(2, D.M, I.hh)]
        solver, state = build("usl", I, 2, None, [("0", 0), ("1", 1)], [gc, Probe(bx)], dt=I.dt, domains=doms)
        solver(state)
        a, b = bx.mom
        k.eq("momentum", a.moment_nt_stack + b.moment_nt_stack, a.moment_stack + b.moment_stack + I.dt * (a.force_stack + b.force_stack))
    ins = dict(hh=In((), gt=0, lt=1e9, gen=lambda r, s, d: r.uniform(.05, 2)), dt=In((), gt=0, gen=lambda r, s, d: r.uniform(1e-3, .1)))
    sam = []
    for s in "01": ins.update(body_inputs("usl", 2, s, "n" + s, "w", "M")); sam.append(normalise_cache(s, 2))
    return Contract("contact.step", fn, ins, dims=["M", "n0", "n1", "w"], sizes=[dict(M=4, n0=3, n1=2, w=3)], sampler=sampler(*sam), minor=["w"], assumes=[BASIS], rounds=1, batch=16)


def friction():
    """Coulomb friction of the documented coefficient: the tangential impulse is mu times the normal one while the bodies slip"""
    def fn(I, k, D):
        gc = GridContact(couple_idx_actor=1, couple_idx_receiver=0, friction=I.mu, is_rigid=True)
        k.assume_eq(I.nor[:, 0] ** 2, 1.0 - (I.nor[:, 1:] ** 2).sum(1), name="unit_normal", rewrite=True)
        pr, pa = jax.vmap(gc._solve_node_collision)(I.pr, I.mr, I.pa, I.ma, I.nor, I.d)
        c = lambda x: x[:, None]
        vr, va = I.pr / c(I.mr + EPS), I.pa / c(I.ma + EPS)
        t = lambda v: v - c((v * I.nor).sum(1)) * I.nor
        un = ((vr - va) * I.nor).sum(1); dt = t(pr / c(I.mr) - vr)
        k.eq("slip", (dt * dt).sum(1), (I.mu * un) ** 2, when=(I.d <= 1e-6) & (un < 0) & ((I.mu * un) ** 2 <= (t(vr - va) ** 2).sum(1)))

    def unit(r, d, s):
        a = r.standard_normal((d["n"], 2)); return {"nor": a / np.linalg.norm(a, axis=1, keepdims=True)}
    ins = dict(pr=In(("n", 2)), pa=In(("n", 2)), mr=In(("n",), gt=0), ma=In(("n",), gt=0), nor=In(("n", 2)), d=In(("n",)), mu=In((), ge=0, gen=lambda r, s, d: r.uniform(.1, 1)))
    return Contract("contact.friction", fn, ins, dims=["n"], sizes=[dict(n=6)], rounds=1, batch=64, sampler=unit)


def configured():
    """the builder hands the requested contact to the solver, with its own (empty) force state"""
    def fn(I, k, D):
        b = SimBuilder()
        i0 = b.add_gravity(gravity=I.g, g_idx_list=[0], is_apply_on_grid=True)
        for j, (a, r, rig, rea) in enumerate([(3, 1, False, True), (0, 2, True, False)]):
            f = b.add_body_contact(couple_idx_actor=a, couple_idx_receiver=r, friction=I.mu, is_rigid=rig, is_reaction=rea, mass_ratio_limit=4.0)
            gc = b.force_logics[f]
            k.static("index%d" % j, (f, len(b.force_logics), len(b.force_states)) == (j + 1, j + 2, j + 2))
            k.static("arguments%d" % j, (type(gc).__name__, gc.couple_idx_actor, gc.couple_idx_receiver, gc.is_rigid, gc.is_reaction, gc.mass_ratio_limit) == ("GridContact", a, r, rig, rea, 4.0))
            k.eq("friction%d" % j, gc.friction, I.mu)
        k.eq("gravity", b.force_states[0].gravity, I.g)
    return Contract("contact.builder", fn, dict(g=In((2,)), mu=In((), ge=0)), rounds=1, batch=8)


CONTRACTS = [friction(), configured()] + [node(d, r) for d in (2, 3) for r in (False, True)] + [gradient((4, 3)), gradient((3, 4, 3)), step()]
