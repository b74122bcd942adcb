"""Stress, strain and density measures (hydraxmpm/utils/math_helpers) and the material point states (hydraxmpm/material_points)."""
from contracts.common import *
from contracts.laws import tr_, T_, dev_, ddot, sph, law_inputs, DT
import hydraxmpm.utils.math_helpers as mh

I3 = jnp.eye(3)
NS = [dict(n=3), dict(n=1), dict(n=7)]
BT = [dict(b=2, t=3), dict(b=1, t=1), dict(b=3, t=1)]
pos = lambda *sh: In(sh, gt=0, gen=lambda r, s, d: r.uniform(.1, 5, s))


def sym(a): return 0.5 * (a + T_(a))


def symgen(r, s, d):
    a = r.standard_normal(s) * 10.0 ** r.integers(-2, 4)
    if r.random() < .15: a = a * 0
    return a + np.swapaxes(a, -1, -2)


# ------------------------------------------------------------------------------------------------ stress measures
def stress(rank):
    """p, s, J2, q, tau of one tensor, a stack, a stack of stacks: componentwise definitions"""
    lead = {"one": (), "stack": ("n",), "batch": ("b", "t")}[rank]

    def fn(I, k, D):
        S = sym(I.S)
        c = lambda i, j: S[..., i, j]
        p3 = c(0, 0) + c(1, 1) + c(2, 2)
        p = mh.get_pressure(S); s = mh.get_dev_stress(S)
        J2 = mh.get_J2(S); q = mh.get_q_vm(S); tau = mh.get_scalar_shear_stress(S, None, None)
        for nm, a in (("p", p), ("J2", J2), ("q", q), ("tau", tau)): k.shape("shape_" + nm, a, S.shape[:-2])
        k.shape("shape_s", s, S.shape)
        k.eq("pressure", 3 * p, p3)
        k.eq("deviator", s, S - p3[..., None, None] / 3 * I3)
        k.eq("J2", 6 * J2, (c(0, 0) - c(1, 1)) ** 2 + (c(1, 1) - c(2, 2)) ** 2 + (c(2, 2) - c(0, 0)) ** 2 + 6 * (c(0, 1) ** 2 + c(1, 2) ** 2 + c(2, 0) ** 2))
        k.ge("J2_nonneg", J2, 0.0)
        k.eq("q", q ** 2, 3 * J2); k.ge("q_nonneg", q, 0.0)
        k.eq("tau", tau ** 2, J2); k.ge("tau_nonneg", tau, 0.0)
        # given parts are used instead of recomputed ones
        P, E = I.P, sym(I.E)
        k.eq("deviator_given_pressure", mh.get_dev_stress(S, P), S - P[..., None, None] * I3)
        k.eq("J2_given_deviator", mh.get_J2(dev_stress=E), 0.5 * (E * E).sum((-1, -2)))
        k.eq("J2_given_pressure", mh.get_J2(S, pressure=p), J2)
        k.eq("q_given_deviator", mh.get_q_vm(dev_stress=E), jnp.sqrt(1.5 * (E * E).sum((-1, -2))))
        k.eq("q_given_pressure", mh.get_q_vm(S, pressure=p), q)
        k.eq("tau_given_deviator", mh.get_scalar_shear_stress(S, E, None), jnp.sqrt(0.5 * (E * E).sum((-1, -2))))
        k.eq("contraction", mh.get_double_contraction(I.S, I.E), (I.S * I.E).sum((-1, -2)))
        # stack spellings
        k.eq("stack_pressure", mh.get_pressure_stack(S), p); k.eq("stack_dev", mh.get_dev_stress_stack(S), s)
        k.eq("stack_dev_p", mh.get_dev_stress_stack(S, P), mh.get_dev_stress(S, P))
        k.eq("stack_J2", mh.get_J2_stack(S), J2); k.eq("stack_J2_dev", mh.get_J2_stack(S, E), mh.get_J2(dev_stress=E))
        k.eq("stack_q", mh.get_q_vm_stack(S), q); k.eq("stack_q_dev", mh.get_q_vm_stack(S, E), mh.get_q_vm(dev_stress=E))
        k.eq("stack_tau", mh.get_scalar_shear_stress_stack(S), tau)
        k.eq("stack_contraction", mh.get_double_contraction_stack(I.S, I.E), (I.S * I.E).sum((-1, -2)))
    ins = dict(S=In(lead + (3, 3), gen=symgen), E=In(lead + (3, 3), gen=symgen), P=In(lead))
    return Contract("stress." + rank, fn, ins, dims=list(lead), sizes=[{}] if not lead else NS if len(lead) == 1 else BT, rounds=2, batch=48)


def axis_rot(ax, c, s):
    i, j = (ax + 1) % 3, (ax + 2) % 3
    R = jnp.eye(3)
    return R.at[i, i].set(c).at[j, j].set(c).at[i, j].set(-s).at[j, i].set(s)


def unit(name):
    def f(rng, dims, s):
        a = rng.uniform(-np.pi, np.pi)
        return {name[0]: np.cos(a), name[1]: np.sin(a)}
    return f


def invariance(ax):
    """the invariants do not depend on the frame (rotations about the axes generate all rotations); J2, q, tau do not see pressure"""
    def fn(I, k, D):
        k.assume_eq(I.s ** 2, 1 - I.c ** 2, rewrite=True)
        S, E = sym(I.S), sym(I.E)
        R = axis_rot(ax, I.c, I.s)
        rot = lambda a: jnp.einsum("ij,njk,lk->nil", R, a, R)
        SR = rot(S)
        k.eq("pressure", mh.get_pressure(SR), mh.get_pressure(S))
        k.eq("J2", mh.get_J2(SR), mh.get_J2(S))
        k.eq("q", mh.get_q_vm(SR), mh.get_q_vm(S))
        k.eq("tau", mh.get_scalar_shear_stress(SR, None, None), mh.get_scalar_shear_stress(S, None, None))
        k.eq("deviator", mh.get_dev_stress(SR), rot(mh.get_dev_stress(S)))
        k.eq("contraction", mh.get_double_contraction(SR, rot(E)), mh.get_double_contraction(S, E))
        k.eq("volumetric", mh.get_volumetric_strain(SR), mh.get_volumetric_strain(S))
        k.eq("dev_strain", mh.get_dev_strain(SR), rot(mh.get_dev_strain(S)))
        k.eq("shear_strain", mh.get_shear_strain_vm(SR), mh.get_shear_strain_vm(S))
        Sp = S + sph(I.P)
        k.eq("J2_pressure", mh.get_J2(Sp), mh.get_J2(S)); k.eq("q_pressure", mh.get_q_vm(Sp), mh.get_q_vm(S))
        k.eq("p_pressure", mh.get_pressure(Sp), mh.get_pressure(S) + I.P)
        k.eq("shear_pressure", mh.get_shear_strain_vm(Sp), mh.get_shear_strain_vm(S))
        # homogeneity
        k.eq("q_scales", mh.get_q_vm(I.a * S), I.a * mh.get_q_vm(S)); k.eq("p_scales", mh.get_pressure(I.a * S), I.a * mh.get_pressure(S))
    return Contract("invariance.axis%d" % ax, fn, dict(S=In(("n", 3, 3), gen=symgen), E=In(("n", 3, 3), gen=symgen), P=In(("n",)), a=pos(), c=In(()), s=In(())),
                    dims=["n"], sizes=NS, sampler=unit(("c", "s")), rounds=1, batch=64)


def triaxial():
    """stress reconstructed from (p, q) has exactly these invariants; lithostatic loading"""
    def fn(I, k, D):
        S = mh.reconstruct_stress_from_triaxial(I.P, I.Q)
        k.shape("shape", S, (D.n, 3, 3))
        k.eq("p", mh.get_pressure(S), I.P); k.eq("q", mh.get_q_vm(S), I.Q)
        k.eq("symmetric", S, T_(S)); k.eq("no_shear", S * (1 - I3), 0.0)
        k.eq("axial", S[:, 2, 2], I.P + 2 * I.Q / 3); k.eq("lateral", S[:, 0, 0], S[:, 1, 1])
        p, q = mh.precondition_from_lithostatic(I.rho, I.z, I.g, I.ang, I.k0)
        # vertical stress sv (from p) and shear stress ta of a slope: sv^2 + ta^2 = (rho g z)^2
        w = I.rho * I.g * I.z; sv = 3 * p / (1 + 2 * I.k0)
        k.eq("lithostatic_q2", q ** 2, ((1 - I.k0) * sv) ** 2 + 3 * (w ** 2 - sv ** 2), tol=1e-6)
        k.ge("lithostatic_bound", w ** 2, sv ** 2)
        k.ge("lithostatic_q", q, 0.0)
        p0, q0 = mh.precondition_from_lithostatic(I.rho, I.z, I.g, k0=I.k0)
        k.eq("level_p", p0, (1 + 2 * I.k0) / 3 * I.rho * I.g * I.z)
        k.eq("level_q2", q0 ** 2, ((1 - I.k0) * I.rho * I.g * I.z) ** 2)
        pd, _ = mh.precondition_from_lithostatic(I.rho, I.z, I.g)
        k.eq("default_k0", pd, 2 / 3 * I.rho * I.g * I.z)
    return Contract("triaxial", fn, dict(P=In(("n",)), Q=In(("n",), ge=0), rho=pos("n"), z=pos("n"), g=pos(), ang=In((), ge=0, le=89.0), k0=In((), ge=0)),
                    dims=["n"], sizes=NS, rounds=2, batch=64)


def slope():
    """bounded: the slope angle is in degrees; invariants of the lithostatic stress tensor of a slope"""
    def fn(I, k, D):
        p, q = mh.precondition_from_lithostatic(I.rho, I.z, I.g, I.ang, I.k0)
        th = I.ang * 3.141592653589793 / 180
        sv, ta = I.rho * I.g * I.z * jnp.cos(th), I.rho * I.g * I.z * jnp.sin(th)
        z0 = jnp.zeros_like(sv)
        S = jnp.stack([jnp.stack([I.k0 * sv, z0, ta], -1), jnp.stack([z0, I.k0 * sv, z0], -1), jnp.stack([ta, z0, sv], -1)], -2)
        k.eq("p", mh.get_pressure(S), p); k.eq("q", mh.get_q_vm(S), q)
        k.eq("sixty_degrees", mh.precondition_from_lithostatic(I.rho, I.z, I.g, 60.0, 1.0)[0], 0.5 * I.rho * I.g * I.z)
    return Contract("triaxial.slope", fn, dict(rho=pos("n"), z=pos("n"), g=pos(), ang=In((), ge=0, le=89.0), k0=In((), ge=0)), dims=["n"], sizes=NS, rounds=2, batch=96, search_only=True,
                    bounded="numerical comparison for random slope angles (the conversion from degrees is a float constant)")


# ------------------------------------------------------------------------------------------------ strain measures
def strain(rank):
    lead = {"one": (), "stack": ("n",), "batch": ("b", "t")}[rank]

    def fn(I, k, D):
        A, e = I.A, sym(I.A)
        c = lambda i, j: e[..., i, j]
        v = c(0, 0) + c(1, 1) + c(2, 2)
        k.eq("volumetric", mh.get_volumetric_strain(e), v)
        k.eq("volumetric_stack", mh.get_volumetric_strain_stack(e), v)
        de = e - v[..., None, None] / 3 * I3
        k.eq("deviator", mh.get_dev_strain(e), de)
        k.eq("deviator_given", mh.get_dev_strain(e, I.P), e - I.P[..., None, None] / 3 * I3)
        k.eq("deviator_stack", mh.get_dev_strain_stack(e), de)
        k.eq("deviator_traceless", tr_(mh.get_dev_strain(e)), 0.0)
        g = mh.get_shear_strain_vm(e)
        k.shape("shape", g, e.shape[:-2])
        k.eq("shear_vm", g ** 2, 2 / 3 * (de * de).sum((-1, -2)) + 1e-16); k.ge("shear_nonneg", g, 0.0)
        k.eq("shear_vm_given", mh.get_shear_strain_vm(dev_strain=sym(I.B)) ** 2, 2 / 3 * (sym(I.B) ** 2).sum((-1, -2)) + 1e-16)
        k.eq("shear_vm_stack", mh.get_shear_strain_vm_stack(e), g)
        k.eq("shear_vm_stack_given", mh.get_shear_strain_vm_stack(e, sym(I.B)), mh.get_shear_strain_vm(dev_strain=sym(I.B)))
        k.eq("rate", mh.get_strain_rate_tensor(A), e); k.eq("rate_stack", mh.get_strain_rate_tensor_stack(A), e)
        k.eq("plastic", mh.get_plastic_strain(A, I.B), A - I.B)
        # definitions per tensor and their stacks
        if rank == "one":
            k.eq("sym", mh.get_sym_tensor(A), e); k.eq("skew", mh.get_skew_tensor(A), A - e); k.eq("spin", mh.get_spin_tensor(A), A - e)
            k.eq("small", mh.get_small_strain(A), e - I3)
            ga = mh.get_scalar_shear_strain(e)
            k.eq("gamma", ga ** 2, 0.5 * (de * de).sum()); k.ge("gamma_nonneg", ga, 0.0)
            k.eq("gamma_given", mh.get_scalar_shear_strain(None, de), ga); k.eq("gamma_vol", mh.get_scalar_shear_strain(e, None, v), ga)
        if rank == "stack":
            k.eq("sym", mh.get_sym_tensor_stack(A), e); k.eq("skew", mh.get_skew_tensor_stack(A), A - e)
            k.eq("small", mh.get_small_strain_stack(A), e - I3)
            k.eq("plastic_stack", mh.get_plastic_strain_stack(A, I.B), A - I.B)
            k.eq("gamma2", mh.get_scalar_shear_strain_stack(e, de, v) ** 2, 0.5 * (de * de).sum((-1, -2)))
    ins = dict(A=In(lead + (3, 3)), B=In(lead + (3, 3)), P=In(lead))
    return Contract("strain." + rank, fn, ins, dims=list(lead), sizes=[{}] if not lead else NS if len(lead) == 1 else BT, rounds=2, batch=48)


def hencky(rank):
    """Hencky strain: the tensor with the principal directions of F F^T and minus the logarithm of the principal stretches"""
    lead = {"one": (), "stack": ("n",)}[rank]

    def fn(I, k, D):
        f = mh.get_hencky_strain if rank == "one" else mh.get_hencky_strain_stack
        eps = f(I.F)
        u, s, vt = jnp.linalg.svd(I.F, full_matrices=False)
        ls = -jnp.log(jnp.maximum(s, 1e-12))
        k.shape("shape", eps, I.F.shape)
        k.eq("spectral", eps, sum(ls[..., i, None, None] * u[..., :, None, i] * u[..., None, :, i] for i in range(3)), tol=1e-6)
        k.eq("symmetric", eps, T_(eps), tol=1e-6)
        uu = [(u[..., 0, i] ** 2 + u[..., 1, i] ** 2 + u[..., 2, i] ** 2) for i in range(3)]
        k.eq("trace", tr_(eps), sum(ls[..., i] * uu[i] for i in range(3)), tol=1e-6)
    return Contract("hencky." + rank, fn, dict(F=In(lead + (3, 3))), dims=list(lead), sizes=[{}] if not lead else NS, rounds=2, batch=64,
                    assumes=["jnp.linalg.svd returns a singular value decomposition U diag(s) V^T of its argument (LAPACK)"])


def hencky_definition():
    """bounded: eps = -1/2 log(F F^T) on sampled F (via an eigendecomposition), rigid rotations give none, compression positive"""
    def fn(I, k, D):
        F = I.F
        w, Q = jnp.linalg.eigh(F @ T_(F))
        ref = -0.5 * jnp.einsum("nij,nj,nkj->nik", Q, jnp.log(w), Q)
        eps = mh.get_hencky_strain_stack(F)
        k.eq("log", eps, ref, tol=1e-6)
        k.eq("volumetric", mh.get_volumetric_strain(eps), -jnp.log(jnp.abs(jnp.linalg.det(F))), tol=1e-6)
        qr, _ = jnp.linalg.qr(F)
        k.eq("rotation", mh.get_hencky_strain_stack(qr), 0.0, tol=1e-6)
        k.eq("material_frame", mh.get_hencky_strain_stack(F @ qr), eps, tol=1e-6)
        k.eq("spatial_frame", mh.get_hencky_strain_stack(qr @ F), qr @ eps @ T_(qr), tol=1e-6)
        k.eq("uniaxial", mh.get_hencky_strain_stack(jnp.tile(jnp.diag(jnp.array([1., 1., .5])), (D.n, 1, 1)))[:, 2, 2], 0.6931471805599453, tol=1e-9)
    return Contract("hencky.definition", fn, dict(F=In(("n", 3, 3), gen=lambda r, s, d: np.eye(3) + r.uniform(-.35, .35, s))), dims=["n"], sizes=NS, rounds=4, batch=96, search_only=True,
                    bounded="numerical comparison with -1/2 log(F F^T) for random F within 0.35 of the identity per entry (svd and eigh are outside the prover)")


# ------------------------------------------------------------------------------------------------ conversions
def conversions():
    """volume fraction, void ratio, density and inertial number"""
    def fn(I, k, D):
        e, phi = I.e, I.phi
        k.eq("phi_e_phi", mh.e_to_phi(mh.phi_to_e(phi)), phi); k.eq("e_phi_e", mh.phi_to_e(mh.e_to_phi(e)), e)
        k.eq("phi", mh.e_to_phi(e) * (1 + e), 1.0); k.gt("phi_pos", mh.e_to_phi(e), 0.0); k.ge("one", 1.0, mh.e_to_phi(e))
        k.eq("e", (1 + mh.phi_to_e(phi)) * phi, 1.0); k.ge("e_nonneg", mh.phi_to_e(phi), 0.0)
        k.eq("phi_stack", mh.e_to_phi_stack(e), mh.e_to_phi(e)); k.eq("e_stack", mh.phi_to_e_stack(phi), mh.phi_to_e(phi))
        # bulk density rho = phi * solid density
        k.eq("bulk_e", mh.get_e_from_bulk_density(I.rp, phi * I.rp), mh.phi_to_e(phi))
        k.eq("bulk_phi", mh.get_phi_from_bulk_density(I.rp, phi * I.rp), phi)
        k.eq("bulk_phi_stack", mh.get_phi_from_bulk_density_stack(I.rp, phi * I.rp), phi)
        # mass balance: solid volume is conserved while the volume changes by the compression tr(L) dt
        L0 = I.L[0]; tr = L0[0, 0] + L0[1, 1] + L0[2, 2]
        k.eq("mass_balance", mh.get_phi_from_L(L0, phi[0], I.dt) * (1 - tr * I.dt), phi[0], when=tr * I.dt != 1)
        # inertial number
        P, G = I.P, I.G
        In_ = mh.get_inertial_number(P, G, I.d, I.rp)
        k.eq("inertial", In_ ** 2 * jnp.maximum(P, 1e-6), (G * I.d) ** 2 * I.rp)
        k.ge("inertial_sign", In_ * G, 0.0)
        k.eq("inertial_stack", mh.get_inertial_number_stack(P, G, I.d, I.rp), In_)
        # kinetic energy
        k.eq("KE", mh.get_KE_stack(I.m, I.v), 0.5 * I.m * (I.v[:, 0] ** 2 + I.v[:, 1] ** 2))
        k.eq("KE_one", mh.get_KE(I.m[0], I.v[0]), 0.5 * I.m[0] * (I.v[0, 0] ** 2 + I.v[0, 1] ** 2))
    return Contract("conversions", fn, dict(e=In(("n",), ge=0), phi=In(("n",), gt=0, le=1), rp=pos(), L=In(("n", 3, 3)), dt=DT, P=In(("n",)), G=In(("n",)),
                                            d=pos(), m=pos("n"), v=In(("n", 2))), dims=["n"], sizes=NS, rounds=2, batch=64)


def jaumann():
    """co-rotation by an antisymmetric spin keeps symmetry, trace, and (to first order) all invariants"""
    def fn(I, k, D):
        S = sym(I.S); W = mh.get_spin_tensor(I.L)
        N = mh.get_jaumann_increment(S, W, I.dt)
        d = N - S
        k.eq("value", d, I.dt * (jnp.einsum("ij,jk->ik", W, S) - jnp.einsum("ij,jk->ik", S, W)))
        k.eq("spin_antisymmetric", W, -W.T); k.eq("spin", 2 * W, I.L - I.L.T)
        k.eq("symmetric", N, N.T); k.eq("trace", jnp.trace(N), jnp.trace(S))
        k.eq("first_order_norm", (S * d).sum(), 0.0); k.eq("first_order_dev", (dev_(S) * d).sum(), 0.0)
        k.eq("hydrostatic", mh.get_jaumann_increment(I.P * I3, W, I.dt), I.P * I3)
        k.eq("decompose", mh.get_sym_tensor(I.L) + W, I.L)
    return Contract("jaumann", fn, dict(S=In((3, 3)), L=In((3, 3)), dt=DT, P=In(())), rounds=2, batch=128)


# ------------------------------------------------------------------------------------------------ robust inverses and norms
def detgen(r, s, d):
    a = r.standard_normal(s)
    if r.random() < .2: a[..., 0, :] = a[..., 1, :]
    return a


def inverses():
    def fn(I, k, D):
        sg = lambda d: jnp.where(d >= 0, 1.0, -1.0)
        x = I.x
        y = mh.safe_inv_scalar_clamped(x)
        k.eq("scalar", y * (x + 1e-20 * sg(x)), 1.0)
        gr = jax.grad(mh.safe_inv_scalar_clamped)(x)
        xs = x + 1e-20 * sg(x)
        k.ge("gradient_clipped", 1e6, jnp.abs(gr)); k.ge("gradient_sign", 0.0, gr)
        g2 = jax.grad(lambda z: mh.safe_inv_scalar_clamped(z, I.clip))(x)
        k.ge("gradient_clipped_at", I.clip, jnp.abs(g2), tol=1e-6)
        k.eq("gradient_exact", g2 * xs ** 2, -1.0, when=I.clip * xs ** 2 >= 1 + 1e-12 * xs ** 2)
        for n, A, f in ((2, I.A, mh.inv_2x2_robust), (3, I.B, mh.inv_3x3_robust)):
            V = f(A)
            if n == 2: det = A[0, 0] * A[1, 1] - A[0, 1] * A[1, 0]
            else: det = (A[0, 0] * (A[1, 1] * A[2, 2] - A[1, 2] * A[2, 1]) + A[0, 1] * (A[1, 2] * A[2, 0] - A[1, 0] * A[2, 2])
                         + A[0, 2] * (A[1, 0] * A[2, 1] - A[1, 1] * A[2, 0]))
            fac = 1 / (det + 1e-20 * sg(det))
            mm = lambda P, Q: sum(P[:, q, None] * Q[None, q, :] for q in range(n))
            k.eq("left%d" % n, mm(V, A), det * fac * jnp.eye(n), when=jnp.abs(det) > 1e-6, tol=1e-6)
            k.eq("right%d" % n, mm(A, V), det * fac * jnp.eye(n), when=jnp.abs(det) > 1e-6, tol=1e-6)
        # norm: value within the guard, derivative finite everywhere
        v = I.v
        k.eq("norm", mh.safe_norm(v) ** 2, (v * v).sum() + 1e-12); k.ge("norm_nonneg", mh.safe_norm(v), 0.0)
        k.eq("norm_eps", mh.safe_norm(v, I.eps) ** 2, (v * v).sum() + I.eps)
        k.eq("norm_axis", mh.safe_norm(I.B, axis=-1) ** 2, (I.B * I.B).sum(-1) + 1e-12)
        g = jax.grad(mh.safe_norm)(v)
        k.eq("norm_gradient", g * mh.safe_norm(v), v)
        k.ge("norm_gradient_bounded", 1.0, (g * g).sum())
    return Contract("inverses", fn, dict(x=In(()), clip=In((), gt=0, gen=lambda r, s, d: 10 ** r.uniform(-1, 4)), A=In((2, 2), gen=detgen), B=In((3, 3), gen=detgen), v=In((3,)),
                                         eps=In((), gt=0, gen=lambda r, s, d: 10 ** r.uniform(-6, 0))), rounds=2, batch=128)


# ------------------------------------------------------------------------------------------------ material points
def mp_measures(dim):
    """derived fields of a material point state"""
    def fn(I, k, D):
        mp = make_mp(I)
        S = I.sig
        k.eq("density", mp.density_stack * (I.V + 1e-16), I.m); k.gt("density_pos", mp.density_stack, 0.0)
        k.eq("density_ref", mp.density_ref_stack * (I.V0 + 1e-16), I.m)
        k.eq("mass_balance", mp.density_stack * (I.V + 1e-16), mp.density_ref_stack * (I.V0 + 1e-16))
        k.eq("pressure", mp.pressure_stack, mh.get_pressure(S))
        k.eq("q", mp.q_stack, mh.get_q_vm(S))
        k.eq("KE", 2 * mp.KE_stack, I.m * sum(I.v[:, i] ** 2 for i in range(dim))); k.ge("KE_nonneg", mp.KE_stack, 0.0)
        k.eq("rate", mp.deps_dt_stack, 0.5 * (I.L + T_(I.L)))
        k.eq("shear_rate", mp.shear_strain_rate_stack, mh.get_shear_strain_vm(0.5 * (I.L + T_(I.L))))
        k.eq("eps", mp.eps_stack, mh.get_hencky_strain_stack(I.F), tol=1e-6)
        k.eq("eps_v", mp.eps_v_stack, tr_(mh.get_hencky_strain_stack(I.F)), tol=1e-6)
        k.eq("shear", mp.shear_strain_stack, mh.get_shear_strain_vm(mh.get_hencky_strain_stack(I.F)), tol=1e-6)
        k.eq("stored_eps", mp.stored_eps_stack, mh.get_hencky_strain_stack(I.Fs), tol=1e-6)
        k.eq("stored_shear", mp.stored_shear_strain_stack, mh.get_shear_strain_vm(mh.get_hencky_strain_stack(I.Fs)), tol=1e-6)
        k.static("num_points", mp.num_points == D.n, mp.num_points); k.static("dim", mp.dim == dim, mp.dim)
    ins = law_inputs(dim); ins["Fs"] = In(("n", 3, 3)); ins["F"] = In(("n", 3, 3))
    return Contract("points.measures.%dd" % dim, fn, ins, dims=["n"], sizes=NS, rounds=2, batch=48,
                    assumes=["jnp.linalg.svd returns a singular value decomposition U diag(s) V^T of its argument (LAPACK)"])


def mp_create(dim):
    """defaults and given arguments of MaterialPointState.create"""
    def fn(I, k, D):
        n = D.n
        z = jnp.zeros((n, dim)); z3 = jnp.zeros((n, 3, 3)); E = jnp.broadcast_to(I3, (n, 3, 3))
        a = MaterialPointState.create(position_stack=I.x)
        for nm, got, want in (("x", a.position_stack, I.x), ("v", a.velocity_stack, z), ("f", a.force_stack, z), ("L", a.L_stack, z3), ("sig", a.stress_stack, z3),
                              ("F", a.F_stack, E), ("V", a.volume_stack, 0.25 * jnp.ones(n)), ("V0", a.volume0_stack, 0.25 * jnp.ones(n)), ("m", a.mass_stack, 250.0 * jnp.ones(n))):
            k.shape("default_shape_" + nm, got, want.shape); k.eq("default_" + nm, got, want)
        k.static("default_store", a.F_store_stack is None)
        b = MaterialPointState.create(position_stack=I.x, cell_size=I.hh, ppc=I.pc, density_stack=I.rho)
        k.eq("cell_volume", b.volume_stack * I.pc, I.hh ** dim * jnp.ones(n)); k.eq("cell_volume0", b.volume0_stack, b.volume_stack)
        k.eq("mass_density", b.mass_stack, I.rho * b.volume_stack)
        b2 = MaterialPointState.create(position_stack=I.x, cell_size=I.hh, points_per_cell=I.pc)
        k.eq("points_per_cell", b2.volume_stack * I.pc, I.hh ** dim * jnp.ones(n))
        c = MaterialPointState.create(position_stack=I.x, volume_stack=I.V, density_stack=I.rho, store_F=True)
        k.eq("volume_given", c.volume_stack, I.V); k.eq("volume0_default", c.volume0_stack, I.V); k.eq("mass_from_volume", c.mass_stack, I.rho * I.V)
        k.eq("store_default", c.F_store_stack, E)
        d = MaterialPointState.create(position_stack=I.x, velocity_stack=I.v, force_stack=I.f, mass_stack=I.m, volume_stack=I.V, volume0_stack=I.V0,
                                      L_stack=I.L, stress_stack=I.sig, F_stack=I.F, store_F=True, cell_size=I.hh, ppc=I.pc, density_stack=I.rho)
        for nm, got, want in (("x", d.position_stack, I.x), ("v", d.velocity_stack, I.v), ("f", d.force_stack, I.f), ("m", d.mass_stack, I.m), ("V", d.volume_stack, I.V),
                              ("V0", d.volume0_stack, I.V0), ("L", d.L_stack, I.L), ("sig", d.stress_stack, I.sig), ("F", d.F_stack, I.F), ("Fs", d.F_store_stack, I.F)):
            k.eq("given_" + nm, got, want)
        # every subset of given arguments: given arrays are carried over, missing ones derived from the given ones
        opt = dict(velocity_stack=I.v, force_stack=I.f, L_stack=I.L, stress_stack=I.sig, F_stack=I.F)
        dflt = dict(velocity_stack=z, force_stack=z, L_stack=z3, stress_stack=z3, F_stack=E)
        for j in range(32):
            bit = lambda q: (j >> q) & 1
            kw = {}
            if bit(0): kw["mass_stack"] = I.m
            if bit(1): kw["volume_stack"] = I.V
            if bit(2): kw["volume0_stack"] = I.V0
            if bit(3): kw["density_stack"] = I.rho
            if bit(4): kw.update(cell_size=I.hh, ppc=I.pc)
            giv = {f: v for q, (f, v) in enumerate(opt.items()) if ((j * 11 + 5) >> q) & 1}
            o = MaterialPointState.create(position_stack=I.x, store_F=bool(bit(3) ^ bit(0)), **kw, **giv)
            V = I.V if bit(1) else (I.hh ** dim / I.pc if bit(4) else 0.25) * jnp.ones(n)
            k.eq("subset_volume", o.volume_stack, V); k.eq("subset_volume0", o.volume0_stack, I.V0 if bit(2) else V)
            k.eq("subset_mass", o.mass_stack, I.m if bit(0) else V * (I.rho if bit(3) else 1000.0))
            for f in opt: k.eq("subset_" + f, getattr(o, f), giv.get(f, dflt[f]))
            if bit(3) ^ bit(0): k.eq("subset_store", o.F_store_stack, o.F_stack)
            else: k.static("subset_no_store", o.F_store_stack is None)
        r = RigidMaterialPointState.create(position_stack=I.x)
        k.eq("rigid_x", r.position_stack, I.x); k.eq("rigid_v", r.velocity_stack, z); k.eq("rigid_m", r.mass_stack, jnp.ones(n)); k.eq("rigid_normal", r.normal_stack, z)
        r2 = RigidMaterialPointState.create(position_stack=I.x, normal_stack=I.v)
        k.eq("rigid_normal_given", r2.normal_stack, I.v)
    ins = law_inputs(dim, hh=pos(), pc=pos(), rho=pos("n"))
    return Contract("points.create.%dd" % dim, fn, ins, dims=["n"], sizes=NS, rounds=2, batch=48)


CONTRACTS = ([stress(r) for r in ("one", "stack", "batch")] + [invariance(a) for a in range(3)] + [triaxial(), slope()]
             + [strain(r) for r in ("one", "stack", "batch")] + [hencky("one"), hencky("stack"), hencky_definition(), conversions(), jaumann(), inverses()]
             + [mp_measures(d) for d in (2, 3)] + [mp_create(d) for d in (2, 3)])
