"""Signed distance objects (hydraxmpm/sdf): distances, normals, surface velocities, rigid motion."""
from contracts.common import *
from hydraxmpm.sdf.sdfobject import SDFObjectBase, SDFObjectState
from hydraxmpm.sdf import sdfcollection as sc, gridsdf
from hydraxmpm.utils import math_helpers as mh
import types

U = lambda a, b: (lambda r, s, d: r.uniform(a, b, s))


def unit_q(r, sh, d):
    q = r.standard_normal(sh); return q / np.linalg.norm(q, axis=-1, keepdims=True)


def rot_inputs(dim):
    if dim == 2: return dict(th=In(()), om=In(()))
    return dict(th=In((4,), gen=unit_q), om=In((3,)))


def unit_rule(k, v, name):
    k.assume_eq(v[0] ** 2, 1.0 - (v[1:] ** 2).sum(), name=name, rewrite=True)


def to_local(dim, th, x):
    """R^T x with R the rotation of the object: angle in 2D, unit quaternion [w, x, y, z] in 3D"""
    if dim == 2:
        R = jnp.array([[jnp.cos(th), -jnp.sin(th)], [jnp.sin(th), jnp.cos(th)]])
    else:
        w, a, b, c = th
        R = jnp.array([[1 - 2 * (b * b + c * c), 2 * (a * b - w * c), 2 * (a * c + w * b)],
                       [2 * (a * b + w * c), 1 - 2 * (a * a + c * c), 2 * (b * c - w * a)],
                       [2 * (a * c - w * b), 2 * (b * c + w * a), 1 - 2 * (a * a + b * b)]])
    return x @ R          # rows: R^T x


def st(dim, c=None, th=None, v=None, om=None):
    z = jnp.zeros(dim)
    return SDFObjectState(center_of_mass=z if c is None else c, rotation=(0.0 if dim == 2 else jnp.array([1.0, 0, 0, 0])) if th is None else th,
                          velocity=z if v is None else v, angular_velocity=(0.0 if dim == 2 else jnp.zeros(3)) if om is None else om)


SHAPES = dict(
    box=(lambda I, dim: sc.BoxSDF(I.size[:dim]), (2, 3)),
    sphere=(lambda I, dim: sc.SphereSDF(I.r), (2, 3)),
    plane=(lambda I, dim: sc.PlaneSDF(I.nv[:dim]), (2, 3)),
    capsule=(lambda I, dim: sc.CapsuleSDF(I.r, I.hgt), (2, 3)),
    ring=(lambda I, dim: sc.HollowCylinderSDF(I.hgt, I.ro, I.ri), (2, 3)),
    walls=(lambda I, dim: sc.HollowCylinderSDF(I.hgt, I.ro, I.ri, is_2d_ring=False), (2,)),
    cylinder=(lambda I, dim: sc.CylinderSDF(I.r, I.hgt), (3,)),
    torus=(lambda I, dim: sc.TorusSDF(I.ro, I.ri), (3,)),
)
PAR = dict(size=In((3,), gt=0, gen=U(.2, 3)), r=In((), gt=0, gen=U(.2, 2)), nv=In((3,)), hgt=In((), gt=0, gen=U(.2, 3)),
           ri=In((), gt=0, gen=U(.1, .5)), ro=In((), gt=0, gen=U(.6, 2)))
EPS = 1.0000001e-6     # sqrt(1e-12): the smoothing of safe_norm


def near(k, name, a, b, tol, when=None):
    k.ge(name + "_upper", b + tol, a, when=when); k.ge(name + "_lower", a + tol, b, when=when)


def guarded(k, p):
    """distance from the Y axis with the 1e-12 guard of safe_norm: within 1e-6 of the exact one"""
    s = p[:, 0] ** 2 + p[:, 2] ** 2
    near(k, "radius", jnp.sqrt(s + 1e-12), jnp.sqrt(s), EPS)
    return jnp.sqrt(s + 1e-12)


def dist_contract(shape, dim):
    """distance of the shape in its own frame: the Euclidean distance to the closest surface point, negative inside"""
    mk = SHAPES[shape][0]

    def fn(I, k, D):
        p = I.p
        sd = mk(I, dim).get_signed_distance_stack(st(dim), p)
        k.shape("shape", sd, p.shape[:1])
        nrm = lambda a: jnp.sqrt((a * a).sum(-1))
        if shape == "box":
            h = I.size[:dim] / 2; d = jnp.abs(p) - h
            out = (d > 0).any(1)
            q = jnp.clip(p, -h, h)
            near(k, "outside", sd, nrm(p - q), EPS, when=out)
            near(k, "inside", sd, d.max(1), EPS, when=~out)
            k.gt("sign_outside", sd, 0.0, when=out)
        elif shape == "sphere":
            k.eq("distance", sd, nrm(p) - I.r)
        elif shape == "plane":
            n = I.nv[:dim]
            k.assume_eq((n * n).sum(), 1.0, name="unit_plane_normal")
            k.eq("distance", sd * (1 + 1e-12), (p * n).sum(1))
        elif shape == "capsule":
            h = I.hgt / 2
            cl = jnp.zeros_like(p).at[:, 1].set(jnp.clip(p[:, 1], -h, h))
            near(k, "distance", sd, nrm(p - cl) - I.r, EPS)
        elif shape in ("ring", "walls"):
            k.assume(I.ri < I.ro)
            if dim == 3:
                r = jnp.sqrt(p[:, 0] ** 2 + p[:, 2] ** 2); dy = jnp.abs(p[:, 1]) - I.hgt / 2
            elif shape == "ring": r = nrm(p); dy = jnp.full(r.shape, -1e9)
            else: r = jnp.abs(p[:, 0]); dy = jnp.abs(p[:, 1]) - I.hgt / 2
            dr = jnp.maximum(r - I.ro, I.ri - r)
            if shape == "ring" and dim == 2:
                k.assume(I.ro < 1e8)
                near(k, "distance", sd, dr, EPS)
            else:
                a, b = jnp.maximum(dr, 0), jnp.maximum(dy, 0)
                out = (dr > 0) | (dy > 0)
                near(k, "outside", sd, jnp.sqrt(a * a + b * b), EPS, when=out)
                near(k, "inside", sd, jnp.maximum(dr, dy), EPS, when=~out)
        elif shape == "cylinder":
            r = guarded(k, p); dr = r - I.r; dy = jnp.abs(p[:, 1]) - I.hgt / 2
            a, b = jnp.maximum(dr, 0), jnp.maximum(dy, 0)
            out = (dr > 0) | (dy > 0)
            near(k, "outside", sd, jnp.sqrt(a * a + b * b), EPS, when=out)
            near(k, "inside", sd, jnp.maximum(dr, dy), EPS, when=~out)
        elif shape == "torus":
            r = guarded(k, p)
            near(k, "distance", sd, jnp.sqrt((r - I.ro) ** 2 + p[:, 1] ** 2) - I.ri, EPS)
    ins = dict(p=In(("n", dim), gen=lambda r, s, d: r.standard_normal(s) * r.choice([.3, 1, 3])))
    ins.update(PAR)
    def sam(rng, dims, s):
        v = rng.standard_normal(3); v[dim:] = 0
        return dict(nv=v / np.linalg.norm(v))
    return Contract("dist.%s.%dd" % (shape, dim), fn, ins, dims=["n"], sizes=[dict(n=5), dict(n=1)], sampler=sam, rounds=4, batch=64, budget=90)


def frame_contract(shape, dim):
    """the world distance is the local distance of the point taken back by the rigid motion of the object"""
    mk = SHAPES[shape][0]

    def fn(I, k, D):
        s = mk(I, dim)
        if dim == 3: unit_rule(k, I.th, "unit_quaternion")
        sd = s.get_signed_distance_stack(st(dim, I.c, I.th, I.v, I.om), I.p)
        loc = to_local(dim, I.th, I.p - I.c)
        k.eq("rigid_motion", sd, s.get_signed_distance_stack(st(dim), loc))
    ins = dict(p=In(("n", dim)), c=In((dim,)), v=In((dim,)), **rot_inputs(dim))
    ins.update(PAR)
    return Contract("frame.%s.%dd" % (shape, dim), fn, ins, dims=["n"], sizes=[dict(n=4), dict(n=1)], rounds=2, batch=64)


def motion_contract(dim):
    """rigid motion: the surface velocity is the time derivative of the motion that update_kinematics integrates"""
    def fn(I, k, D):
        s = sc.BoxSDF(jnp.ones(dim))
        if dim == 3: unit_rule(k, I.th, "unit_quaternion")
        st0 = st(dim, I.c, I.th, I.v, I.om)
        vel = s.get_velocity_stack(st0, I.p, I.dt)
        r = I.p - I.c
        if dim == 2: w = jnp.stack([-I.om * r[:, 1], I.om * r[:, 0]], 1)
        else:
            w = jnp.stack([I.om[1] * r[:, 2] - I.om[2] * r[:, 1], I.om[2] * r[:, 0] - I.om[0] * r[:, 2], I.om[0] * r[:, 1] - I.om[1] * r[:, 0]], 1)
        k.eq("rigid_velocity", vel, I.v + w)
        new = s.update_kinematics(st0, I.dt)
        k.eq("centre", new.center_of_mass, I.c + I.dt * I.v)
        k.eq("velocity_kept", new.velocity, I.v); k.eq("angular_velocity_kept", new.angular_velocity, I.om)
        if dim == 2: k.eq("angle", new.rotation, I.th + I.om * I.dt)
        else:
            q2 = (new.rotation ** 2).sum()
            k.ge("quaternion_norm_upper", 1.0, q2); k.ge("quaternion_norm_lower", q2, 1.0 - 3e-12)
        k.shape("rotation_shape", jnp.asarray(new.rotation), jnp.shape(I.th))

        # a material point X of the body moves with that velocity
        def carry(dt):
            n = s.update_kinematics(st0, dt)
            if dim == 2: R = sc.rotation_2d(n.rotation, I.X)
            else: R = sc.quaternion_rotate(n.rotation, I.X)
            return n.center_of_mass + R
        _, dv = jax.jvp(carry, (jnp.zeros(()),), (jnp.ones(()),))
        at = I.c + (sc.rotation_2d(I.th, I.X) if dim == 2 else sc.quaternion_rotate(I.th, I.X))
        surf = s.get_velocity(st0, at, I.dt)
        # (the 3D quaternion is renormalised with a 1e-12 guard, which scales the rotation by less than 3e-12)
        sc_ = 1.0 if dim == 2 else 1.0 + 1e-12
        k.eq("motion", (dv - I.v) * sc_ * sc_, surf - I.v)
        # and the body-frame coordinates of the point stay X
        back = s.transform_to_local(st0, at)
        k.eq("inverse_motion", back, I.X)
    ins = dict(p=In(("n", dim)), c=In((dim,)), v=In((dim,)), X=In((dim,)), dt=In((), ge=0, gen=U(0, .1)), **rot_inputs(dim))
    return Contract("motion.%dd" % dim, fn, ins, dims=["n"], sizes=[dict(n=4), dict(n=1)], rounds=2, batch=64)


def normal_contract(shape, dim):
    """normals in the frame of the object: unit length, pointing away from the closest surface point"""
    mk = SHAPES[shape][0]

    def fn(I, k, D):
        p = I.p
        nl = mk(I, dim).get_normal_stack(st(dim), p)
        k.shape("shape", nl, p.shape)
        if shape == "sphere":
            rr = jnp.sqrt((p * p).sum(1))
            k.assume((p * p).sum(1) > 1e-6)
            near(k, "radial", nl, p / rr[:, None], 2e-12)
        elif shape == "plane":
            n = I.nv[:dim]
            k.assume_eq((n * n).sum(), 1.0, name="unit_plane_normal")
            near(k, "plane_normal", nl, jnp.broadcast_to(n, nl.shape), 1e-9)
        elif shape in ("box", "cylinder", "walls", "ring"):
            # regions in which one face is the closest: axes of the local faces
            if shape == "box":
                d = jnp.abs(p) - I.size[:dim] / 2
                faces = [(d[:, j], [d[:, i] for i in range(dim) if i != j], jnp.sign(p[:, j])[:, None] * jnp.eye(dim)[j], p[:, j] != 0) for j in range(dim)]
            else:
                dy = jnp.abs(p[:, 1]) - I.hgt / 2
                ey = jnp.sign(p[:, 1])[:, None] * jnp.eye(dim)[1]
                if shape == "cylinder": r2 = p[:, 0] ** 2 + p[:, 2] ** 2; inn = jnp.sqrt(r2 + 1e-12) < I.r
                else: k.assume(I.ri < I.ro); r2 = p[:, 0] ** 2 + (p[:, 2] ** 2 if dim == 3 else 0); inn = (r2 < I.ro ** 2) & (r2 > I.ri ** 2)
                out = (dy > 1e-3) & inn
                near(k, "cap_outside", nl, ey, 1e-5, when=jnp.broadcast_to(out[:, None], nl.shape))
                faces = []
            for j, (dj, o, e, nz) in enumerate(faces):
                face = (dj > 1e-3) & jnp.stack([x < 0 for x in o]).all(0)
                near(k, "face%d_outside" % j, nl, e, 1e-5, when=jnp.broadcast_to(face[:, None], nl.shape))
                deep = (dj < 0) & jnp.stack([x < dj for x in o]).all(0)
                near(k, "face%d_inside" % j, nl, e, 1e-9, when=jnp.broadcast_to((deep & nz)[:, None], nl.shape))
        elif shape == "capsule":
            h = I.hgt / 2
            r = p - jnp.zeros_like(p).at[:, 1].set(jnp.clip(p[:, 1], -h, h))
            rr = jnp.sqrt((r * r).sum(1))
            # along the vector from the closest point of the axis
            for j in range(dim):
                for i in range(j): k.eq("radial_%d%d" % (i, j), nl[:, i] * r[:, j], nl[:, j] * r[:, i], when=(p[:, 1] != h) & (p[:, 1] != -h))
            k.ge("outward", (nl * r).sum(1), 0.0)
    ins = dict(p=In(("n", dim)))
    ins.update(PAR)
    def sam(rng, dims, s):
        v = rng.standard_normal(3); v[dim:] = 0
        return dict(nv=v / np.linalg.norm(v))
    return Contract("normal.%s.%dd" % (shape, dim), fn, ins, dims=["n"], sizes=[dict(n=5), dict(n=1)], sampler=sam, rounds=3, batch=64, budget=60)


class LinSDF(SDFObjectBase):
    """a shape with an arbitrary local gradient: what the frame change of the normals depends on"""
    g: object
    def signed_distance_local(self, st, p): return jnp.dot(p, self.g)


def nframe_contract(shape, dim):
    """the world normal is the local normal of the point taken back by the rigid motion, rotated with the object"""
    def fn(I, k, D):
        s = LinSDF(I.g) if shape == "any" else SHAPES[shape][0](I, dim)
        if dim == 3: unit_rule(k, I.th, "unit_quaternion")
        nor = s.get_normal_stack(st(dim, I.c, I.th, I.v, I.om), I.p)
        loc = to_local(dim, I.th, I.p - I.c)
        nl = s.get_normal_stack(st(dim), loc)
        k.eq("rotated_normal", to_local(dim, I.th, nor), nl)
        if shape == "any":
            gg = jnp.sqrt((I.g * I.g).sum())
            # along the gradient and, for a gradient that does not vanish, of unit length
            k.eq("along_gradient", nl * (gg + 1e-12), jnp.broadcast_to(I.g, nl.shape))
            q = (nl * nl).sum(1)
            k.ge("at_most_unit", 1.0, q)
            k.ge("unit", q, 1.0 - 1e-5, when=jnp.broadcast_to(gg > 1e-6, q.shape))
    ins = dict(p=In(("n", dim)), c=In((dim,)), v=In((dim,)), **rot_inputs(dim))
    if shape == "any": ins["g"] = In((dim,))
    else: ins.update(PAR)
    return Contract("nframe.%s.%dd" % (shape, dim), fn, ins, dims=["n"], sizes=[dict(n=4), dict(n=1)], rounds=2, batch=64, budget=60,
                    search_only=shape not in ("any", "plane"), bounded=None if shape in ("any", "plane") else "frame change of the normals of this shape on sampled inputs (proved for an arbitrary local gradient)")


def domain_contract(dim):
    """rectangular container: positive inside, distance to the closest wall, inward normals, wall friction, static"""
    def fn(I, k, D):
        s = sc.DomainSDF(I.lo, I.lo + I.ext, frictions=I.mu)
        state = st(dim, I.c, I.th, I.v, I.om)
        sd = s.get_signed_distance_stack(state, I.p)
        lo, hi = I.lo, I.lo + I.ext
        gaps = jnp.concatenate([I.p - lo, hi - I.p], 1)
        for j in range(2 * dim): k.ge("wall%d" % j, gaps[:, j], sd)
        k.true("some_wall", (gaps == sd[:, None]).any(1))
        k.gt("inside_positive", sd, 0.0, when=((I.p > lo) & (I.p < hi)).all(1))
        k.gt("outside_negative", 0.0, sd, when=((I.p < lo) | (I.p > hi)).any(1))
        nor = s.get_normal_stack(state, I.p); fr = s.get_surface_friction_stack(state, I.p)
        for j in range(2 * dim):
            close = jnp.stack([gaps[:, i] > gaps[:, j] for i in range(2 * dim) if i != j]).all(0)
            e = jnp.eye(dim)[j % dim] * (1 if j < dim else -1)
            k.eq("normal%d" % j, nor, jnp.broadcast_to(e, nor.shape), when=jnp.broadcast_to(close[:, None], nor.shape))
            k.eq("friction%d" % j, fr, jnp.broadcast_to(I.mu[j], fr.shape), when=close)
        new = s.update_kinematics(state, I.dt)
        k.eq("static_centre", new.center_of_mass, I.c); k.eq("static_rotation", new.rotation, I.th)
    ins = dict(p=In(("n", dim)), lo=In((dim,)), ext=In((dim,), gt=0, gen=U(.2, 2)), mu=In((2 * dim,), ge=0), c=In((dim,)), v=In((dim,)), dt=In((), ge=0), **rot_inputs(dim))
    return Contract("domain.%dd" % dim, fn, ins, dims=["n"], sizes=[dict(n=5), dict(n=1)], rounds=2, batch=64)


def composite_contract(dim):
    """union: the smallest member distance, and the friction of that member"""
    def fn(I, k, D):
        a, b, c = sc.BoxSDF(I.size[:dim]), sc.SphereSDF(I.r), sc.CapsuleSDF(I.ro, I.hgt)
        s = sc.CompositeSDF([a, b, c], I.mu)
        if dim == 3: unit_rule(k, I.th, "unit_quaternion")
        state = st(dim, I.c, I.th, I.v, I.om)
        ds = [m.get_signed_distance_stack(state, I.p) for m in (a, b, c)]
        if dim == 3: ds[1] = b.get_signed_distance_stack(st(dim), to_local(dim, I.th, I.p - I.c))
        sd = s.get_signed_distance_stack(state, I.p); fr = s.get_surface_friction_stack(state, I.p)
        mn = jnp.minimum(jnp.minimum(ds[0], ds[1]), ds[2])
        k.eq("union", sd, mn)
        for j in range(3):
            o = [i for i in range(3) if i != j]
            k.eq("friction%d" % j, fr, jnp.broadcast_to(I.mu[j], fr.shape), when=(ds[o[0]] > ds[j]) & (ds[o[1]] > ds[j]))
    ins = dict(p=In(("n", dim)), c=In((dim,)), v=In((dim,)), mu=In((3,), ge=0), **rot_inputs(dim))
    ins.update(PAR)
    return Contract("composite.%dd" % dim, fn, ins, dims=["n"], sizes=[dict(n=4), dict(n=1)], rounds=2, batch=64, shards=4 if dim == 3 else 1)


ALL = [(s, d) for s in SHAPES for d in SHAPES[s][1]]
CONTRACTS = [dist_contract(s, d) for s, d in ALL] + [frame_contract(s, d) for s, d in ALL]
CONTRACTS += [motion_contract(d) for d in (2, 3)] + [normal_contract(s, d) for s in ("sphere", "plane", "box", "capsule") for d in (2, 3)]
CONTRACTS += [normal_contract("cylinder", 3), normal_contract("walls", 2), normal_contract("ring", 3)] + [nframe_contract(s, d) for s, d in [("any", 2), ("any", 3)] + ALL if s != "sphere" and s != "ring"]
CONTRACTS += [domain_contract(d) for d in (2, 3)] + [composite_contract(d) for d in (2, 3)]


# ------------------------------------------------------------------------------------------------ sampled, star-shaped and point-cloud objects
def grid_contract(res):
    """distances sampled on a lattice: trilinear between the samples, the samples themselves at the lattice nodes, scaled and thickened, nearest sample outside"""
    def fn(I, k, D):
        data = I.data.reshape(res)
        load = gridsdf.np
        try:
            gridsdf.np = types.SimpleNamespace(load=lambda f: dict(sdf=data, min=I.lo, max=I.lo + I.ext))
            s = gridsdf.GridSDF("file", thickness=0.25, scale=2.0)
        finally: gridsdf.np = load
        sc_, th = 2.0, 0.25
        lo, hi = s.get_local_bounds()
        k.eq("bounds_low", lo, sc_ * I.lo - th); k.eq("bounds_high", hi, sc_ * (I.lo + I.ext) + th)
        R = jnp.array(res) - 1
        data3 = data
        for i in np.ndindex(*[r - 1 for r in res]):       # every cell of the lattice; f is the place inside it
            f = I.f
            sd = s.get_signed_distance_stack(st(3), sc_ * (I.lo + (jnp.array(i) + f) / R * (I.ext + 1e-12)))
            lin = sum((f[:, 0] if a else 1 - f[:, 0]) * (f[:, 1] if b else 1 - f[:, 1]) * (f[:, 2] if c else 1 - f[:, 2]) * data3[i[0] + a, i[1] + b, i[2] + c] for a in (0, 1) for b in (0, 1) for c in (0, 1))
            k.eq("trilinear" + "".join(map(str, i)), sd, sc_ * lin - th)
    ins = dict(data=In((int(np.prod(res)),)), lo=In((3,)), ext=In((3,), gt=0, gen=U(.2, 2)), f=In(("n", 3), ge=0, lt=1, gen=U(0, 1)))
    return Contract("grid.%dx%dx%d" % res, fn, ins, dims=["n"], sizes=[dict(n=5), dict(n=1)], rounds=2, batch=32, bounded="lattice of %dx%dx%d samples, arbitrary values and query points" % res)


def star_contract(n):
    """bounded: signed distance to the star polygon"""
    def fn(I, k, D):
        s = sc.StarSDF(n, I.ro, I.ro * I.q)
        sd = s.get_signed_distance_stack(st(2, I.c, I.th, I.v, I.om), I.p)
        loc = to_local(2, I.th, I.p - I.c)
        a = np.pi / n * jnp.arange(2 * n); r = jnp.where(jnp.arange(2 * n) % 2 == 0, I.ro, I.ro * I.q)
        V = jnp.stack([r * jnp.sin(a), r * jnp.cos(a)], 1); W = jnp.roll(V, -1, 0); e = W - V
        w = loc[:, None, :] - V[None]
        t = jnp.clip((w * e).sum(-1) / (e * e).sum(-1), 0, 1)
        d = jnp.sqrt(((w - t[..., None] * e) ** 2).sum(-1)).min(1)
        # winding number by angles
        x, y = V[None] - loc[:, None], W[None] - loc[:, None]
        ang = jnp.arctan2(x[..., 0] * y[..., 1] - x[..., 1] * y[..., 0], (x * y).sum(-1)).sum(1)
        k.eq("distance", sd, jnp.where(jnp.abs(ang) > np.pi, -d, d), tol=1e-9)
    ins = dict(p=In(("n", 2)), ro=In((), gt=0, gen=U(.5, 2)), q=In((), gt=0, lt=1, gen=U(.2, .9)), c=In((2,)), v=In((2,)), **rot_inputs(2))
    return Contract("star.%d" % n, fn, ins, dims=["n"], sizes=[dict(n=16)], rounds=3, batch=64, search_only=True, bounded="distance to the star polygon on sampled points (angular folding is outside the fragment)")


def cloud_contract(dim, smooth, m=3):
    """cloud of material points: distance to the closest of the balls holding the reference volumes"""
    def fn(I, k, D):
        s = sc.MaterialPointCloudSDF(smooth_k=smooth)
        mp = raw(Box, position_stack=I.x, volume0_stack=I.V)
        sd = s.get_signed_distance_stack(I.p, mp)
        V = I.V + (np.pi * 1e-12 if dim == 2 else 0)
        r = jnp.sqrt(V / jnp.pi) if dim == 2 else (3 * V / (4 * jnp.pi)) ** (1 / 3)
        gaps = jnp.sqrt(((I.p[:, None] - I.x[None]) ** 2).sum(-1)) - r
        if smooth: k.eq("smooth_minimum", sd, -jax.nn.logsumexp(-smooth * gaps, axis=1) / smooth)
        else:
            k.eq("closest", sd, gaps.min(1))
            k.ge("every_ball", gaps, jnp.broadcast_to(sd[:, None], gaps.shape))
            if m != 3: return
            nor = s.get_normal_stack(I.p, mp)
            for j in range(3):
                c = jnp.stack([gaps[:, i] > gaps[:, j] for i in range(3) if i != j]).all(0)
                d = I.p - I.x[j]; q = jnp.sqrt((d * d).sum(1))
                k.eq("normal%d" % j, nor * q[:, None] * (1 + 1e-12), d, when=jnp.broadcast_to((c & (q > 0))[:, None], d.shape))
    ins = dict(p=In(("n", dim)), x=In((m, dim)), V=In((m,), gt=0, gen=U(.05, 1)))
    return Contract("cloud.%dd%s" % (dim, ".smooth" if smooth else "" if m == 3 else ".any"), fn, ins, dims=["n"] + (["m"] if m == "m" else []), sizes=[dict(n=5, m=4), dict(n=1, m=1)], rounds=2, batch=64, bounded="normals in a cloud of three points" if m == 3 else None, defined=False)


def angle_contract():
    """planar rotation advances by the spin; objects without their own friction have the default coefficient"""
    def fn(I, k, D):
        k.eq("angle", mh.rotate_2d_update(I.a, I.w, I.dt), I.a + I.w * I.dt)
        s = sc.BoxSDF(jnp.ones(2))
        k.eq("default_friction", s.get_surface_friction_stack(st(2), I.p), jnp.ones(D.n))
        d = sc.DomainSDF(I.lo, I.lo + I.ext)
        b = d.get_world_aabb(None)
        k.eq("aabb_low", b[0], I.lo); k.eq("aabb_high", b[1], I.lo + I.ext)
    return Contract("aux", fn, dict(a=In(()), w=In(()), dt=In(()), p=In(("n", 2)), lo=In((2,)), ext=In((2,), gt=0)), dims=["n"], sizes=[dict(n=3)], rounds=1, batch=16)


CONTRACTS += [grid_contract((3, 4, 2)), grid_contract((4, 3, 3))] + [star_contract(n) for n in (3, 5, 8)] + [cloud_contract(d, s, m) for d in (2, 3) for s, m in ((0.0, 3), (0.0, "m"), (2.0, "m"))] + [angle_contract()]
