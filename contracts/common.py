"""Shared pieces of the harnesses: stub callees (their contracts are discharged elsewhere), probes at the public hooks."""
import jax, jax.numpy as jnp, numpy as np, equinox as eqx
from engine.harness import Contract, In
from hydraxmpm.shapefunctions.mapping import InteractionCache, ShapeFunctionMapping
from hydraxmpm.grid.grid import GridDomain, GridArrays
from hydraxmpm.material_points.material_points import MaterialPointState, RigidMaterialPointState
from hydraxmpm.common.simstate import SimState, WorldState, MechanicsState, SimCache
from hydraxmpm.solvers.coupling import BodyCoupling
from hydraxmpm.constitutive_laws.constitutive_law import ConstitutiveLaw, ConstitutiveLawState
from hydraxmpm.forces.force import Force
from hydraxmpm.solvers.usl import USLSolver
from hydraxmpm.solvers.usl_asflip import USLAFLIP

BASIS = "interaction cache contract (0<=node<M, sum_s N=1, N>=0, sum_s N d=0, sum_s dN=0, h*sum_s dN_i d_j=-delta_ij) is the one the basis/connectivity contracts discharge on the real shape functions"


def raw(cls, **kw):
    """object of an equinox class without running __init__ (fields that do not matter stay unset)"""
    o = object.__new__(cls)
    for k, v in kw.items(): object.__setattr__(o, k, v)
    return o


def make_domain(origin, h, size):
    return raw(GridDomain, origin=origin, end=origin, cell_size=h, grid_size=size, padding=0, _inv_cell_size=1.0 / h)


class AbsDomain(GridDomain):
    """grid domain with an abstract number of nodes and abstract node positions (contract of GridDomain.position_stack)"""
    @property
    def dim(self): return self._dim
    @property
    def num_cells(self): return self._M
    @property
    def position_stack(self): return self._X
    @property
    def position_mesh(self): return self._X


def abs_domain(dim, M, h, X=None, origin=None):
    if X is None: X = jnp.zeros((M, dim))
    return raw(AbsDomain, origin=origin if origin is not None else (0.0,) * dim, end=(0.0,) * dim, cell_size=h, grid_size=(M,) + (1,) * (dim - 1),
               padding=0, _inv_cell_size=1.0 / h, _dim=dim, _M=M, _X=X)


class StubMap(ShapeFunctionMapping):
    """shape function mapping whose result is the given (symbolic) interaction cache"""
    _cache: InteractionCache

    def __init__(self, cache, dim, w, shapefunction="cubic"):
        self._cache = cache
        self.dim = dim; self._padding = (0, 3 - dim); self._shapefunction_call = None
        self.shapefunction = shapefunction
        self._stencil_offsets = jnp.zeros((w, dim), int)

    def compute(self, *a, **k): return self._cache


def make_cache(h, N, G, d):
    n, w = N.shape
    pid = jnp.broadcast_to(jnp.arange(n)[:, None], (n, w)).reshape(n * w)
    sid = jnp.broadcast_to(jnp.arange(w)[None, :], (n, w)).reshape(n * w)
    return InteractionCache(node_hashes=h.reshape(n * w), shape_vals=N.reshape(n * w), cpic_mask=jnp.ones((n * w,)),
                            shape_grads=G.reshape(n * w, 3), rel_dist=d.reshape(n * w, 3),
                            point_ids=pid, stencil_ids=sid)


class NoLaw(ConstitutiveLaw):
    """law whose update is the identity (frame of the solver alone)"""
    requires_F_reset: bool = eqx.field(static=True, default=False)

    def update(self, mp_state, law_state, dt): return mp_state, law_state
    def __init__(self, reset=False): self.requires_F_reset = reset


class Box:
    pass


class Probe(Force):
    """force that only observes (and optionally replaces) the grids at the public hooks"""
    box: object = eqx.field(static=True)

    def apply_kinematics(self, world, mechanics, sdf_logics, couplings, dt, time):
        self.box.t_kin = time
        return world, mechanics

    def apply_pre_p2g(self, world, mechanics, sim_cache, sdf_logics, couplings, grid_domains, dt, time):
        self.box.world_pre = world
        f = getattr(self.box, "pre", None)
        return f(world, mechanics, sim_cache) if f else (world, mechanics, sim_cache)

    def apply_grid_forces(self, world, mechanics, sim_cache, sdf_logics, couplings, grid_domains, dt, time):
        self.box.p2g = list(sim_cache.grids)
        f = getattr(self.box, "gforce", None)
        return f(world, mechanics, sim_cache) if f else (world, mechanics, sim_cache)

    def apply_grid_moments(self, world, mechanics, sim_cache, sdf_logics, couplings, grid_domains, dt, time):
        self.box.mom = list(sim_cache.grids)
        f = getattr(self.box, "gmom", None)
        return f(world, mechanics, sim_cache) if f else (world, mechanics, sim_cache)


def replace_grids(grids, **stacks):
    """gmom hook that substitutes arrays of every grid"""
    def f(world, mechanics, sim_cache):
        new = []
        for i, g in enumerate(sim_cache.grids):
            s = stacks if isinstance(stacks, dict) else stacks[i]
            names = list(s)
            new.append(eqx.tree_at(lambda q: tuple(getattr(q, m) for m in names), g, tuple(s[m][i] for m in names)))
        return world, mechanics, eqx.tree_at(lambda c: c.grids, sim_cache, tuple(new))
    return f


def intr_inputs(dim, sfx="", n="n", w="w", M="M"):
    """inputs of one interaction cache"""
    def gen_h(r, s, d): return r.integers(0, d[M], s)
    return {"h" + sfx: In((n, w), "I", ge=0, lt=M, gen=gen_h), "N" + sfx: In((n, w), ge=0),
            "G" + sfx: In((n, w, 3)), "d" + sfx: In((n, w, 3))}


def normalise_cache(sfx="", dim=3, h="hh"):
    """sampler: make random N, G, d satisfy the interaction cache contract"""
    def f(rng, dims, s):
        N = np.abs(s["N" + sfx]) + 1e-3
        if N.shape[1] == 1: N = np.ones_like(N)
        N = N / N.sum(1, keepdims=True)
        d = np.array(s["d" + sfx], float)
        d[..., dim:] = 0
        d = d - (N[..., None] * d).sum(1, keepdims=True)
        G = np.array(s["G" + sfx], float); G[..., dim:] = 0
        G = G - G.mean(1, keepdims=True)
        return {"N" + sfx: N, "d" + sfx: d, "G" + sfx: G}
    return f


def normalise_full(sfx="", dim=3, hkey="hh"):
    """sampler that also satisfies h*sum_s dN_i d_j = -delta_ij (needs w > dim + 1)"""
    base = normalise_cache(sfx, dim)

    def f(rng, dims, s):
        o = base(rng, dims, s)
        d = rng.standard_normal(o["d" + sfx].shape); d[..., dim:] = 0
        N = o["N" + sfx]
        d = d - (N[..., None] * d).sum(1, keepdims=True)
        h = float(np.asarray(s[hkey]))
        n, w = N.shape
        G = np.zeros((n, w, 3))
        for p in range(n):
            # G rows: solve for G (w x dim) with sum G=0 and G^T d = -I/h (least squares + null-space noise)
            A = np.concatenate([np.ones((1, w)), d[p, :, :dim].T], 0)      # (1+dim, w)
            B = np.concatenate([np.zeros((1, dim)), -np.eye(dim) / h], 0)
            Gp = np.linalg.lstsq(A, B, rcond=None)[0]
            Z = rng.standard_normal((w, dim))
            Z -= A.T @ np.linalg.solve(A @ A.T, A @ Z)
            G[p, :, :dim] = Gp + Z
        o["d" + sfx] = d; o["G" + sfx] = G
        return o
    return f


def mp_inputs(dim, sfx="", n="n", store=False):
    r = {"x" + sfx: In((n, dim)), "v" + sfx: In((n, dim)), "f" + sfx: In((n, dim)), "m" + sfx: In((n,), gt=0), "V" + sfx: In((n,), gt=0),
         "V0" + sfx: In((n,), gt=0), "L" + sfx: In((n, 3, 3)), "sig" + sfx: In((n, 3, 3)), "F" + sfx: In((n, 3, 3))}
    if store: r["Fs" + sfx] = In((n, 3, 3))
    return r


def make_mp(I, sfx=""):
    g = lambda k: I[k + sfx]
    return MaterialPointState(position_stack=g("x"), mass_stack=g("m"), velocity_stack=g("v"), force_stack=g("f"), volume_stack=g("V"),
                              volume0_stack=g("V0"), L_stack=g("L"), stress_stack=g("sig"), F_stack=g("F"),
                              F_store_stack=I.__dict__.get("Fs" + sfx))


def sampler(*fs):
    def f(rng, dims, s):
        o = {}
        for q in fs:
            t = dict(s); t.update(o)
            o.update(q(rng, dims, t) or {})
        return o
    return f
