"""Shape functions and particle/node connectivity (hydraxmpm/shapefunctions, grid)."""
import jax, jax.numpy as jnp, numpy as np
from contracts.common import *

W1 = {"linear": 2, "quadratic": 3, "cubic": 4}


def basis_contract(kind, dim):
    W = W1[kind] ** dim

    def fn(I, k, D):
        sm = ShapeFunctionMapping(kind, dim)
        # position = origin + h*(integer cell + fraction)
        pos = I.origin + I.h * (I.cell + I.frac)
        size = tuple(getattr(D, "m%d" % j) for j in range(dim))
        c = sm.compute(pos, I.origin, size, 1.0 / I.h)
        n = pos.shape[0]
        N = c.shape_vals.reshape(n, W); G = c.shape_grads.reshape(n, W, 3); d = c.rel_dist.reshape(n, W, 3)
        # all stencil nodes inside the grid
        lo, hi = {"linear": (0, 1), "quadratic": (-1, 2), "cubic": (-1, 2)}[kind]
        for j in range(dim):
            k.assume(I.cell[:, j] + lo >= 0)
            k.assume(I.cell[:, j] + hi < size[j])
        if kind == "linear": k.assume(I.frac > 0)
        k.eq("partition_of_unity", N.sum(axis=1), 1.0)
        k.ge("nonneg", N, 0.0)
        k.eq("linear_reproduction", (N[..., None] * d).sum(axis=1), 0.0)
        k.eq("grad_sum_zero", G.sum(axis=1), 0.0)
        e = jnp.eye(3) * jnp.array([1.0] * dim + [0.0] * (3 - dim))
        k.eq("grad_first_moment", (G[:, :, :, None] * d[:, :, None, :]).sum(axis=1) * I.h, -e)
        if kind != "linear":
            c2 = {"quadratic": 0.25, "cubic": 1 / 3}[kind]
            k.eq("second_moment", (N[..., None, None] * d[..., :dim, None] * d[..., None, :dim]).sum(1), c2 * jnp.eye(dim), tol=1e-6)
    ins = dict(cell=In(("n", dim), "I", gen=lambda r, s, d: r.integers(1, 3, s)), frac=In(("n", dim), ge=0, lt=1), origin=In((dim,)), h=In((), gt=0, gen=lambda r, s, d: r.choice([0.25, 0.5, 1.0, 2.0])))
    return Contract("basis.%s%dd" % (kind, dim), fn, ins, dims=["n"] + ["m%d" % j for j in range(dim)],
                    sizes=[dict(n=3, **{"m%d" % j: 6 + j for j in range(dim)})])


def connect_contract(kind, dim):
    """every interaction of every position (in or out of the grid) refers to the node it was computed for"""
    W = W1[kind] ** dim

    def fn(I, k, D):
        sm = ShapeFunctionMapping(kind, dim)
        size = tuple(getattr(D, "m%d" % j) for j in range(dim))
        dom = raw(GridDomain, origin=tuple(I.origin[j] for j in range(dim)), end=None, cell_size=I.h, grid_size=size, padding=0, _inv_cell_size=1.0 / I.h)
        pos = I.origin + I.h * (I.cell + I.frac)       # any position: inside, on the border or outside of the grid
        c = sm.compute(pos, I.origin, size, dom._inv_cell_size)
        n = pos.shape[0]
        hsh = c.node_hashes.astype(int); N = c.shape_vals; d = c.rel_dist; G = c.shape_grads
        k.true("hash_lower", hsh >= 0)
        k.true("hash_in_grid", hsh < dom.num_cells)
        X = dom.position_stack
        k.shape("position_stack_shape", X, (dom.num_cells, dim))
        node = jnp.repeat(I.cell + I.frac, W, axis=0) - d[:, :dim]        # grid coordinates of the node meant by the interaction
        valid = jnp.all((node >= 0) & (node <= jnp.array(size) - 1), axis=1)
        bc = lambda q, a: jnp.broadcast_to(q.reshape((-1,) + (1,) * (a.ndim - 1)), a.shape)
        xp = jnp.repeat(pos, W, axis=0)
        Xh = X[hsh]
        k.eq("node_position", Xh, I.origin + I.h * node, when=bc(valid, Xh))
        for j in range(dim):
            for nm, o in (("below", node[:, j] < 0), ("above", node[:, j] > size[j] - 1)):
                k.eq("outside_value_%s%d" % (nm, j), N, 0.0, when=o)
                k.eq("outside_gradient_%s%d" % (nm, j), G, 0.0, when=bc(o, G))
        if dim == 2:
            k.eq("z_dist", d[:, 2], 0.0); k.eq("z_grad", G[:, 2], 0.0)
        k.true("point_ids", c.point_ids.astype(int) == jnp.repeat(jnp.arange(n), W))
        k.true("stencil_ids", c.stencil_ids.astype(int) == jnp.tile(jnp.arange(W), n))
        k.eq("mask_open", c.cpic_mask, 1.0)
        k.shape("interactions", N, (n * W,))
        # one particle's interactions do not depend on the others
        one = sm.compute(pos[I.p][None], I.origin, size, dom._inv_cell_size)
        for nm in ("node_hashes", "shape_vals", "shape_grads", "rel_dist"):
            full = getattr(c, nm); tl = full.shape[1:]
            k.eq("independent_" + nm, full.reshape((n, W) + tl)[I.p], getattr(one, nm))
    ins = dict(cell=In(("n", dim), "I", gen=lambda r, s, d: r.integers(-3, 9, s)), frac=In(("n", dim), ge=0, lt=1, gen=lambda r, s, d: r.integers(0, 64, s) / 64.0), origin=In((dim,), gen=lambda r, s, d: r.choice([-.5, 0, .25], s)),
               h=In((), gt=0, gen=lambda r, s, d: r.choice([0.25, 0.5, 1.0])))
    ins["p"] = In((), "I", ge=0, lt="n")
    return Contract("connect.%s%dd" % (kind, dim), fn, ins, dims=["n"] + ["m%d" % j for j in range(dim)],
                    sizes=[dict(n=3, **{"m%d" % j: 6 + j for j in range(dim)})])


def gradient_contract(kind, dim):
    """the shape gradient is the spatial derivative of the shape function"""
    W = W1[kind] ** dim

    def fn(I, k, D):
        sm = ShapeFunctionMapping(kind, dim)
        size = tuple(getattr(D, "m%d" % j) for j in range(dim))
        pos = I.origin + I.h * (I.cell + I.frac)
        k.assume(I.frac > 0)
        k.assume(I.frac != 0.5)
        f = lambda x: sm.compute(x, I.origin, size, 1.0 / I.h).shape_vals
        G = sm.compute(pos, I.origin, size, 1.0 / I.h).shape_grads
        for j in range(dim):
            t = jnp.zeros_like(pos).at[:, j].set(1.0)
            _, dN = jax.jvp(f, (pos,), (t,))
            k.eq("grad_is_derivative%d" % j, G[:, j], dN)
    ins = dict(cell=In((1, dim), "I", gen=lambda r, s, d: r.integers(-1, 6, s)), frac=In((1, dim), gt=0, lt=1), origin=In((dim,)), h=In((), gt=0, gen=lambda r, s, d: r.choice([0.25, 0.5, 1.0, 2.0])))
    return Contract("gradient.%s%dd" % (kind, dim), fn, ins, dims=["m%d" % j for j in range(dim)],
                    sizes=[dict(**{"m%d" % j: 6 + j for j in range(dim)})])


def mapping_contract(dim, rank):
    """scatter_to_grid / gather_from_grid on any interaction cache"""
    def fn(I, k, D):
        sm = StubMap(None, dim, D.w)
        cache = make_cache(I.h0, I.N0, I.G0, I.d0)
        k.assume_eq(I.N0.sum(1), 1.0, rewrite=True)
        tail = (dim,) * rank
        ex = (...,) + (None,) * rank
        g = sm.scatter_to_grid(cache, I.q, I.m, D.M, normalize=False)
        k.shape("scatter_shape", g, (D.M,) + tail)
        k.eq("scatter_total", g.sum(0), (I.m[ex] * I.q).sum(0))
        ref = jnp.zeros((D.M,) + tail).at[I.h0].add((I.N0 * I.m[:, None])[ex] * I.q[:, None])
        k.eq("scatter_node", g, ref)
        wgt = jnp.zeros((D.M,)).at[I.h0].add(I.N0 * I.m[:, None])
        gn = sm.scatter_to_grid(cache, I.q, I.m, D.M, small_mass_cutoff=I.cut)
        big = jnp.broadcast_to((wgt > I.cut)[ex], gn.shape)
        k.eq("mean_weighted", gn * wgt[ex], ref, when=big)
        k.eq("mean_small", gn, 0.0, when=~big)
        kc = sm.scatter_to_grid(cache, jnp.broadcast_to(I.c, (I.m.shape[0],) + tail), I.m, D.M, small_mass_cutoff=I.cut)
        k.eq("mean_constant", kc, jnp.broadcast_to(I.c, kc.shape), when=big)
        out = sm.gather_from_grid(cache, I.gq)
        k.shape("gather_shape", out, (I.m.shape[0],) + tail)
        k.eq("gather_sum", out, (I.N0[ex] * I.gq[I.h0]).sum(1))
        kg = sm.gather_from_grid(cache, jnp.broadcast_to(I.c, (D.M,) + tail))
        k.eq("gather_constant", kg, jnp.broadcast_to(I.c, kg.shape))
    ins = dict(q=In(("n",) + (dim,) * rank), m=In(("n",), gt=0), gq=In(("M",) + (dim,) * rank), cut=In((), gt=0, gen=lambda r, s, d: 10.0 ** r.uniform(-9, 0)), c=In((dim,) * rank),
               **intr_inputs(dim, "0"))
    return Contract("mapping.%dd.rank%d" % (dim, rank), fn, ins, dims=["M", "n", "w"], sizes=[dict(M=5, n=3, w=4), dict(M=4, n=1, w=4)], sampler=normalise_cache("0", dim))


CONTRACTS = [basis_contract(k, d) for k in W1 for d in (2, 3)]
for _c in CONTRACTS:
    if _c.name in ("basis.cubic3d", "basis.quadratic3d", "basis.quadratic2d"): _c.shards, _c.wall = 4, 600
CONTRACTS += [connect_contract(k, d) for k in W1 for d in (2, 3)]
CONTRACTS += [gradient_contract(k, d) for k in W1 for d in (2, 3)]
CONTRACTS += [mapping_contract(2, 0), mapping_contract(3, 1), mapping_contract(3, 2)]
for _c in CONTRACTS:
    sh = {"connect.quadratic3d": 5, "connect.cubic3d": 8, "connect.cubic2d": 2}.get(_c.name)
    if sh: _c.shards, _c.wall = sh, 600
