"""Saving and loading simulations (hydraxmpm/common/sim_io.py).

Serialisation is a library: the first contract assumes its contract (what was last written at a path is what is read there) and follows arrays symbolically
through save and load; the second executes the real library in a scratch directory. Every call of the module that could write or delete outside that directory
is replaced by a stand-in that refuses it."""
import os, types, json, shutil, tempfile, contextlib, builtins
from contracts.common import *
from hydraxmpm.common import sim_io
from hydraxmpm.common.simstate import SimState, WorldState, MechanicsState
from hydraxmpm.material_points.material_points import MaterialPointState
from hydraxmpm.constitutive_laws.linearelastic import LinearElasticLaw
from hydraxmpm.forces.gravity import Gravity

STEPS = (0, 1, 2, 10, 20, 99, 100, 99999, 100000, 999999, 1000000, 1234567)


class Outside(Exception): pass


@contextlib.contextmanager
def scratch(store=None):
    """module with its effects confined to a fresh directory; `store` replaces the serialiser by a dictionary path -> tree"""
    d = os.path.realpath(tempfile.mkdtemp(prefix="simio_"))
    log = []

    def inside(p):
        p = getattr(p, "name", p) if hasattr(p, "write") or hasattr(p, "read") else p
        q = os.path.realpath(os.path.abspath(p))
        if q != d and not q.startswith(d + os.sep): raise Outside("path outside the output directory: %s" % p)
        return q

    def under(f, what):
        def g(p, *a, **k):
            q = inside(p)
            if what == "rmtree" and q == d: raise Outside("deletes the parent of the output directory")
            log.append((what, q)); return f(p, *a, **k)
        return g
    if store is None: ser, des = under(eqx.tree_serialise_leaves, "write"), under(eqx.tree_deserialise_leaves, "read")
    else:
        def name(p): return inside(p if hasattr(p, "write") or hasattr(p, "read") or str(p).endswith(".eqx") else str(p) + ".eqx")
        def ser(p, t, *a, **k): log.append(("write", name(p))); open(name(p), "ab").close(); store[name(p)] = t
        def des(p, skeleton, *a, **k):
            t = store[name(p)]
            assert jax.tree_util.tree_structure(t) == jax.tree_util.tree_structure(skeleton), "skeleton of another kind"
            return t

    def move(f):
        def g(p, q, *a, **k):
            x, y = inside(p), inside(q)
            for n, (w, z) in enumerate(log):
                if z == x: log[n] = (w, y)
            if store and x in store: store[y] = store.pop(x)
            return f(p, q, *a, **k)
        return g

    class Os:
        def __getattr__(self, n): return getattr(os, n)
    fake_os = Os()
    for n in ("makedirs", "mkdir", "remove", "unlink", "rmdir"): setattr(fake_os, n, under(getattr(os, n), n))
    for n in ("rename", "replace"): setattr(fake_os, n, move(getattr(os, n)))

    class Sh:
        def __getattr__(self, n): return getattr(shutil, n)
    fake_sh = Sh(); fake_sh.rmtree = under(shutil.rmtree, "rmtree"); fake_sh.move = move(shutil.move)

    class Eqx:
        tree_serialise_leaves, tree_deserialise_leaves = staticmethod(ser), staticmethod(des)
        def __getattr__(self, n): return getattr(eqx, n)
    stand = {id(os): fake_os, id(shutil): fake_sh, id(eqx): Eqx(), id(shutil.rmtree): fake_sh.rmtree, id(eqx.tree_serialise_leaves): ser, id(eqx.tree_deserialise_leaves): des, id(os.makedirs): fake_os.makedirs}
    real = {n: v for n, v in vars(sim_io).items() if id(v) in stand}
    try:
        for n, v in real.items(): setattr(sim_io, n, stand[id(v)])
        sim_io.open = under(builtins.open, "open"); sim_io.print = lambda *a, **k: None
        yield d, log
    finally:
        for n, v in real.items(): setattr(sim_io, n, v)
        for n in ("open", "print"): sim_io.__dict__.pop(n, None)
        shutil.rmtree(d, ignore_errors=True)


def state(I, j, step):
    f = lambda a: a * (1.0 + j) + 0.25 * j        # every saved step has other contents
    mp = raw(MaterialPointState, position_stack=f(I.x), velocity_stack=f(I.v), mass_stack=f(I.m), volume_stack=f(I.V), volume0_stack=f(I.V) * 2, L_stack=f(I.L), F_stack=f(I.F), F_store_stack=f(I.F) * 3, stress_stack=f(I.s), force_stack=f(I.v) * 5)
    return SimState(world=WorldState(material_points=(mp,)), mechanics=MechanicsState(constitutive_laws=(None,), solvers=(None,), forces=(Gravity(f_idx=0).create_state(gravity=f(I.g)),)), time=f(I.t), step=step, dt=f(I.dt))


def leaves(t): return [("%s" % jax.tree_util.keystr(p), v) for p, v in jax.tree_util.tree_flatten_with_path(t)[0]]


def follow(order):
    """every saved step is returned by a load of that step, whatever was saved before or after it; the solver by any load"""
    def fn(I, k, D):
        store = {}
        with scratch(store) as (d, log):
            io_ = sim_io.SimIO(output_dir=os.path.join(d, "out"))
            solver = raw(Box, E=I.t * 2, nu=I.dt)
            sv = (I.t * 2, I.dt, I.g)
            files = {}
            io_.save_solver(sv)
            order_ = [STEPS[(i * 7 + 3) % len(STEPS)] for i in range(len(STEPS))] if order else list(STEPS)
            saved = {s: state(I, j, s) for j, s in enumerate(order_)}
            for s in order_:
                n = len(log); io_.save_step(saved[s], verbose=s % 2 == 0); w = [q for a, q in log[n:] if a == "write"]
                k.static("one_file.%d" % s, len(w) == 1 and w[0] not in files.values(), w); files[s] = w[0] if w else None
            again = state(I, 17, order_[2]); io_.save_step(again); saved[order_[2]] = again       # the same step saved twice: the later one counts
            for s in order_:
                skel = jax.tree_util.tree_map(lambda a: a, saved[s])
                v, t = sim_io.load_simulation(os.path.join(d, "out"), sv, skel, s)
                for (nm, a), (_, b) in zip(leaves(t), leaves(saved[s])): k.eq("step%d%s" % (s, nm), a, b)
                for i in range(3): k.eq("solver%d.%d" % (s, i), v[i], sv[i])
    return Contract("follow.%s" % ("shuffled" if order else "increasing"), fn, inputs(), dims=["n"], sizes=[dict(n=3)], rounds=1, batch=4, nocheck=True, bounded="twelve step numbers up to seven digits in two orders; contents of the state symbolic")


def inputs():
    return dict(x=In(("n", 2)), v=In(("n", 2)), m=In(("n",)), V=In(("n",)), L=In(("n", 3, 3)), F=In(("n", 3, 3)), s=In(("n", 3, 3)), g=In((2,)), t=In(()), dt=In(()))


def real():
    """round trip through the real files: bitwise equal arrays, metadata, clean start and continued directories"""
    def fn(I, k, D):
        with jax.ensure_compile_time_eval(): body(k)

    def body(k):
        r = np.random.default_rng(5)
        J = types.SimpleNamespace(**{n: jnp.asarray(r.standard_normal([3 if q == "n" else q for q in c.shape])) for n, c in inputs().items()})
        with scratch() as (d, log):
            out = os.path.join(d, "out")
            same = lambda a, b: all(np.array_equal(np.asarray(x), np.asarray(y)) and np.asarray(x).dtype == np.asarray(y).dtype for (_, x), (_, y) in zip(leaves(a), leaves(b)))
            io_ = sim_io.SimIO(output_dir=out)
            law = LinearElasticLaw(E=3.0, nu=.2); sv = (jnp.arange(4.0), 2.5, law)
            info = dict(description="text", n=3)
            io_.save_solver(sv, meta_info=info)
            meta = json.load(open(os.path.join(out, "metadata.json")))
            k.static("metadata", meta.get("type") == "tuple" and meta.get("description") == "text" and meta.get("n") == 3 and "timestamp" in meta and info == dict(description="text", n=3), str(meta))
            S = {s: state(J, j, s) for j, s in enumerate(STEPS)}
            for s in STEPS[::-1]: io_.save_step(S[s], verbose=False)
            zero = lambda t: jax.tree_util.tree_map(lambda a: jnp.zeros_like(a) if eqx.is_array(a) else type(a)(0), t)
            for s in STEPS:
                v, t = sim_io.load_simulation(out, zero(sv), zero(S[s]), s)
                k.static("state.%d" % s, same(t, S[s]) and int(t.step) == s, s); k.static("solver.%d" % s, same(v, sv), s)
            cont = sim_io.SimIO(output_dir=out, overwrite=False)
            v, t = sim_io.load_simulation(out, zero(sv), zero(S[10]), 10); k.static("continued_directory_kept", same(t, S[10]), "")
            keep = os.path.join(d, "other"); os.makedirs(keep); open(os.path.join(keep, "f"), "w").close()
            sim_io.SimIO(output_dir=out)
            k.static("clean_start", os.path.isdir(out) and os.listdir(out) == [], os.listdir(out)); k.static("neighbours_kept", os.path.exists(os.path.join(keep, "f")), "")
            os.makedirs(os.path.join(d, "pkg")); script = os.path.join(d, "pkg", "run.py"); open(script, "w").close()
            rel = sim_io.SimIO(output_dir="data/a", relative_dir=script)
            k.static("relative", os.path.realpath(rel.output_dir) == os.path.join(d, "pkg", "data", "a") and os.path.isdir(os.path.join(d, "pkg", "data", "a")) and os.path.exists(script), rel.output_dir)
            rel.save_step(S[7 if 7 in S else 10], verbose=False)
            k.static("relative_file", len(os.listdir(os.path.join(d, "pkg", "data", "a"))) == 1, "")
    return Contract("real", fn, dict(u=In(())), sizes=[{}], rounds=1, batch=1, search_only=True, bounded="twelve states written and read by the real library in a scratch directory")


CONTRACTS = [follow(False), follow(True), real()]
