"""C24: freshly initialised parameters: initialisers (histories of requests replayed into the code) and default parameters of models."""
from models import *

jax, jnp, nk = jx()
C, F = jnp.complex128, jnp.float64
NSHAPE = [(4, 6, 25), (1, 600), (2, 3, 5, 4, 5)]
OSHAPE = [(3, 6, 4), (2, 3, 5), (4, 3, 3)]


def name_of(a):
    return np.dtype(a.dtype).name


def event(a, sigma, want, dtype, tag, root):
    """One array of parameters that claims to follow the product-state law."""
    a = np.asarray(a)
    e = {"tag": tag, "root": root, "shape": list(a.shape), "want": list(want), "dtype": name_of(a), "wantd": np.dtype(dtype).name, "sigma": num(sigma), "law": bool(a.size >= 300)}
    if np.dtype(dtype).kind == "c":
        e.update(op="circle", vals=[cnum(z) for z in a.reshape(-1)], phase=[num(p) for p in np.angle(a.reshape(-1))])
    else:
        e.update(op="real", vals=[num(x) for x in a.real.reshape(-1)])
    return e


def orth(a, scale, want, dtype, tag, root):
    a = np.asarray(a)
    return {"op": "orth", "tag": tag, "root": root, "shape": list(a.shape), "want": list(want), "dtype": name_of(a), "wantd": np.dtype(dtype).name, "scale": num(scale),
            "mats": [cnums(m) for m in a], "complex": bool(np.dtype(dtype).kind == "c" and min(a.shape[-2:]) > 0)}


def leaf(tree, path):
    """The named parameter; the names of enclosing modules are not part of the contract."""
    a = tree
    for key in path.split("/"):
        if key not in a:
            from flax.traverse_util import flatten_dict
            return {k[-1]: v for k, v in flatten_dict(tree).items()}[path.split("/")[-1]]
        a = a[key]
    return a


def initialisers(rec, k, h):
    from GPSKet.nn.initializers import normal, orthogonal
    rng = rng_for(rec.seed, "c24", k)
    sigma = [0.1, 0.25, 0.5, 0.015625][k % 4]
    scale = [1.0, 1.5, 0.25][k % 3]
    axis = [-1, -2][k % 2]
    cfg = {"tol": "1/1000000"}

    def go(ev):
        keys = [int(v) for v in rng.integers(0, 2**31, 4)]
        ni = {t: normal(sigma=sigma, dtype=t) for t in (C, F)}
        oi = orthogonal(scale=scale, column_axis=axis)
        for q in h:
            t = C if q["type"] == "complex" else F
            if k % 5 == 4:
                t = jnp.complex64 if t is C else jnp.float32
            key = jax.random.PRNGKey(keys[q["root"]])
            tag = f"{q['kind']}{q['shape']}{q['type']}"
            if q["kind"] == "normal":
                shape = NSHAPE[q["shape"] - 1]
                # the type of the request decides, whatever the default
                if k % 5 == 4:
                    f = normal(sigma=sigma, dtype=t)
                    a = f(key, shape)
                elif k % 3 == 2:
                    a = ni[F if t is C else C](key, shape, t)
                else:
                    a = ni[t](key, shape, t) if k % 2 else ni[t](key, shape)
                ev.append(event(a, sigma, shape, t, tag, q["root"]))
            else:
                shape = OSHAPE[q["shape"] - 1]
                ev.append(orth(oi(key, shape, t), scale, shape, t, tag, q["root"]))
    rec.case(f"init-{k}", cfg, go)


def symmetric(rec, k, t, axis):
    """Entries of orthonormal columns over many keys."""
    from GPSKet.nn.initializers import orthogonal
    cfg = {"tol": "1/1000000"}

    def go(ev):
        f = orthogonal(dtype=t, column_axis=axis)
        a = np.asarray(jax.vmap(lambda key: f(key, (2, 3, 2)))(jax.random.split(jax.random.PRNGKey(rec.seed + k), 200)))
        s = a.reshape(200, -1)
        ev.append({"op": "signs", "n": 200, "sums": [num(x) for x in np.concatenate([s.real.sum(0), s.imag.sum(0)])]})
        # the two matrices of a stack are independent
        ev.append({"op": "together", "sets": [[num(x) for x in a[:, i, 0, j].real * 3 ** 0.5] for i in range(2) for j in range(1)]})
    rec.case(f"symmetric-{np.dtype(t).kind}-{axis}-{k}", cfg, go)


def models(rec, k):
    import GPSKet as qk
    from GPSKet import models as m
    from GPSKet.hilbert import FermionicDiscreteHilbert
    from GPSKet.models.segmented_qGPS import SegGPS
    from netket.utils import HashableArray
    pl = HashableArray(np.array([[(i + j) % 6 for j in range(4)] for i in range(6)]))
    full = HashableArray(np.array([[(i + j) % 6 for j in range(6)] for i in range(6)]))
    ms = HashableArray(np.array([[1 if (i + j) % 6 < i else 0 for j in range(6)] for i in range(6)]))
    spin = lambda: nk.hilbert.Spin(0.5, 6, total_sz=0)
    ferm = lambda: FermionicDiscreteHilbert(4, n_elec=(2, 2))
    # name: (hilbert, model of (hilbert, type), types, {parameter: (law, shape)})
    T = {
        "qGPS": (spin, lambda h, t: m.qGPS(h, 40, dtype=t), (C, F), {"epsilon": ("product", (2, 40, 6))}),
        "qGPSfermi": (ferm, lambda h, t: m.qGPS(h, 25, dtype=t), (C, F), {"epsilon": ("product", (4, 25, 4))}),
        "ARqGPS": (spin, lambda h, t: m.ARqGPS(h, 40, dtype=t), (C, F), {"epsilon": ("product", (2, 40, 6))}),
        "ARqGPSModPhase": (spin, lambda h, t: m.ARqGPSModPhase(h, 40, dtype=t), (F,), {"epsilon": ("product", (2, 40, 6)), "_qgps/epsilon": ("product", (2, 6, 6))}),
        "ARqGPSFull": (spin, lambda h, t: m.ARqGPSFull(h, 12, dtype=t), (C, F), {"epsilon": ("product", (2, 12, 21))}),
        "ARqGPSFullSites": (spin, lambda h, t: m.ARqGPSFull(h, HashableArray(np.array([12] * 6)), dtype=t), (C, F), {f"epsilon_{i}": ("product", (2, 12, i + 1)) for i in range(6)}),
        "Plaquette": (spin, lambda h, t: m.PlaquetteqGPS(h, 8, pl, dtype=t), (C, F), {"epsilon": ("product", (2, 6, 8, 4))}),
        "ARPlaquette": (spin, lambda h, t: m.ARPlaquetteqGPS(h, 40, full, ms, dtype=t), (C, F), {"epsilon": ("product", (2, 40, 6))}),
        "Segmented": (spin, lambda h, t: SegGPS(h, 4, dtype=t), (C, F), {"epsilon": ("product", (2, 4, 6, 4, 4))}),
        "CPDBackflow": (ferm, lambda h, t: m.CPDBackflow(h, 4, dtype=t), (C, F), {"epsilon": ("product", (4, 2, 4, 4, 4))}),
        "SlaterqGPS": (ferm, lambda h, t: m.SlaterqGPS(h, dtype=t, n_determinants=2, M=25), (C, F), {"Slater_0/U_up": ("orth", (2, 4, 2)), "qGPS_0/epsilon": ("product", (4, 25, 4))}),
        "SlaterJastrow": (ferm, lambda h, t: m.SlaterJastrow(h, dtype=t, n_determinants=3), (C, F), {"Slater_0/U_up": ("orth", (3, 4, 2))}),
        "ASymmqGPS": (ferm, lambda h, t: m.ASymmqGPS(h, n_determinants=2, dtype=t, coeffs=HashableArray(np.ones(2))), (C, F), {"Slater_0/U_up": ("orth", (2, 4, 2)), "Slater_0/U_down": ("orth", (2, 4, 2))}),
        "ASymmqGPSProd": (ferm, lambda h, t: m.ASymmqGPSProd(h, n_determinants=3, dtype=t), (C, F), {"Slater_0/U_up": ("orth", (3, 4, 2)), "Slater_0/U_down": ("orth", (3, 4, 2))}),
    }
    for nm, (hi, mk, types, laws) in T.items():
        for t in types:
            for own in (False, True):
                cfg = {"tol": "1/1000000"}

                def go(ev):
                    h = hi()
                    sigma = 0.01 if nm == "ARPlaquette" else 0.1
                    mod = mk(h, t)
                    if own:      # the caller's initialiser is used
                        if nm.startswith(("Slater", "ASymm")):
                            return
                        sigma = 0.25
                        mod = mod.replace(init_fun=qk.nn.initializers.normal(sigma=sigma, dtype=t)) if hasattr(mod, "replace") else mod.clone(init_fun=qk.nn.initializers.normal(sigma=sigma, dtype=t))
                    x = np.asarray(h.all_states())[:2]
                    x = jnp.asarray(x, dtype=jnp.uint8 if hi is ferm else float)
                    for root in (1, 2, 1):
                        p = mod.init(jax.random.PRNGKey(rec.seed * 10 + root + 100 * k), x)["params"]
                        sets, mats = [], []
                        for path, (law, shape) in laws.items():
                            a = leaf(p, path)
                            if law == "product":
                                e = event(a, sigma, shape, t, path, root)
                                e["law"] = e["law"] or a.size >= 60
                                sets.append([num(v) for v in (np.angle(a) if np.dtype(t).kind == "c" else np.asarray(a) - 1).reshape(-1) / sigma])
                            else:
                                e = orth(a, 1.0, shape, t, path, root)
                                mats.append(e["mats"])
                            ev.append(e)
                        if len(mats) > 1:
                            ev.append({"op": "distinct", "sets": mats})
                        if len(sets) > 1:
                            ev.append({"op": "together", "sets": sets})
                rec.case(f"model-{nm}-{np.dtype(t).kind}{'-own' if own else ''}-{k}", cfg, go)


def run(rec):
    hists = sorted(json.dumps(b["beh"]) for b in rec.inputs)
    n = 400 if rec.thorough else 60
    for k in range(n):
        h = json.loads(hists[int(rng_for(rec.seed, "c24h", k).integers(len(hists)))])
        initialisers(rec, k, h)
    for k in range(10 if rec.thorough else 1):
        for t in (C, F):
            for axis in (-1, -2):
                symmetric(rec, k, t, axis)
    for k in range(12 if rec.thorough else 1):
        models(rec, k)


if __name__ == "__main__":
    main(run)
