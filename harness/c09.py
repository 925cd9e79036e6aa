"""C09: amplitudes and conditionals of the autoregressive models on every configuration TLC reached."""
from models import *
from scipy.linalg import circulant

jax, jnp, nk = jx()


def groups(rec):
    g = {}
    for b in rec.inputs:
        b = b["beh"]
        g.setdefault(json.dumps(b["cfg"], sort_keys=True), []).append(b["x"])
    out = [(json.loads(k), sorted(v)) for k, v in sorted(g.items())]
    # a larger lattice for the convolutional model, with shared prefixes of every length
    rng = rng_for(rec.seed, "c09-3x3")
    xs = set()
    for _ in range(3 if not rec.thorough else 12):
        x = rng.integers(0, 2, size=9)
        for i in range(9):
            y = x.copy()
            y[i:] = rng.integers(0, 2, size=9 - i)
            xs.add(tuple(map(int, y)))
    out.append(({"L": 9, "D": 2, "sector": "none", "nu": 0, "nd": 0}, [list(x) for x in sorted(xs)]))
    return out


def space(cfg):
    from GPSKet.hilbert import FermionicDiscreteHilbert as FH
    if cfg["D"] == 4:
        return FH(cfg["L"], n_elec=(cfg["nu"], cfg["nd"]) if cfg["sector"] == "elec" else None)
    return nk.hilbert.Spin(0.5, N=cfg["L"], total_sz=0 if cfg["sector"] == "sz0" else None)


def to_state(cfg, x):
    """Local indices to the values of the configuration space."""
    a = np.asarray(x)
    return a.astype(np.uint8) if cfg["D"] == 4 else 2.0 * a - 1.0


def from_state(cfg, s):
    a = np.asarray(s)
    return (a if cfg["D"] == 4 else (a + 1) / 2).round().astype(int)


def fermi_funs(cfg):
    """User-supplied counting and masking for four local states."""
    L, nu, nd = cfg["L"], cfg["nu"], cfg["nd"]

    def count(s):
        z = jnp.zeros(s.shape[0])
        return jnp.stack([z, s & 1, (s & 2) / 2, z], axis=-1).astype(jnp.int32)

    def renorm(n, hilbert, index):
        u, d = n[:, 1:2], n[:, 2:3]
        left = L - index - 1
        su, sd = jnp.array([[0, 1, 0, 1]]), jnp.array([[0, 0, 1, 1]])
        ok = (u + su <= nu) & (u + su + left >= nu) & (d + sd <= nd) & (d + sd + left >= nd)
        return jnp.where(ok, 0.0, -jnp.inf)
    return dict(count_spins=count, renormalize_log_psi=renorm) if cfg["sector"] == "elec" else dict(count_spins=count)


def counts_so_far(x):
    """How often each local state occurs before each site (a gauge for PixelCNN)."""
    one = jnp.stack([x < 0, x > 0], axis=-1).astype(jnp.int32)
    return jnp.cumsum(one, axis=1) - one


def syms(L, kind, D):
    """(name, list of (permutation, flip)) -- a copy is x[perm], flipped where requested."""
    ident = list(range(L))
    if kind == "none":
        return [(ident, False)]
    if kind == "shift":
        return [([(i + k) % L for i in range(L)], False) for k in range(L)]
    if kind == "flip":
        return [(ident, False), (ident, True)]
    return [([(i + k) % L for i in range(L)], f) for k in range(L) for f in (False, True)]


def sym_fun(gr):
    pe = jnp.asarray(np.array([p for p, _ in gr]))
    sg = jnp.asarray(np.array([-1.0 if f else 1.0 for _, f in gr]))

    def fn(x):
        y = jnp.take(x, pe.T, axis=-1)
        return y * sg.astype(y.dtype) if np.any(np.asarray(sg) < 0) else y

    def inv(occ, sites):
        pos = jnp.argsort(pe, axis=-1)          # position of a site in each copy
        s = jnp.moveaxis(pos[:, sites], 0, -1)
        o = jnp.expand_dims(occ, -1) * (sg if np.any(np.asarray(sg) < 0) else jnp.ones(len(gr), dtype=occ.dtype))
        return o.astype(occ.dtype), s
    return fn, inv


def copies(x, gr):
    return [[(1 - x[i]) if f else x[i] for i in p] for p, f in gr]


def models(cfg, rec, rng):
    from GPSKet.models import ARqGPS, ARqGPSModPhase, ARqGPSFull, ARqGPSModPhaseFull, ARPlaquetteqGPS, PixelCNN
    from netket.utils import HashableArray
    hi, L = space(cfg), cfg["L"]
    kw = fermi_funs(cfg) if cfg["D"] == 4 else {}
    cx, re = jnp.complex128, jnp.float64
    pl = circulant(np.arange(L))
    ms = np.where(pl >= np.arange(L)[:, None], 0, 1)
    H = HashableArray
    kinds = ["none"] if cfg["D"] == 4 else ["none", "shift", "flip", "both"]
    out = []

    def add(name, kind, fn):
        out.append((name + ("" if kind == "none" else "-" + kind), syms(L, kind, cfg["D"]), fn))
    for kind in kinds:
        f, inv = sym_fun(syms(L, kind, cfg["D"]))
        s1 = {} if kind == "none" else dict(apply_symmetries=f)
        s2 = {} if kind == "none" else dict(apply_symmetries=(f, inv))
        add("ARqGPS", kind, lambda s1=s1: ARqGPS(hi, 2, dtype=cx, **kw, **s1))
        add("ARqGPSFull", kind, lambda s2=s2: ARqGPSFull(hi, 2, dtype=cx, **kw, **s2))
        add("ARPlaquetteqGPS", kind, lambda s1=s1: ARPlaquetteqGPS(hi, 2, H(pl), H(ms), dtype=cx, **kw, **s1))
        if kind in ("none", "both"):
            add("ARqGPS-real", kind, lambda s1=s1: ARqGPS(hi, 1, dtype=re, **kw, **s1))
            add("ARqGPSModPhase", kind, lambda s1=s1: ARqGPSModPhase(hi, 2, dtype=re, **kw, **s1))
            add("ARqGPSModPhaseFull", kind, lambda s1=s1: ARqGPSModPhaseFull(hi, 2, dtype=re, apply_fast_update=False, **kw, **s1))
            add("ARqGPSFull-persite", kind, lambda s2=s2: ARqGPSFull(hi, H(np.array([1 + i % 3 for i in range(L)])), dtype=cx, **kw, **s2))
            add("ARqGPSFull-nofast", kind, lambda s1=s1: ARqGPSFull(hi, 2, dtype=cx, apply_fast_update=False, **kw, **s1))
    if cfg["D"] == 2 and cfg["sector"] == "none" and L == 4:
        add("PixelCNN", "none", lambda: PixelCNN(hi, depth=2, n_channels=3, param_dtype=re))
        add("PixelCNN-even", "none", lambda: PixelCNN(hi, depth=1, n_channels=3, kernel_size=2, param_dtype=re))
    if cfg["D"] == 2 and cfg["sector"] == "sz0" and L == 4:
        add("PixelCNN-gauge", "none", lambda: PixelCNN(hi, depth=1, n_channels=3, param_dtype=re, gauge_fn=counts_so_far, constraint_fn=lambda n: n >= L // 2))
    if L == 9:
        return hi, [(f"PixelCNN-k{k}", syms(L, "none", 2), lambda k=k, d=d, q=q: PixelCNN(hi, depth=d, n_channels=2, kernel_size=k, param_dtype=re, machine_pow=q)) for k, d, q in ((3, 3, 2), (4, 1, 2), (5, 1, 1))]
    add("ARqGPS-pow1", "none", lambda: ARqGPS(hi, 2, dtype=cx, machine_pow=1, **kw))
    add("ARqGPSFull-pow4", "none", lambda: ARqGPSFull(hi, 1, dtype=cx, machine_pow=4, **kw))
    return hi, out


def init(m, hi, x, rng, scale=16):
    v = m.init(jax.random.PRNGKey(1), x)
    v = dict(v)
    v["params"] = rand_params(v["params"], rng, scale)
    return v


def run(rec):
    for cfg, xs in groups(rec):
        rng = rng_for(rec.seed, "c09", json.dumps(cfg))
        hi, mods = models(cfg, rec, rng)
        L, D = cfg["L"], cfg["D"]
        allx = [list(map(int, c)) for c in np.stack(np.meshgrid(*[range(D)] * L, indexing="ij"), -1).reshape(-1, L)]
        for name, gr, mk in mods:
            if not rec.thorough and 6 <= L < 9 and (name.count("-") > 0):
                continue

            def go(ev):
                m = mk()
                r = rng_for(rec.seed, name, json.dumps(cfg))
                X = jnp.asarray(to_state(cfg, xs))
                v = init(m, hi, X, r)
                order = [xs[int(i)] for i in r.permutation(len(xs))]
                pw = m.machine_pow
                if name.startswith("PixelCNN"):
                    P = np.asarray(m.apply(v, jnp.asarray(to_state(cfg, order)), method=m.conditionals))
                else:
                    P = np.asarray(jax.jit(lambda v, x: m.apply(v, x, method=m.conditionals, mutable=["cache"])[0])(v, jnp.asarray(to_state(cfg, order))))
                for x, p in zip(order, P):
                    for i in range(L):
                        ev.append({"op": "cond", "x": x, "i": i + 1, "p": nums(p[i]), "how": "all"})
                # one site at a time, in the order of sampling, starting from an empty cache; later sites hold junk
                if not name.startswith("PixelCNN"):
                    junk = r.integers(0, D, size=(len(order), L))
                    from GPSKet.sampler import ARDirectSampler
                    var = {k: a for k, a in v.items() if k != "cache"}
                    sa = ARDirectSampler(hi)
                    cache = sa._init_cache(m, jnp.asarray(to_state(cfg, junk)), jax.random.PRNGKey(2))
                    cur = junk.copy()
                    pla = hasattr(m, "plaquettes")
                    step = jax.jit(lambda v, s, a: m.apply(v, s, a, method=m._conditional, mutable=["cache"])) if "persite" not in name else (lambda v, s, a: m.apply(v, s, a, method=m._conditional, mutable=["cache"]))
                    for i in range(L):
                        arg = (i, np.asarray(m.masks, np.int32)[i], np.asarray(m.plaquettes, np.int32)[i]) if pla else i
                        vv = {**var, "cache": cache} if cache else var
                        if "persite" in name:
                            p, mu = jax.jit(lambda v, s, a=arg: m.apply(v, s, a, method=m._conditional, mutable=["cache"]))(vv, jnp.asarray(to_state(cfg, cur)))
                        else:
                            p, mu = step(vv, jnp.asarray(to_state(cfg, cur)), arg)
                        cache = mu.get("cache")
                        for x, q in zip(order, np.asarray(p)):
                            ev.append({"op": "cond", "x": x, "i": i + 1, "p": nums(q), "how": "one"})
                        cur[:, i] = np.array(order)[:, i]
                f = jax.jit(lambda v, x: m.apply(v, x, mutable=["cache"])[0])

                def amp(x, first):
                    lg = np.asarray(f(v, jnp.asarray(to_state(cfg, x))), dtype=complex)
                    for a, l in zip(x, lg):
                        p = "0" if l.real == -np.inf else num(np.exp(pw * l.real))
                        ev.append({"op": "amp", "x": a, "p": p, "copies": copies(a, gr), "first": first})
                amp(order, True)
                if L < 9:
                    ev.append({"op": "total"})
                amp([order[0]], False)                       # on its own
                if cfg["sector"] == "sz0":
                    amp([x for x in allx if x not in xs], False)
            rec.case(f"{name}-{cfg['sector']}-{L}-{D}", {**cfg, "tol": "1/1000000000"}, go)


if __name__ == "__main__":
    main(run)
