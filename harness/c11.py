"""C11: amplitudes of product-type wavefunctions on every configuration TLC reached, with the parameters they were computed from."""
from models import *
from scipy.linalg import circulant
import c09

jax, jnp, nk = jx()


def groups(rec):
    g = {}
    for b in rec.inputs:
        b = b["beh"]
        g.setdefault(json.dumps(b["sp"], sort_keys=True), []).append(b["x"])
    return [(json.loads(k), sorted(v)) for k, v in sorted(g.items())]


def larger(rec):
    """A few configurations of larger systems."""
    r = rng_for(rec.seed, "c11large")
    out = []
    for kind, L, D, nu, nd in [("free", 8, 2, 0, 0), ("spin", 8, 2, 4, 4), ("elec", 7, 4, 5, 3), ("free", 6, 3, 0, 0)] + ([("spin", 10, 2, 5, 5), ("elec", 9, 4, 6, 5)] if rec.thorough else []):
        xs = []
        for _ in range(4):
            x = np.zeros(L, dtype=int)
            if kind == "free":
                x = r.integers(0, D, L)
            else:
                x[r.permutation(L)[:nu]] += 1
                if kind == "elec":
                    x[r.permutation(L)[:nd]] += 2
            xs.append([int(v) for v in x])
        out.append((dict(kind=kind, L=L, D=D, nu=nu, nd=nd), xs))
    return out


def space(sp):
    from GPSKet.hilbert import FermionicDiscreteHilbert as FH
    L, D = sp["L"], sp["D"]
    if D == 4:
        return FH(L, n_elec=(sp["nu"], sp["nd"]) if sp["kind"] == "elec" else None)
    if D == 3:
        return nk.hilbert.Spin(1, N=L)
    return nk.hilbert.Spin(0.5, N=L, total_sz=(2 * sp["nu"] - L) / 2 if sp["kind"] == "spin" else None)


def to_state(sp, a):
    a = np.asarray(a)
    if sp["D"] == 4:
        return jnp.asarray(a, dtype=jnp.uint8)
    return jnp.asarray(2.0 * a - (sp["D"] - 1))


def ops(L, kind):
    idn = list(range(L))
    sh = [[(i + k) % L for i in range(L)] for k in range(L)]
    ref = [[(k - i) % L for i in range(L)] for k in range(L)]
    return {"none": [(idn, False)], "shift": [(p, False) for p in sh], "dihedral": [(p, False) for p in sh + ref],
            "flip": [(idn, False), (idn, True)], "both": [(p, f) for p in sh for f in (False, True)]}[kind]


def index_syms(gr):
    """(symmetries, inverse) on local indices, in the convention of the library."""
    pe = jnp.asarray(np.array([p for p, _ in gr]))
    fl = np.array([f for _, f in gr])

    def fn(x):
        y = jnp.take(x, pe.T, axis=-1)
        return jnp.where(jnp.asarray(fl), 1 - y, y) if fl.any() else y

    def inv(occ, sites):
        pos = jnp.argsort(pe, axis=-1)
        s = jnp.moveaxis(pos[:, sites], 0, -1)
        o = jnp.tile(jnp.expand_dims(occ, -1), len(gr))
        return (jnp.where(jnp.asarray(fl), 1 - o, o) if fl.any() else o), s
    return fn, inv


def G(gr):
    return [{"p": [i + 1 for i in p], "f": bool(f)} for p, f in gr]


def cases(sp, rec):
    """(name, model factory, cfg from parameters, compare log?)"""
    from GPSKet.models import qGPS, PlaquetteqGPS, SegGPS, Jastrow, ARqGPS, ARqGPSModPhase, ARqGPSFull, ARqGPSModPhaseFull, ARPlaquetteqGPS
    from netket.utils import HashableArray as H
    hi, L, D = space(sp), sp["L"], sp["D"]
    cx, re = jnp.complex128, jnp.float64
    out = []
    E = lambda p: cnums(p["epsilon"])
    pls = {"pair": np.array([[i, (i + 1) % L] for i in range(L)]), "full": circulant(np.arange(L)),
           "partial": np.array([[(i + L - 1) % L, i] for i in range(max(1, L - 2))])}
    p1 = lambda a: (np.asarray(a) + 1).tolist()
    kinds = ["none", "shift", "dihedral"] + (["flip", "both"] if D == 2 else [])
    for kind in kinds:
        gr = ops(L, kind)
        g = G(gr)
        n = "" if kind == "none" else "-" + kind
        for M, dt, t in ([(1, re, "real"), (3, cx, "")] if kind == "none" else [(2, cx, "")]):
            out.append((f"qGPS{t}{n}", lambda M=M, dt=dt, gr=gr, kind=kind: qGPS(hi, M, dtype=dt, **({} if kind == "none" else dict(syms=index_syms(gr)))),
                        lambda p, g=g: dict(model="gps", eps=E(p), G=g), True))
        for pn, pl in pls.items():
            if kind in ("none", "shift") or (kind == "both" and pn == "partial"):
                out.append((f"plaq-{pn}{n}", lambda pl=pl, gr=gr, kind=kind: PlaquetteqGPS(hi, 2, H(pl), dtype=cx, **({} if kind == "none" else dict(syms=index_syms(gr)))),
                            lambda p, g=g, pl=pl: dict(model="plaq", eps=E(p), G=g, pl=p1(pl)), True))
        if D == 4 and kind in ("none", "shift", "dihedral"):
            f = index_syms(gr)[0]
            out.append((f"jastrow{n}", lambda f=f, kind=kind: Jastrow(hi, dtype=cx, **({} if kind == "none" else dict(apply_symmetries=f))),
                        lambda p, g=g: dict(model="jastrow", K=cnums(p["kernel"]), G=g), True))
    g1 = G(ops(L, "none"))
    if sp["kind"] in ("spin", "elec"):
        out.append(("seg", lambda: SegGPS(hi, 2, dtype=cx), lambda p: dict(model="seg", eps=E(p), G=g1), True))
        out.append(("seg-real", lambda: SegGPS(hi, 1, dtype=re), lambda p: dict(model="seg", eps=E(p), G=g1), True))
    if D == 2 and (sp["kind"] == "free" or sp["nu"] == sp["nd"]):
        sector = "sz0" if sp["kind"] == "spin" else "none"
        pl = circulant(np.arange(L))
        ms = np.where(pl >= np.arange(L)[:, None], 0, 1)
        ar = lambda m, p, g, **k: dict(model=m, eps=E(p), G=g, sector=sector, **k)
        for kind in ("none", "shift", "flip", "both"):
            f, inv = c09.sym_fun(ops(L, kind))
            s1 = {} if kind == "none" else dict(apply_symmetries=f)
            s2 = {} if kind == "none" else dict(apply_symmetries=(f, inv))
            g = G(ops(L, kind))
            n = "" if kind == "none" else "-" + kind
            out.append(("AR" + n, lambda s1=s1: ARqGPS(hi, 2, dtype=cx, **s1), lambda p, g=g: ar("ar", p, g), False))
            out.append(("ARfull" + n, lambda s2=s2: ARqGPSFull(hi, 2, dtype=cx, **s2), lambda p, g=g: ar("arfull", p, g), False))
            out.append(("ARplaq" + n, lambda s1=s1: ARPlaquetteqGPS(hi, 2, H(pl), H(ms), dtype=cx, **s1),
                        lambda p, g=g: ar("arplaq", p, g, pl=p1(pl), mask=ms.tolist()), False))
            if kind in ("none", "both"):
                ph = lambda p: cnums(p["_qgps"]["epsilon"])
                out.append(("ARmodphase" + n, lambda s1=s1: ARqGPSModPhase(hi, 2, dtype=re, **s1), lambda p, g=g: ar("ar", p, g, phase=ph(p)), False))
                out.append(("ARfullmodphase" + n, lambda s1=s1: ARqGPSModPhaseFull(hi, 2, dtype=re, apply_fast_update=False, **s1), lambda p, g=g: ar("arfull", p, g, phase=ph(p)), False))
                out.append(("ARfullsite" + n, lambda s2=s2: ARqGPSFull(hi, H(np.array([1 + (i * 2) % 3 for i in range(L)])), dtype=cx, **s2),
                            lambda p, g=g: dict(model="arsite", eps=[cnums(p[f"epsilon_{i}"]) for i in range(L)], G=g, sector=sector), False))
    return hi, out


def run(rec):
    for sp, xs in groups(rec) + larger(rec):
        hi, cs = cases(sp, rec)
        for name, mk, conf, log in cs:
            # first pass through the parameters: the configuration of the case needs them
            rng = rng_for(rec.seed, "c11", name, json.dumps(sp))
            cfg = {"D": sp["D"], "tol": "1/1000000000"}
            order = [xs[int(i)] for i in rng.permutation(len(xs))]
            if not rec.thorough:
                order = order[:24]

            def go(ev):
                m = mk()
                X = to_state(sp, order)
                v = dict(jax.jit(lambda k, x: m.init(k, x))(jax.random.PRNGKey(0), X))
                v.pop("intermediates_cache", None)
                v["params"] = rand_params(v["params"], rng)
                cfg.update(conf(v["params"]))
                f = jax.jit(lambda v, x: m.apply(v, x, mutable=["cache", "intermediates_cache"])[0])

                def add(y):
                    lg = np.asarray(f(v, to_state(sp, y)), dtype=complex)
                    for a, z in zip(y, lg):
                        ev.append({"op": "amp", "x": a, "val": cnum(z if log else np.exp(z))})
                add(order)
                add([order[0]])
                add(order[-2:] + order[-2:][:1])
            rec.case(f"{name}-{sp['kind']}-{sp['L']}-{sp['D']}-{sp['nu']}-{sp['nd']}", cfg, go)


if __name__ == "__main__":
    main(run)
