"""C10: histories of full evaluations, commits and trials generated by TLC, replayed into every fast-update wavefunction."""
from models import *

jax, jnp, nk = jx()


def groups(rec):
    g = {}
    for b in rec.inputs:
        b = b["beh"]
        g.setdefault(json.dumps(b["sp"], sort_keys=True), []).append(b)
    return [(json.loads(k), v) for k, v in sorted(g.items())]


def space(sp):
    from GPSKet.hilbert import FermionicDiscreteHilbert as FH
    if sp["D"] == 4:
        return FH(sp["L"], n_elec=(sp["nu"], sp["nd"]) if sp["kind"] == "elec" else None)
    return nk.hilbert.Spin(0.5, N=sp["L"], total_sz=(2 * sp["nu"] - sp["L"]) / 2 if sp["kind"] == "spin" else None)


def shifts(L, D, flip=False):
    """Translations (and spin flip of local states 0/1) as (symmetries, inverse)."""
    pe = np.array([[(i + k) % L for i in range(L)] for k in range(L)])
    pos = jnp.asarray(np.argsort(pe, axis=-1).T)
    pj = jnp.asarray(pe.T)

    def f(x):
        y = jnp.take(x, pj, axis=-1)
        return jnp.concatenate((y, 1 - y), axis=-1) if flip else y

    def inv(occ, sites):
        s = pos[sites]
        o = jnp.tile(jnp.expand_dims(occ, -1), L)
        if flip:
            return jnp.concatenate((o, 1 - o), -1), jnp.concatenate((s, s), -1)
        return o, s
    return f, inv


def pos_shifts(L):
    return lambda y: jnp.stack([(y + k) % L for k in range(L)], axis=-1)


def models(sp, rec):
    import flax.linen as fnn
    from GPSKet.models import qGPS, PlaquetteqGPS, ARqGPSFull, Slater, SlaterqGPS, CPDBackflow, Backflow, get_sym_transformation_spin
    from netket.utils import HashableArray as H
    import c09
    hi, L, D = space(sp), sp["L"], sp["D"]
    cx = jnp.complex128
    out = []
    pl = np.array([[i, (i + 1) % L] for i in range(L)])
    pl3 = np.array([[(i + 2) % L, i] for i in range(L - 1)])
    out.append(("qGPS", lambda: qGPS(hi, 2, dtype=cx), 1.0))
    out.append(("qGPS-shift", lambda: qGPS(hi, 2, dtype=cx, syms=shifts(L, D)), 1.0))
    out.append(("plaquette", lambda: PlaquetteqGPS(hi, 2, H(pl), dtype=cx, apply_fast_update=True), 1.0))
    out.append(("plaquette-partial-shift", lambda: PlaquetteqGPS(hi, 2, H(pl3), dtype=cx, syms=shifts(L, D), apply_fast_update=True), 1.0))
    if D == 2:
        ch = nk.graph.Chain(L)
        out.append(("qGPS-auto-flip", lambda: qGPS(hi, 2, dtype=cx, syms=get_sym_transformation_spin(ch, True, True)), 1.0))
        out.append(("qGPS-auto", lambda: qGPS(hi, 2, dtype=cx, syms=get_sym_transformation_spin(ch, True, False)), 1.0))
        out.append(("qGPS-flip", lambda: qGPS(hi, 2, dtype=jnp.float64, syms=get_sym_transformation_spin(ch, False, True)), 1.0))
        out.append(("plaquette-auto-flip", lambda: PlaquetteqGPS(hi, 2, H(pl), dtype=cx, syms=get_sym_transformation_spin(ch, True, True), apply_fast_update=True), 1.0))
        out.append(("ARfull", lambda: ARqGPSFull(hi, 2, dtype=cx), None))
        out.append(("ARfull-persite", lambda: ARqGPSFull(hi, H(np.array([1 + i % 3 for i in range(L)])), dtype=cx), None))
        f, inv = c09.sym_fun(c09.syms(L, "both", 2))
        out.append(("ARfull-both", lambda: ARqGPSFull(hi, 2, dtype=cx, apply_symmetries=(f, inv)), None))
    if D == 4 and sp["kind"] == "free":
        kw = c09.fermi_funs({**sp, "sector": "none"})
        out.append(("ARfull-fermi", lambda: ARqGPSFull(hi, 2, dtype=cx, **kw), None))
    if sp["kind"] == "elec":
        out.append(("Slater", lambda: Slater(hi, dtype=cx), None))
        out.append(("Slater-linear", lambda: Slater(hi, dtype=cx, constant_time_updates=False), None))
        out.append(("Slater-2-shift", lambda: Slater(hi, n_determinants=2, dtype=cx, symmetries=pos_shifts(L)), None))
        out.append(("Slater-general", lambda: Slater(hi, dtype=cx, fixed_magnetization=False, n_determinants=2), None))
        out.append(("Slater-general-linear", lambda: Slater(hi, dtype=cx, fixed_magnetization=False, constant_time_updates=False, symmetries=pos_shifts(L)), None))
        out.append(("SlaterqGPS", lambda: SlaterqGPS(hi, dtype=cx, spin_symmetry_by_structure=False, qGPS_apply_symmetries=shifts(L, D)), None))
        out.append(("CPD", lambda: CPDBackflow(hi, 2, restricted=False), None))
        out.append(("CPD-general", lambda: CPDBackflow(hi, 1, restricted=False, fixed_magnetization=False), None))
        if sp["nu"] == sp["nd"]:
            out.append(("CPD-restricted", lambda: CPDBackflow(hi, 2), None))
            out.append(("Slater-restricted", lambda: Slater(hi, spin_symmetry_by_structure=True, dtype=jnp.float64), None))
            out.append(("SlaterqGPS-restricted", lambda: SlaterqGPS(hi, dtype=cx, n_determinants=2, slater_apply_symmetries=pos_shifts(L)), None))
            out.append(("Slater-S2", lambda: Slater(hi, S2_projection=(H(np.array([0.0, 0.5, 1.0])), H(np.array([0.5, 0.25, 0.25]))), dtype=cx), None))
        # backflow with a product-state correction
        nu, nd = sp["nu"], sp["nd"]
        N = nu + nd

        class Corr(fnn.Module):
            cols: int
            rows: int

            @fnn.compact
            def __call__(self, x, cache_intermediates=False, update_sites=None):
                ot = lambda a: a.sum(-1).reshape(a.shape[0], self.rows, self.cols, -1)
                g = qGPS(hi, self.rows * self.cols * 2, dtype=cx,
                         out_transformation=lambda a: a.reshape(a.shape[0], self.rows, self.cols, 2, -1).sum(3))
                return g(x, cache_intermediates=cache_intermediates, update_sites=update_sites)
        orb = np.array([[((i * 7 + j * 3) % 11 - 5) / 4 for j in range(N)] for i in range(L)])
        orb2 = np.array([[((i * 7 + j * 3 + i * j) % 11 - 5) / 4 for j in range(N)] for i in range(2 * L)])
        out.append(("Backflow", lambda: Backflow(hi, Corr(N, L), orbitals=H(orb), spin_symmetry_by_structure=False), 1.0))
        out.append(("Backflow-general", lambda: Backflow(hi, Corr(N, 2 * L), orbitals=H(orb2), spin_symmetry_by_structure=False, fixed_magnetization=False), 1.0))
        if nu == nd:
            out.append(("Backflow-restricted", lambda: Backflow(hi, Corr(nu, L)), 1.0))
    return hi, out


def to_state(sp, a):
    a = np.asarray(a)
    return jnp.asarray(a, dtype=jnp.uint8) if sp["D"] == 4 else jnp.asarray(2.0 * a - 1.0)


def run(rec):
    for sp, hs in groups(rec):
        hi, mods = models(sp, rec)
        for name, mk, around in mods:
            def go(ev):
                m = mk()
                kw = {"mutable": "intermediates_cache"}
                x0 = to_state(sp, hs[0]["start"])
                v0 = dict(jax.jit(lambda k, x: m.init(k, x))(jax.random.PRNGKey(0), x0))
                base = {k: a for k, a in v0.items() if k not in ("intermediates_cache", "cache")}
                if "cache" in v0:
                    base["cache"] = v0["cache"]
                seen = sorted({tuple(y) for h in hs for y in h["start"]} | {tuple(r["y"]) for h in hs for s in h["steps"] for r in s["rows"]})
                X = to_state(sp, seen)
                fresh = jax.jit(lambda v, x: m.apply(v, x, mutable=["cache", "intermediates_cache"])[0])
                best = None
                for att in range(8 if sp["kind"] == "elec" else 1):
                    p = rand_params(base["params"], rng_for(rec.seed, "c10", name, json.dumps(sp), att), around=around)
                    a = np.exp(np.asarray(fresh({**base, "params": p}, X), dtype=complex))
                    q = np.min(np.abs(a)) / np.max(np.abs(a)) if np.all(np.isfinite(a)) else 0
                    if best is None or q > best[0]:
                        best = (q, p, a)
                base["params"] = best[1]
                scale = np.max(np.abs(best[2]))
                tab = {k: z / scale for k, z in zip(seen, best[2])}
                full = jax.jit(lambda v, x: m.apply(v, x, mutable=["cache", "intermediates_cache"])[0])
                fullc = jax.jit(lambda v, x: m.apply(v, x, cache_intermediates=True, **kw))
                com = jax.jit(lambda v, x, s: m.apply(v, x, cache_intermediates=True, update_sites=s, **kw))
                tri = jax.jit(lambda v, x, s: m.apply(v, x, update_sites=s, mutable=["cache"])[0])
                for h in hs[: (200 if rec.thorough else 12)]:
                    steps = [{"kind": "refresh", "rows": [{"s": [], "o": [], "y": y} for y in h["start"]]}] + h["steps"]
                    cache = {}
                    for st in steps:
                        ys = [r["y"] for r in st["rows"]]
                        if st["kind"] in ("commit", "trial"):
                            sites = jnp.asarray(np.array([r["s"] for r in st["rows"]]) - 1)
                            occ = to_state(sp, [r["o"] for r in st["rows"]])
                            v = {**base, **cache}
                            if st["kind"] == "commit":
                                val, cache = com(v, occ, sites)
                            else:
                                val = tri(v, occ, sites)
                        elif st["kind"] == "refresh":
                            val, cache = fullc({**base, **cache}, to_state(sp, ys))
                        else:
                            val = full({**base, **cache}, to_state(sp, ys))
                        val = np.exp(np.asarray(val, dtype=complex)) / scale
                        ev.append({"op": st["kind"], "y": ys, "s": [r["s"] for r in st["rows"]], "o": [r["o"] for r in st["rows"]],
                                   "val": cnums(val), "fresh": [cnum(tab[tuple(y)]) for y in ys]})
            rec.case(f"{name}-{sp['kind']}-{sp['L']}-{sp['D']}-{sp['nu']}-{sp['nd']}", {"tol": "1/1000000000"}, go)


if __name__ == "__main__":
    main(run)
