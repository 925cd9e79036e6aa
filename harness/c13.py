"""C13: symmetry helpers and symmetrised amplitudes on whole orbits."""
from models import *
import c09, c10
from c11 import groups, space, to_state, ops, index_syms, G
from c12 import posmap, Corr

jax, jnp, nk = jx()


def graphs(L):
    g = {"ring": nk.graph.Chain(L, pbc=True), "path": nk.graph.Chain(L, pbc=False)}
    g["star"] = nk.graph.Graph(edges=[(0, i) for i in range(1, L)])
    if L == 4:
        g["paw"] = nk.graph.Graph(edges=[(0, 1), (1, 2), (2, 0), (2, 3)])
        g["complete"] = nk.graph.Graph(edges=[(i, j) for i in range(4) for j in range(i)])
    if L == 6:
        g["ladder"] = nk.graph.Grid([3, 2], pbc=[True, False])
    if L == 9:
        g = {"torus": nk.graph.Square(3)}
    if L == 8:
        g = {"ring": g["ring"], "cube": nk.graph.Hypercube(2, n_dim=3, pbc=False)}
    return g


def helper_cases(rec):
    sizes = {3: None, 4: None, 5: None, 6: 10, 8: 4, 9: 3}
    for L, nconf in sizes.items():
        for gn, g in graphs(L).items():
            edges = [[int(a) + 1, int(b) + 1] for a, b in g.edges()]
            for auto in (True, False):
                for flip in (True, False):
                    rng = rng_for(rec.seed, "c13", L, gn, auto, flip)
                    if nconf is None:
                        xs = [[(k >> i) & 1 for i in range(L)] for k in range(2 ** L)]
                    else:
                        xs = [[int(v) for v in rng.integers(0, 2, L)] for _ in range(nconf)]

                    def go(ev):
                        from GPSKet.models import get_sym_transformation_spin
                        sym, inv = get_sym_transformation_spin(g, automorphisms=auto, spin_flip=flip)
                        cop = np.asarray(sym(jnp.asarray(np.array(xs))))      # (B, L, T)
                        for b, x in enumerate(xs):
                            c = [ints(cop[b, :, t]) for t in range(cop.shape[-1])]
                            alone = np.asarray(sym(jnp.asarray(np.array(x))))
                            ev.append({"op": "copies", "x": x, "c": c, "c1": [ints(alone[:, t]) for t in range(alone.shape[-1])]})
                            for U in (1, 2, 3):
                                q = rng.integers(0, L, U)
                                occ = np.array([x[j] if any(q[i] == j for i in range(k)) else int(rng.integers(2)) for k, j in enumerate(q)])
                                y = list(x)
                                for k in reversed(range(U)):
                                    y[q[k]] = int(occ[k])
                                o, s = inv(jnp.asarray(occ), jnp.asarray(q))
                                o, s = np.asarray(o), np.asarray(s)
                                d = np.asarray(sym(jnp.asarray(np.array(y))))
                                ev.append({"op": "inverse", "q": (q + 1).tolist(), "o": occ.tolist(), "x": x, "c": c,
                                           "s": [ints(s[:, t] + 1) for t in range(s.shape[-1])], "p": [ints(o[:, t]) for t in range(o.shape[-1])],
                                           "d": [ints(d[:, t]) for t in range(d.shape[-1])]})
                    rec.case(f"helper-{gn}-{L}-{'auto' if auto else ''}-{'flip' if flip else ''}", {"L": L, "edges": edges, "auto": auto, "flip": flip}, go)


def no_syms_case(rec):
    def go(ev):
        from GPSKet.models.qGPS import no_syms
        sym, inv = no_syms()
        for x in ([0, 1, 1, 0], [1, 0, 0, 1]):
            c = np.asarray(sym(jnp.asarray(np.array([x]))))[0]
            a = np.asarray(sym(jnp.asarray(np.array(x))))
            ev.append({"op": "copies", "x": x, "c": [ints(c[:, 0])], "c1": [ints(a[:, t]) for t in range(a.shape[-1])]})
    rec.case("helper-none", {"L": 4, "edges": [], "auto": False, "flip": False}, go)


def models(sp, rec):
    from GPSKet.models import (qGPS, PlaquetteqGPS, Jastrow, ARqGPS, ARqGPSFull, ARPlaquetteqGPS, Slater, SlaterJastrow, SlaterqGPS,
                               ASymmqGPS, ASymmqGPSProd, get_sym_transformation_spin)
    from netket.utils import HashableArray as H
    from scipy.linalg import circulant
    hi, L, D = space(sp), sp["L"], sp["D"]
    cx = jnp.complex128
    out = []
    edges = lambda g: [[int(a) + 1, int(b) + 1] for a, b in g.edges()]
    if D == 2:
        for gn, g in (("ring", nk.graph.Chain(L)), ("path", nk.graph.Chain(L, pbc=False))):
            for auto in (True, False):
                for flip in (True, False):
                    if sp["kind"] == "spin" and sp["nu"] != sp["nd"] and flip or not (auto or flip):
                        continue
                    grp = dict(L=L, edges=edges(g), auto=auto, flip=flip, fermions=False)
                    t = f"{gn}{'-auto' if auto else ''}{'-flip' if flip else ''}"
                    out.append((f"qGPS-{t}", lambda g=g, auto=auto, flip=flip: qGPS(hi, 2, dtype=cx, syms=get_sym_transformation_spin(g, auto, flip)), grp))
                    pl = np.array([[i, (i + 1) % L] for i in range(L - 1)])
                    out.append((f"plaq-{t}", lambda g=g, auto=auto, flip=flip, pl=pl: PlaquetteqGPS(hi, 2, H(pl), dtype=cx, syms=get_sym_transformation_spin(g, auto, flip)), grp))
        if sp["kind"] == "free" or sp["nu"] == sp["nd"]:
            pl = circulant(np.arange(L))
            ms = np.where(pl >= np.arange(L)[:, None], 0, 1)
            for kind in ("shift", "flip", "both", "dihedral"):
                f, inv = c09.sym_fun(ops(L, kind))
                grp = dict(G=G(ops(L, kind)), fermions=False)
                out.append((f"AR-{kind}", lambda f=f: ARqGPS(hi, 2, dtype=cx, apply_symmetries=f), grp))
                out.append((f"ARfull-{kind}", lambda f=f, inv=inv: ARqGPSFull(hi, 2, dtype=cx, apply_symmetries=(f, inv)), grp))
                out.append((f"ARplaq-{kind}", lambda f=f: ARPlaquetteqGPS(hi, 2, H(pl), H(ms), dtype=cx, apply_symmetries=f), grp))
    if D == 4:
        for kind in ("shift", "dihedral"):
            f, inv = index_syms(ops(L, kind))
            grp = dict(G=G(ops(L, kind)), fermions=False)
            out.append((f"qGPS-{kind}", lambda f=f, inv=inv: qGPS(hi, 2, dtype=cx, syms=(f, inv)), grp))
            out.append((f"jastrow-{kind}", lambda f=f: Jastrow(hi, dtype=cx, apply_symmetries=f), grp))
            if sp["kind"] == "elec":
                pf, _ = posmap(L, kind)
                gf = dict(G=G(ops(L, kind)), fermions=True)
                out.append((f"Slater-{kind}", lambda pf=pf: Slater(hi, 2, dtype=cx, symmetries=pf), gf))
                out.append((f"Slater-general-{kind}", lambda pf=pf: Slater(hi, dtype=cx, fixed_magnetization=False, symmetries=pf), gf))
                out.append((f"SlaterqGPS-{kind}", lambda pf=pf, f=f, inv=inv: SlaterqGPS(hi, dtype=cx, spin_symmetry_by_structure=False, slater_apply_symmetries=pf, qGPS_apply_symmetries=(f, inv)), gf))
                out.append((f"SlaterJastrow-{kind}", lambda pf=pf, f=f: SlaterJastrow(hi, dtype=cx, spin_symmetry_by_structure=False, slater_apply_symmetries=pf, jastrow_apply_symmetries=f), gf))
                out.append((f"ASymm-kernel-{kind}", lambda pf=pf: ASymmqGPS(hi, dtype=cx, apply_symmetries=pf), gf))
                out.append((f"ASymm-projective-{kind}", lambda pf=pf: ASymmqGPS(hi, dtype=cx, symmetrization="projective", apply_symmetries=pf), gf))
                out.append((f"ASymmProd-{kind}", lambda pf=pf: ASymmqGPSProd(hi, 3, dtype=cx, apply_symmetries=pf), gf))
    return out


def run(rec):
    helper_cases(rec)
    no_syms_case(rec)
    for sp, xs in groups(rec):
        if sp["D"] == 3:
            continue
        for name, mk, grp in models(sp, rec):
            rng = rng_for(rec.seed, "c13", name, json.dumps(sp))
            cfg = {"tol": "1/1000000000", **grp}

            def go(ev):
                m = mk()
                X = to_state(sp, xs)
                v = dict(jax.jit(lambda k, x: m.init(k, x))(jax.random.PRNGKey(0), X))
                v.pop("intermediates_cache", None)
                v["params"] = rand_params(v["params"], rng)
                f = jax.jit(lambda v, x: m.apply(v, x, mutable=["cache", "intermediates_cache"])[0])
                z = np.asarray(f(v, X), dtype=complex)
                top = np.max(z.real)
                for x, a in zip(xs, z):
                    ev.append({"op": "value", "x": x, "val": ["0", "0"] if a.real == -np.inf else cnum(np.exp(a - top))})
            rec.case(f"{name}-{sp['kind']}-{sp['L']}-{sp['D']}-{sp['nu']}-{sp['nd']}", cfg, go)


if __name__ == "__main__":
    main(run)
