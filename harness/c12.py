"""C12: amplitudes of determinant- and Pfaffian-type wavefunctions on every configuration TLC reached."""
from models import *
import flax.linen as fnn
from c11 import groups, index_syms, ops, G

jax, jnp, nk = jx()


def space(sp):
    from GPSKet.hilbert import FermionicDiscreteHilbert as FH
    return FH(sp["L"], n_elec=(sp["nu"], sp["nd"]))


class Corr(fnn.Module):
    """Additive site-dependent corrections: sum_i W[i, x_i]."""
    L: int
    rows: int
    cols: int
    T: int = 1

    @fnn.compact
    def __call__(self, x, cache_intermediates=False, update_sites=None):
        W = self.param("W", fnn.initializers.normal(), (self.T, self.L, 4, self.rows, self.cols), jnp.complex128)
        x = jnp.asarray(x, jnp.int32)
        d = sum(W[:, i][:, x[:, i]] for i in range(self.L))      # (T, B, rows, cols)
        return jnp.moveaxis(d, 0, -1)


def posmap(L, kind):
    """Relabellings of the sites as functions of electron positions; P as 1-based maps."""
    gr = ops(L, kind)
    inv = [[p.index(j) for j in range(L)] for p, _ in gr]
    tab = jnp.asarray(np.array(inv))
    return (lambda y: jnp.moveaxis(tab[:, y], 0, -1)), [[i + 1 for i in p] for p in inv]


def cases(sp, rec):
    from GPSKet.models import Slater, SlaterqGPS, SlaterJastrow, ASymmqGPS, ASymmqGPSProd, Backflow, BackflowJastrow, CPDBackflow
    from GPSKet.models.pfaffian import get_gauss_leg_elements_Sy
    from netket.utils import HashableArray as H
    hi, L, nu, nd = space(sp), sp["L"], sp["nu"], sp["nd"]
    N = nu + nd
    cx, re = jnp.complex128, jnp.float64
    one = [["1", "0", "1"]]
    out = []
    none, P0 = posmap(L, "none")
    UD = lambda p: dict(up=cnums(p["U_up"]), dn=cnums(p["U_down"] if "U_down" in p else p["U_up"]))
    UG = lambda p: dict(U=cnums(p["U"]))

    def rots(ang, w):
        return [[num(np.cos(a / 2)), num(np.sin(a / 2)), num(c)] for a, c in zip(np.asarray(ang), np.asarray(w))]
    sl = lambda **k: {**dict(kind="slater", P=P0, rot=one, comb="sum"), **k}
    out.append(("Slater", lambda: Slater(hi, dtype=cx), lambda p: sl(**UD(p))))
    out.append(("Slater-real", lambda: Slater(hi, dtype=re, n_determinants=3), lambda p: sl(**UD(p))))
    out.append(("Slater-general", lambda: Slater(hi, dtype=cx, n_determinants=2, fixed_magnetization=False), lambda p: sl(**UG(p))))
    for kind in ("shift", "dihedral"):
        f, P = posmap(L, kind)
        out.append((f"Slater-{kind}", lambda f=f: Slater(hi, dtype=cx, n_determinants=2, symmetries=f), lambda p, P=P: sl(P=P, **UD(p))))
        if kind == "shift":
            out.append((f"Slater-general-{kind}", lambda f=f: Slater(hi, dtype=cx, fixed_magnetization=False, symmetries=f), lambda p, P=P: sl(P=P, **UG(p))))
    ang, w = np.array([0.0, 0.5, 2.0]), np.array([0.5, 0.25, 0.75])
    fs, Ps = posmap(L, "shift")
    out.append(("Slater-rotated", lambda: Slater(hi, dtype=cx, S2_projection=(H(ang), H(w)), n_determinants=2, symmetries=fs),
                lambda p: sl(rot=rots(ang, w), P=Ps, **UD(p))))
    out.append(("Slater-legendre", lambda: Slater(hi, dtype=cx, S2_projection=get_gauss_leg_elements_Sy(3)),
                lambda p: sl(rot=rots(*get_gauss_leg_elements_Sy(3)), **UD(p))))
    # correlation factors
    js, KG = index_syms(ops(L, "shift"))[0], G(ops(L, "shift"))
    G1 = G(ops(L, "none"))
    S, J, Q = (lambda p, n="Slater_0": p[n]), (lambda p: cnums(p["Jastrow_0"]["kernel"])), (lambda p: cnums(p["qGPS_0"]["epsilon"]))
    out.append(("SlaterJastrow", lambda: SlaterJastrow(hi, dtype=cx, n_determinants=2, spin_symmetry_by_structure=False, slater_apply_symmetries=fs, jastrow_apply_symmetries=js),
                lambda p: sl(P=Ps, K=J(p), KG=KG, **UD(S(p)))))
    out.append(("SlaterJastrow-general", lambda: SlaterJastrow(hi, dtype=cx, spin_symmetry_by_structure=False, fixed_magnetization=False),
                lambda p: sl(K=J(p), KG=G1, **UG(S(p)))))
    out.append(("SlaterqGPS", lambda: SlaterqGPS(hi, dtype=cx, M=2, spin_symmetry_by_structure=False, qGPS_apply_symmetries=index_syms(ops(L, "shift"))),
                lambda p: sl(eps=Q(p), EG=KG, **UD(S(p)))))
    out.append(("SlaterqGPS-general", lambda: SlaterqGPS(hi, dtype=cx, n_determinants=2, spin_symmetry_by_structure=False, fixed_magnetization=False, slater_apply_symmetries=fs),
                lambda p: sl(P=Ps, eps=Q(p), EG=G1, **UG(S(p)))))
    # antisymmetric product states
    co = np.array([0.5, -1.25])
    for sym in ("kernel", "projective"):
        out.append((f"ASymm-{sym}", lambda sym=sym: ASymmqGPS(hi, 2, dtype=cx, coeffs=H(co), symmetrization=sym, apply_symmetries=fs),
                    lambda p, sym=sym: sl(P=Ps, comb=sym, coef=nums(co), **UD(S(p)))))
        out.append((f"ASymm-{sym}-one", lambda sym=sym: ASymmqGPS(hi, dtype=cx, symmetrization=sym), lambda p, sym=sym: sl(comb=sym, coef=["1"], **UD(S(p)))))
    out.append(("ASymmProd", lambda: ASymmqGPSProd(hi, 3, dtype=cx, apply_symmetries=fs), lambda p: sl(P=Ps, comb="prod", **UD(S(p)))))
    # backflow
    rng = rng_for(rec.seed, "c12orb", json.dumps(sp))
    bf = lambda **k: {**dict(kind="backflow", P=P0), **k}
    o1, o2, o3 = dyadic(rng, (L, N)), dyadic(rng, (2 * L, N)), dyadic(rng, (L, nu))
    W = lambda p, n="correction_fun": [cnums(p[n]["W"])]
    out.append(("Backflow", lambda: Backflow(hi, Corr(L, L, N), orbitals=H(o1), spin_symmetry_by_structure=False),
                lambda p: bf(style="unrestricted", orb=[cnums(o1)], W=W(p))))
    out.append(("Backflow-shift", lambda: Backflow(hi, Corr(L, L, N, L), orbitals=H(o1), spin_symmetry_by_structure=False, apply_symmetries=fs),
                lambda p: bf(style="unrestricted", orb=[cnums(o1)], W=W(p), P=Ps)))
    out.append(("Backflow-noorb", lambda: Backflow(hi, Corr(L, L, N), spin_symmetry_by_structure=False), lambda p: bf(style="unrestricted", W=W(p))))
    out.append(("Backflow-general", lambda: Backflow(hi, Corr(L, 2 * L, N), orbitals=H(o2), spin_symmetry_by_structure=False, fixed_magnetization=False),
                lambda p: bf(style="general", orb=[cnums(o2)], W=W(p))))
    out.append(("Backflow-general-noorb-shift", lambda: Backflow(hi, Corr(L, 2 * L, N, L), fixed_magnetization=False, apply_symmetries=fs),
                lambda p: bf(style="general", W=W(p), P=Ps)))
    out.append(("BackflowJastrow", lambda: BackflowJastrow(hi, (H(o1), H(o1[::-1].copy())), (Corr(L, L, N), Corr(L, L, N)), spin_symmetry_by_structure=False, jastrow_apply_symmetries=js),
                lambda p: bf(style="unrestricted", orb=[cnums(o1), cnums(o1[::-1])], W=[cnums(p[f"correction_fun_{d}"]["W"]) for d in range(2)], K=J(p), KG=KG)))
    cp = lambda **k: {**dict(kind="cpd", P=P0), **k}
    env = np.array([[(a + 1) % L, a] for a in range(2 * L)]) % L
    C = lambda p: cnums(p["epsilon"])
    out.append(("CPD", lambda: CPDBackflow(hi, 2, restricted=False), lambda p: cp(style="unrestricted", ceps=C(p))))
    out.append(("CPD-general", lambda: CPDBackflow(hi, 2, fixed_magnetization=False), lambda p: cp(style="general", ceps=C(p))))
    out.append(("CPD-env", lambda: CPDBackflow(hi, 2, restricted=False, environments=H(env[:L])), lambda p: cp(style="unrestricted", ceps=C(p), env=(env[:L] + 1).tolist())))
    out.append(("CPD-general-env", lambda: CPDBackflow(hi, 1, fixed_magnetization=False, environments=H(env)), lambda p: cp(style="general", ceps=C(p), env=(env + 1).tolist())))
    if nu == nd:
        out.append(("Slater-restricted", lambda: Slater(hi, dtype=cx, n_determinants=2, spin_symmetry_by_structure=True), lambda p: sl(**UD(p))))
        out.append(("SlaterJastrow-restricted", lambda: SlaterJastrow(hi, dtype=re), lambda p: sl(K=J(p), KG=G1, **UD(S(p)))))
        out.append(("SlaterqGPS-restricted", lambda: SlaterqGPS(hi, dtype=cx), lambda p: sl(eps=Q(p), EG=G1, **UD(S(p)))))
        out.append(("ASymm-restricted", lambda: ASymmqGPS(hi, dtype=cx, spin_symmetry_by_structure=True), lambda p: sl(comb="kernel", coef=["1"], **UD(S(p)))))
        out.append(("Backflow-restricted", lambda: Backflow(hi, Corr(L, L, nu), orbitals=H(o3)), lambda p: bf(style="restricted", orb=[cnums(o3)], W=W(p))))
        out.append(("BackflowJastrow-restricted", lambda: BackflowJastrow(hi, (H(o3),), (Corr(L, L, nu, L),), backflow_apply_symmetries=fs),
                    lambda p: bf(style="restricted", orb=[cnums(o3)], W=[cnums(p["correction_fun_0"]["W"])], P=Ps, K=J(p), KG=G1)))
        out.append(("CPD-restricted", lambda: CPDBackflow(hi, 2), lambda p: cp(style="restricted", ceps=C(p))))
        out.append(("CPD-restricted-env", lambda: CPDBackflow(hi, 2, environments=H(env[:L])), lambda p: cp(style="restricted", ceps=C(p), env=(env[:L] + 1).tolist())))
    return out


def pfaffians(sp, rec):
    from GPSKet.models.pfaffian import PfaffianState, ZeroMagnetizationPfaffian, get_gauss_leg_elements_Sy
    from netket.utils import HashableArray as H
    L = sp["L"]
    ident = [list(range(1, 2 * L + 1))]
    sh = [[(i + k) % L + 1 for i in range(L)] + [(i + k) % L + L + 1 for i in range(L)] for k in range(L)]
    f = lambda y: jnp.stack([(y % L + k) % L + (y // L) * L for k in range(L)], axis=-1)
    ang, w = np.array([0.0, 0.7, 1.9]), np.array([0.5, 0.25, 0.75])
    rots = lambda a, w: [[num(np.cos(t / 2)), num(np.sin(t / 2)), num(c)] for t, c in zip(np.asarray(a), np.asarray(w))]
    cx = jnp.complex128
    out = [("Pfaffian", lambda: PfaffianState(L, dtype=cx), lambda p: dict(kind="pfaffian", F=cnums(p["F"]), P=ident)),
           ("Pfaffian-shift", lambda: PfaffianState(L, dtype=cx, symmetries=f), lambda p: dict(kind="pfaffian", F=cnums(p["F"]), P=sh))]
    if sp["nu"] == sp["nd"]:
        out += [("ZeroPfaffian", lambda: ZeroMagnetizationPfaffian(L, dtype=cx), lambda p: dict(kind="zero", f=cnums(p["f"]), P=ident, rot=[["1", "0", "1"]])),
                ("ZeroPfaffian-rotated-shift", lambda: ZeroMagnetizationPfaffian(L, dtype=cx, symmetries=f, S2_projection=(H(ang), H(w))),
                 lambda p: dict(kind="zero", f=cnums(p["f"]), P=sh, rot=rots(ang, w))),
                ("ZeroPfaffian-legendre", lambda: ZeroMagnetizationPfaffian(L, dtype=jnp.float64, S2_projection=get_gauss_leg_elements_Sy(4)),
                 lambda p: dict(kind="zero", f=cnums(p["f"]), P=ident, rot=rots(*get_gauss_leg_elements_Sy(4))))]
    return out


def amp(lg):
    return [[("0"), ("0")] if z.real == -np.inf else cnum(np.exp(z)) for z in np.asarray(lg, dtype=complex)]


def degenerate(params, rng):
    """Make some selections singular: two equal rows (sites) in every orbital matrix."""
    def leaf(path, a):
        n = str(path[-1])
        if "U" in n and a.ndim == 3 and a.shape[1] > 1:
            return a.at[0, 1].set(a[0, 0])
        return a
    return jax.tree_util.tree_map_with_path(leaf, params)


def larger(rec):
    """A few configurations of larger systems (more electrons per determinant)."""
    r = rng_for(rec.seed, "c12large")
    out = []
    for L, nu, nd in [(6, 4, 3), (6, 3, 3)] + ([(7, 2, 5), (8, 5, 5)] if rec.thorough else []):
        xs = []
        for _ in range(3):
            x = np.zeros(L, dtype=int)
            x[r.permutation(L)[:nu]] += 1
            x[r.permutation(L)[:nd]] += 2
            xs.append([int(v) for v in x])
        out.append((dict(L=L, nu=nu, nd=nd, large=True), xs))
    return out


def run(rec):
    for sp, xs in groups(rec) + larger(rec):
        tag = f"{sp['L']}-{sp['nu']}-{sp['nd']}"
        small = rec.thorough or sp["L"] <= 4
        for name, mk, conf in cases(sp, rec):
            for deg in ((False, True) if name in ("Slater", "Slater-real", "Slater-general", "SlaterJastrow", "ASymm-kernel-one", "Slater-rotated", "Slater-restricted") else (False,)):
                rng = rng_for(rec.seed, "c12", name, json.dumps(sp), deg)
                cfg = {"tol": "1/1000000000"}
                order = [xs[int(i)] for i in rng.permutation(len(xs))]
                if not rec.thorough:
                    order = order[:12]

                def go(ev):
                    m = mk()
                    X = jnp.asarray(np.array(order), dtype=jnp.uint8)
                    v = dict(jax.jit(lambda k, x: m.init(k, x))(jax.random.PRNGKey(0), X))
                    v.pop("intermediates_cache", None)
                    v["params"] = rand_params(v["params"], rng, 32 if "large" in sp else 16)
                    if deg:
                        v["params"] = degenerate(v["params"], rng)
                    cfg.update(conf(v["params"]))
                    f = jax.jit(lambda v, x: m.apply(v, x, mutable=["intermediates_cache"])[0])
                    for y in (order, order[:1]):
                        for a, z in zip(y, amp(f(v, jnp.asarray(np.array(y), dtype=jnp.uint8)))):
                            ev.append({"op": "amp", "x": a, "val": z})
                rec.case(f"{name}{'-singular' if deg else ''}-{tag}", cfg, go)
        if (sp["nu"] + sp["nd"]) % 2 == 0 and ("large" not in sp or rec.thorough):
            for name, mk, conf in pfaffians(sp, rec):
                rng = rng_for(rec.seed, "c12pf", name, json.dumps(sp))
                cfg = {"tol": "1/1000000000"}
                order = [xs[int(i)] for i in rng.permutation(len(xs))][: None if rec.thorough else 12]
                pos = [[i + 1 for i in range(sp["L"]) if x[i] & 1] + [i + 1 + sp["L"] for i in range(sp["L"]) if x[i] & 2] for x in order]

                def go(ev):
                    m = mk()
                    Y = jnp.asarray(np.array(pos) - 1)
                    v = {"params": rand_params(m.init(jax.random.PRNGKey(0), Y)["params"], rng)}
                    cfg.update(conf(v["params"]))
                    f = jax.jit(lambda v, y: m.apply(v, y))
                    for q in (pos, pos[:1]):
                        for a, z in zip(q, amp(f(v, jnp.asarray(np.array(q) - 1)))):
                            ev.append({"op": "amp", "x": a, "val": z})
                rec.case(f"{name}-{tag}", cfg, go)
    # the Pfaffian itself
    for n in (2, 4, 6, 8) + ((10,) if rec.thorough else ()):
        for kind in ("real", "complex", "sparse", "singular", "permutation", "imaginary", "mixed", "tiny", "large"):
            rng = rng_for(rec.seed, "pf", n, kind)

            def go(ev):
                from GPSKet.models.pfaffian import log_pfaffian
                lp = jax.jit(log_pfaffian)
                for rep in range(20 if rec.thorough else 5):
                    a = dyadic(rng, (n, n))
                    if kind in ("complex", "singular", "tiny", "large"):
                        a = a + 1j * dyadic(rng, (n, n))
                    if kind == "imaginary":
                        a = np.where(rng.random((n, n)) < 0.6, 1j * a, 0.0)
                    if kind == "mixed":    # every element real, imaginary or zero
                        a = a * rng.choice([1.0, 1.0j, 0.0], p=[0.4, 0.4, 0.2], size=(n, n))
                    if kind == "sparse":
                        a = np.where(rng.random((n, n)) < 0.5, a, 0.0)
                    a = np.triu(a, 1)
                    a = a - a.T
                    if kind == "singular":
                        j = int(rng.integers(n))
                        a[j] = 0
                        a[:, j] = 0
                    if kind == "permutation":
                        p = rng.permutation(n)
                        a = np.zeros((n, n))
                        for i in range(0, n, 2):
                            a[p[i], p[i + 1]], a[p[i + 1], p[i]] = 1.5, -1.5
                    sc = {"tiny": 2.0 ** -int(rng.integers(30, 90)), "large": 2.0 ** int(rng.integers(30, 90))}.get(kind, 1.0)
                    z = complex(lp(jnp.asarray(sc * a))) - n / 2 * np.log(sc)    # Pf(s A) = s^(n/2) Pf(A)
                    ev.append({"op": "pf", "a": cnums(a), "val": amp([z])[0]})
                    if z.real > -5 and kind != "singular":
                        b = np.triu(dyadic(rng, (n, n)), 1)
                        b = b - b.T
                        _, d = jax.jvp(lambda t: lp(sc * (jnp.asarray(a, dtype=jnp.complex128) + t * b)), (0.0,), (1.0,))
                        ev.append({"op": "pfdot", "a": cnums(a), "b": cnums(b), "val": cnum(complex(d))})
            rec.case(f"log_pfaffian-{kind}-{n}", {"tol": "1/1000000000"}, go)


if __name__ == "__main__":
    main(run)
