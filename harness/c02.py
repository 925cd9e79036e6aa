"""C02: on-the-fly local energies and local density matrices against the second-quantised operator."""
from models import *
from c01 import sym_integrals

jax, jnp, nk = jx()


def fermi_models(hi, L, nu, nd, fast):
    """Wavefunctions defined on this sector (name, constructor, offset of the random parameters)."""
    import flax.linen as fnn
    from GPSKet.models import qGPS, Slater, SlaterqGPS, CPDBackflow, SlaterJastrow, PlaquetteqGPS
    out = [("qGPS", lambda: qGPS(hi, 2, apply_fast_update=fast), 1.0)]
    if nu > 0 and nd > 0:
        out.append(("Slater", lambda: Slater(hi, apply_fast_update=fast), None))
        out.append(("Slater2", lambda: Slater(hi, n_determinants=2, fixed_magnetization=False, apply_fast_update=fast, constant_time_updates=False), None))
        out.append(("SlaterqGPS", lambda: SlaterqGPS(hi, spin_symmetry_by_structure=False, apply_fast_update=fast), None))
        out.append(("CPD", lambda: CPDBackflow(hi, 1, restricted=False, apply_fast_update=fast), None))
    return out


def sector(L, nu, nd):
    from itertools import combinations
    return [[(i in u) + 2 * (i in d) for i in range(L)] for u in combinations(range(L), nu) for d in combinations(range(L), nd)]


def moved(x, y):
    """Electrons to move from x to y, per spin."""
    return sum((a & 1) & ~(b & 1) for a, b in zip(x, y)), sum((a >> 1) & ~(b >> 1) for a, b in zip(x, y))


def larger(rec):
    """Larger systems, a few random samples each: hops over many electrons, many terms."""
    from GPSKet.hilbert import FermionicDiscreteHilbert as FH
    from GPSKet.operator.hamiltonian import ab_initio as ai, ab_initio_sparse as ais, hubbard as hb
    sizes = [("hubbard", 7, 5, 3, True), ("hubbard", 8, 3, 6, False), ("abinitio", 6, 4, 2, True), ("sparse", 6, 2, 5, True), ("sparse", 7, 5, 2, False)]
    if rec.thorough:
        sizes += [("hubbard", 9, 7, 4, True), ("hubbard", 8, 4, 4, True), ("abinitio", 6, 3, 4, False), ("abinitio", 7, 5, 1, True), ("sparse", 7, 4, 4, True)]
    for opname, L, nu, nd, fast in sizes:
        hi = FH(L, n_elec=(nu, nd))
        for name, mk, around in fermi_models(hi, L, nu, nd, fast)[: 5 if rec.thorough else 2]:
            r = rng_for(rec.seed, "c02large", opname, L, nu, nd, name)
            seed = int(r.integers(1 << 30))
            if opname == "hubbard":
                ed = [(i, j) if r.random() < 0.5 else (j, i) for i in range(L) for j in range(i)]
                t = [float(v) for v in dyadic(r, (len(ed),))]
                U = float(dyadic(r, ()))
                cfg = {"kind": "hubbard", "U": num(U), "edges": [[a + 1, b + 1] for a, b in ed], "t": [num(v) for v in t]}
                mkop = lambda ed=ed, U=U, t=t: hb.FermiHubbardOnTheFly(hi, ed, U=U, t=t)
            else:
                h, e = sym_integrals(r, L, True)
                cfg = {"kind": "abinitio", "h": nums(h), "eri": nums(e)}
                cls = ai.AbInitioHamiltonianOnTheFly if opname == "abinitio" else ais.AbInitioHamiltonianSparse
                mkop = lambda h=h, e=e, cls=cls: cls(hi, h, e)
            cfg.update(tol="1/1000000000", psi=[])

            def go(ev):
                xs = sector(L, nu, nd)
                vs = state_with(mk(), hi, [xs[0]], rng=rng_for(seed, 1), around=around)
                lg = np.asarray(vs.log_value(np.array(xs, dtype=np.uint8)))
                ok = [k for k in range(len(xs)) if lg[k].real > np.median(lg.real)]
                sel = [xs[ok[int(i)]] for i in rng_for(seed, 2).permutation(len(ok))[: 4 if opname == "hubbard" else 2]]
                near = [y for y in xs if any(sum(moved(x, y)) <= (1 if opname == "hubbard" else 2) for x in sel)]
                cfg["psi"] = table(vs, np.array(near))
                op = mkop()
                set_samples(vs, sel, 1)
                vs.chunk_size = None if fast else 1
                for x, v in zip(sel, np.asarray(vs.local_estimators(op)).reshape(-1)):
                    ev.append({"op": "local energy of a larger system", "x": x, "eloc": cnum(v)})
            rec.case(f"{opname}-{name}-{'fast' if fast else 'slow'}-large-{L}-{nu}-{nd}", cfg, go)


def run(rec):
    larger(rec)
    from GPSKet.hilbert import FermionicDiscreteHilbert as FH
    from GPSKet.operator.hamiltonian import ab_initio as ai, ab_initio_sparse as ais, hubbard as hb
    secs = {}
    for b in rec.inputs:
        b = b["beh"]
        secs.setdefault((b["L"], b["nu"], b["nd"]), []).append(b["x"])
    for (L, nu, nd), xs in sorted(secs.items()):
        xs = sorted(xs)
        rng = rng_for(rec.seed, "c02", L, nu, nd)
        hi = FH(L, n_elec=(nu, nd))
        for opname in ("hubbard", "abinitio", "sparse"):
            for fast in (True, False):
                models = fermi_models(hi, L, nu, nd, fast)
                if not rec.thorough:
                    models = [models[int(rng.integers(len(models)))]]
                for name, mk, around in models:
                    seed = int(rng.integers(1 << 30))
                    r = rng_for(seed)
                    if opname == "hubbard":
                        pairs = [(i, j) for i in range(L) for j in range(L) if i != j]
                        k = int(r.integers(1, len(pairs) + 1)) if pairs else 0
                        ed = [pairs[int(i)] for i in r.integers(0, len(pairs), size=k)] if pairs else []
                        if k and L > 3:
                            ed[0] = (0, L - 1) if seed % 2 else (L - 1, 0)   # over all electrons in between
                        t = [float(v) for v in dyadic(r, (k,))]
                        U = float(dyadic(r, ()))
                        cfg = {"kind": "hubbard", "U": num(U), "edges": [[a + 1, b + 1] for a, b in ed], "t": [num(v) for v in t]}
                        mkop = lambda ed=ed, U=U, t=t: hb.FermiHubbardOnTheFly(hi, ed, U=U, t=t)
                        t2, U2 = [float(v) for v in dyadic(r, (k,))], float(dyadic(r, ()))
                        other = ({"U": num(U2), "t": [num(v) for v in t2]}, lambda ed=ed, U=U2, t=t2: hb.FermiHubbardOnTheFly(hi, ed, U=U, t=t))
                    else:
                        h, e = sym_integrals(r, L, opname == "sparse")
                        if opname == "sparse" and (L, nu) == (3, 1):
                            h, e = (h, e * 0) if fast else (h * 0, e)   # one of the two parts absent
                        cfg = {"kind": "abinitio", "h": nums(h), "eri": nums(e)}
                        cls = ai.AbInitioHamiltonianOnTheFly if opname == "abinitio" else ais.AbInitioHamiltonianSparse
                        mkop = lambda h=h, e=e, cls=cls: cls(hi, h, e)
                        # the same non-zero elements, other values
                        h2, e2 = sym_integrals(r, L)
                        h2, e2 = np.where(h != 0, h2, 0.0), np.where(e != 0, e2, 0.0)
                        other = ({"h": nums(h2), "eri": nums(e2)}, lambda h=h2, e=e2, cls=cls: cls(hi, h, e))
                    cfg.update(tol="1/10000000000", psi=[])

                    def go(ev):
                        op = mkop()
                        vs = state_with(mk(), hi, [xs[0]], rng=rng_for(seed, 1), around=around)
                        cfg["psi"] = table(vs, np.array(xs))
                        ab = np.abs(np.exp(np.asarray(vs.log_value(np.array(xs)))))
                        ok = [x for x, a in zip(xs, ab) if a > 1e-2 * ab.max()]
                        sel = [ok[int(i)] for i in rng_for(seed, 2).permutation(len(ok))[:10]]
                        if len(sel) % 2:
                            sel.append(sel[0])
                        for chains, chunk in ((((1, None),) if seed % 2 else ((2, 1 + seed % 4 // 2),)) if not rec.thorough else ((1, None), (2, 1), (1, 2), (1, len(sel)))):
                            set_samples(vs, sel, chains)
                            vs.chunk_size = chunk
                            es = np.asarray(vs.local_estimators(op)).reshape(-1)
                            for x, v in zip(sel, es):
                                ev.append({"op": f"local energy, chunk {chunk}", "x": x, "eloc": cnum(v)})
                        if "qGPS" == name or rec.thorough:
                            st = vs.expect(op)
                            ev.append({"op": "expectation", "n": len(sel), "mean": cnum(st.mean), "var": num(st.variance)})
                        if opname == "abinitio" and (L < 4 or name == "qGPS" or rec.thorough):
                            fn = lambda chunk: ai.local_en_on_the_fly(
                                hi._n_elec, vs._apply_fun, vs.variables, jnp.asarray(sel), (jnp.asarray(op.t_mat), jnp.asarray(op.eri_mat)),
                                use_fast_update=fast, chunk_size=chunk, return_local_RDMs=True)
                            e1, tR, eR = fn(None if seed % 2 else 2)
                            h2, g2 = sym_integrals(rng_for(seed, 3), L)
                            for i, x in enumerate(sel[:4 if L > 3 else 10]):
                                ev.append({"op": "with density matrices", "x": x, "eloc": cnum(e1[i])})
                                ev.append({"op": "density matrices", "x": x, "tR": cnums(np.asarray(tR[i]).reshape(-1)), "eR": cnums(np.asarray(eR[i]).reshape(-1)),
                                           **({"h": nums(op.h_mat), "eri": nums(op.eri_mat)} if i % 2 else {"h": nums(h2), "eri": nums(g2)})})
                        # other parameters, then another operator of the same kind, on the same state
                        def again(label, o):
                            set_samples(vs, sel, chains)
                            for x, v in zip(sel, np.asarray(vs.local_estimators(o)).reshape(-1)):
                                ev.append({"op": label, "x": x, "eloc": cnum(v)})
                        vs.parameters = rand_params(vs.parameters, rng_for(seed, 4), around=around)
                        lg = np.asarray(vs.log_value(np.array(xs))).real
                        keep = [x for x in sel if np.exp(lg[xs.index(x)] - lg.max()) > 1e-2]
                        if len(keep) >= 2:
                            sel = (keep * len(sel))[: len(sel)]
                            ev.append({"op": "parameters", "psi": table(vs, np.array(xs))})
                            again("local energy after a change of parameters", op)
                            ev.append({"op": "operator", "with": other[0]})
                            again("local energy of another operator", other[1]())
                    rec.case(f"{opname}-{name}-{'fast' if fast else 'slow'}-{L}-{nu}-{nd}", cfg, go)


if __name__ == "__main__":
    main(run)
