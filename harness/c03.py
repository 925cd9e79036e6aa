"""C03: J1-J2 rows in every configuration TLC reached, and on-the-fly local energies."""
from models import *
from c01 import rows

jax, jnp, nk = jx()


def eloc_events(ev, vs, op, xs, chains, label):
    e = np.asarray(vs.local_estimators(op)).reshape(-1)
    for x, v in zip(np.asarray(vs.samples).reshape(-1, vs.samples.shape[-1]), e):
        ev.append({"op": label, "x": ints(x), "eloc": cnum(v)})


def build(ev, **kw):
    from GPSKet.operator.hamiltonian.J1J2 import get_J1_J2_Hamiltonian
    try:
        op = get_J1_J2_Hamiltonian(**kw)
    except ValueError as e:
        if "bipartite" not in str(e):
            raise
        ev.append({"op": "construction", "rejected": True})
        return None
    ev.append({"op": "construction", "rejected": False})
    return op


def run(rec):
    import GPSKet as qk
    from GPSKet.models import qGPS, PlaquetteqGPS, Jastrow, get_sym_transformation_spin, ARqGPSFull
    lats = {}
    for b in rec.inputs:
        b = b["beh"]
        lats.setdefault((b["Lx"], b["Ly"], b["pbc"]), []).append(b["x"])
    for (Lx, Ly, pbc), xs in sorted(lats.items()):
        by = {}
        for x in sorted(xs):
            by.setdefault(sum(x), []).append(x)
        rng = rng_for(rec.seed, "c03", Lx, Ly, pbc)
        N = Lx * Ly
        variants = [(0.0, True), (0.0, False), (1, True), (1, False), (1, [True, False]), (1, [False, True]), (1, [True, True])]
        for m, conf in sorted(by.items()):
            full = abs(m) < N
            for j2, sr in variants if full else variants[2:3]:
                J1 = float(dyadic(rng, ()))
                J2 = float(dyadic(rng, ())) * j2
                sr1, sr2 = (sr, False) if isinstance(sr, bool) else sr
                cfg = {"kind": "spin", "g": {"Lx": Lx, "Ly": Ly, "pbc": pbc}, "J1": num(J1), "J2": num(J2),
                       "sr1": bool(sr1), "sr2": bool(sr2), "tol": "1/1000000000"}
                args = dict(Lx=Lx, Ly=None if Ly == 1 else Ly, J1=J1, J2=J2, sign_rule=sr, pbc=pbc)
                sz = [m / 2, None][int(rng.integers(2))]
                otf = bool(rng.integers(2))

                def go(ev):
                    op = build(ev, **args, total_sz=sz, on_the_fly_en=otf)
                    if op is None:
                        return
                    rows(ev, op, conf if len(conf) < 40 else conf[::3], rng_for("o"), np.float64)
                tag = f"{Lx}x{Ly}{'p' if pbc else 'o'}-m{m}-J2{'on' if j2 else 'off'}-sr{int(sr1)}{int(sr2)}"
                rec.case("rows-" + tag, cfg, go)
            if not full or (len(conf) > 80 and not rec.thorough):
                continue
            # on-the-fly local energies
            hi = nk.hilbert.Spin(0.5, total_sz=m / 2, N=N)
            g = nk.graph.Chain(Lx, pbc=pbc) if Ly == 1 else nk.graph.Grid([Lx, Ly], pbc=pbc)
            kinds = [("qGPS-fast", lambda: qGPS(hi, 2)), ("qGPS-slow", lambda: qGPS(hi, 2, apply_fast_update=False)),
                     ("qGPS-syms", lambda: qGPS(hi, 1, syms=get_sym_transformation_spin(g))),
                     ("Jastrow", lambda: Jastrow(hi))]
            pick = kinds if rec.thorough else [kinds[int(i)] for i in rng.permutation(4)[:2]]
            for k, (name, mk) in enumerate(pick):
                J1, J2 = float(dyadic(rng, ())), float(dyadic(rng, ())) * (k % 2 == 0)
                sr = [True, [True, True], [False, True], False][int(rng.integers(4))]
                if J2 == 0 and not isinstance(sr, bool):
                    sr = True
                if Ly * pbc == 3 or (pbc and Lx % 2):
                    sr = False
                if (Lx // 2) % 2 and pbc and not isinstance(sr, bool):
                    sr = sr[0]
                sr1, sr2 = (sr, False) if isinstance(sr, bool) else sr
                seed = int(rng.integers(1 << 30))
                cfg = {"kind": "spin", "g": {"Lx": Lx, "Ly": Ly, "pbc": pbc}, "J1": num(J1), "J2": num(J2),
                       "sr1": bool(sr1), "sr2": bool(sr2), "tol": "1/10000000000", "psi": []}

                def go(ev):
                    r = rng_for(seed)
                    pick = sorted(r.permutation(len(conf))[:12].tolist())
                    sx = [conf[i] for i in pick] + [conf[pick[0]]] * (len(pick) % 2)
                    op = build(ev, Lx=Lx, Ly=None if Ly == 1 else Ly, J1=J1, J2=J2, sign_rule=sr,
                                               total_sz=m / 2, on_the_fly_en=True, pbc=pbc)
                    if op is None:
                        return
                    for chains, chunk in ((1, None), (2, 1)):
                        vs = state_with(mk(), hi, sx, rng=rng_for(seed, 1), chains=chains, around=1.0, dtype=np.int8 if chains == 2 else None)
                        cfg["psi"] = table(vs, np.array(conf, dtype=float))
                        vs.chunk_size = chunk
                        eloc_events(ev, vs, op, sx, chains, f"local energy, chunk {chunk}, {chains} chains")
                    # other parameters, then another operator of the same kind, on the same state
                    vs.parameters = rand_params(vs.parameters, rng_for(seed, 2), around=1.0)
                    set_samples(vs, sx, chains)
                    ev.append({"op": "parameters", "psi": table(vs, np.array(conf, dtype=float))})
                    eloc_events(ev, vs, op, sx, chains, "local energy after a change of parameters")
                    K1, K2 = (float(v) for v in dyadic(rng_for(seed, 3), (2,)))
                    op2 = build(ev, Lx=Lx, Ly=None if Ly == 1 else Ly, J1=K1, J2=K2 * (J2 != 0), sign_rule=sr, total_sz=m / 2, on_the_fly_en=True, pbc=pbc)
                    ev.append({"op": "operator", "with": {"J1": num(K1), "J2": num(K2 * (J2 != 0))}})
                    eloc_events(ev, vs, op2, sx, chains, "local energy of another operator")
                    st = vs.expect(op2)
                    ev.append({"op": "expectation", "n": len(sx), "mean": cnum(st.mean), "var": num(st.variance)})
                rec.case(f"eloc-{name}-{Lx}x{Ly}{'p' if pbc else 'o'}-m{m}", cfg, go)


if __name__ == "__main__":
    main(run)
