"""C15: weights of stratified states for every normalisation mode, their samples and estimates."""
from c14 import *


def spaces15():
    from GPSKet.hilbert import FermionicDiscreteHilbert as FH
    return {"spin3": nk.hilbert.Spin(0.5, N=3), "spin4": nk.hilbert.Spin(0.5, N=4), "spin0": nk.hilbert.Spin(0.5, N=4, total_sz=0), "fermi": FH(3, n_elec=(2, 1))}


def shifted(inner, off):
    """The same state with log-amplitudes shifted by a constant (only the normalisation changes)."""
    import flax.linen as fnn

    class Shifted(fnn.Module):
        inner: object
        off: float

        @fnn.compact
        def __call__(self, x):
            return self.inner(x) + self.off
    return Shifted(inner, off)


def peaked(inner, at, off):
    """The same state with the amplitudes of some configurations raised."""
    import flax.linen as fnn

    class Peaked(fnn.Module):
        inner: object
        at: tuple
        off: float

        @fnn.compact
        def __call__(self, x):
            return self.inner(x) + self.off * sum((x == jnp.asarray(a)).all(axis=-1) for a in self.at)
    return Peaked(inner, at, off)


def connected(name, allst, det):
    """Single moves of the sampler connect the complement (so that its chains can reach all of it)."""
    rest = [tuple(x) for x in allst.tolist() if x not in det.tolist()]
    seen, todo = {rest[0]}, [rest[0]]
    while todo:
        x = todo.pop()
        for y in rest:
            d = sum(a != b for a, b in zip(x, y))
            if y not in seen and d == (2 if name == "spin0" else 1):
                seen.add(y)
                todo.append(y)
    return len(seen) == len(rest)


def mk_strat(name, hi, det, ns, chains, model, params, **kw):
    from GPSKet.vqs.mc.mc_state import MCStateStratifiedSampling
    sweep = kw.pop("sweep", 2)
    if name == "fermi":
        from GPSKet.sampler import MetropolisHopping
        sa = MetropolisHopping(hi, n_chains=chains, sweep_size=sweep)
    elif name == "spin0":
        sa = nk.sampler.MetropolisExchange(hi, graph=nk.graph.Chain(hi.size), d_max=2, n_chains=chains, dtype=float, sweep_size=sweep)
    else:
        sa = nk.sampler.MetropolisLocal(hi, n_chains=chains, dtype=float, sweep_size=sweep)
    d = jnp.asarray(det, dtype=np.uint8 if name == "fermi" else float)
    vs = MCStateStratifiedSampling(d, hi.n_states, sa, model, n_samples=ns, seed=1, **kw)
    if params is not None:
        vs.parameters = params(vs.parameters)
    return vs


def run(rec):
    from GPSKet.models import qGPS, ARqGPS
    chs = spaces15()
    for name, hi in chs.items():
        to = (lambda s: list(s)) if name == "fermi" else (lambda s: [int((v + 1) // 2) for v in s])
        allst = np.asarray(hi.all_states())
        modes = [("harmonic", dict(rand_norm=False)), ("uniform", dict(rand_norm=True, number_random_samples=600)), ("uniform", dict(rand_norm=True))]
        if name != "fermi":
            modes.append(("normalised", dict(renormalize=False)))
        for mi, (mode, kw) in enumerate(modes):
            for nd, ns, chains, chunk in [(1, 6, 1, None), (3, 8, 2, 1), (2, 12, 4, None)] + ([(4, 20, 5, None), (1, 4, 4, 2), (3, 40, 2, None)] if rec.thorough else []):
                rng = rng_for(rec.seed, "c15", name, mode, mi, nd, ns)
                pick = rng.permutation(len(allst))[:nd]
                det = allst[pick]
                opname = {"spin4": "heis", "spin0": "heis", "fermi": "hub"}.get(name)
                dt = [jnp.complex128, jnp.float64][(nd + mi) % 2]
                cfg = {"det": [to(x) for x in ints(det)], "ns": ns, "mode": mode, "tol": "1/1000000000", "real": dt == jnp.float64}
                if mode == "uniform":
                    cfg["nr"] = kw.get("number_random_samples") or ns

                def go(ev):
                    model = ARqGPS(hi, 2, dtype=dt) if mode == "normalised" else qGPS(hi, 2, dtype=dt)
                    off = (400.0 if nd == 1 else -400.0) if (mi + nd) % 3 == 0 and mode != "normalised" else 0.0
                    eps_of = (lambda t: t["inner"]["epsilon"]) if off else (lambda t: t["epsilon"])
                    if off:
                        model = shifted(model, off)
                    vs = mk_strat(name, hi, det, ns, chains, model, lambda p: rand_params(p, rng, scale=24), sampler_seed=rec.seed + nd, n_discard_per_chain=2, **kw)
                    if mode != "normalised":
                        if opname:
                            cfg["H"] = rows(operators("spin" if name == "spin4" else name, hi)[opname][1], to)
                    vs.chunk_size = chunk
                    for rep in range(3):
                        if rep < 2:
                            vs.reset()
                        else:       # other parameters: nothing of the old weights may remain
                            vs.parameters = rand_params(vs.parameters, rng, scale=24)
                        if rep != 1:
                            lg = 2 * np.asarray(vs.log_value(jnp.asarray(allst))).real
                            p = np.exp(lg) if mode == "normalised" else np.exp(lg - lg.max())
                            ev.append({"op": "params", "p": [[to(x), num(v)] for x, v in zip(ints(allst), p)], **({"eps": cnums(eps_of(vs.parameters))} if mode != "normalised" else {})})
                        xs, w = vs.samples_with_counts
                        ev.append({"op": "strata", "xs": [to(x) for x in ints(np.asarray(xs))], "w": nums(np.asarray(w))})
                        if "H" in cfg:
                            op = operators("spin" if name == "spin4" else name, hi)[opname][0]
                            e = vs.expect(op)
                            ev.append({"op": "expect", "mean": cnum(complex(e.mean)), "var": num(float(np.real(e.variance)))})
                            e, gr = vs.expect_and_grad(op)
                            ev.append({"op": "expect", "mean": cnum(complex(e.mean)), "var": num(float(np.real(e.variance))), "grad": cnums(eps_of(gr))})
                rec.case(f"strata-{name}-{mode}{mi}-{nd}-{ns}-{chains}", cfg, go)
    # long-run distribution over the complement
    for name, hi in chs.items():
        if name == "fermi":
            continue
        to = (lambda s: [int((v + 1) // 2) for v in s])
        allst = np.asarray(hi.all_states())
        for nd, top in ((1, False), (3, False), (1, True), (2, True)):
            rng = rng_for(rec.seed, "c15f", name, nd, top)
            det = allst[rng.permutation(len(allst))[:nd]]
            while not connected(name, allst, det):
                det = allst[rng.permutation(len(allst))[:nd]]
            chains = 300
            cfg = {"det": [to(x) for x in ints(det)], "ns": chains, "mode": "harmonic", "tol": "1/1000000000"}

            def go(ev):
                model, fill = qGPS(hi, 2, dtype=jnp.complex128), lambda p: rand_params(p, rng, scale=40)
                if top:      # the deterministic set holds most of the weight: unrestricted chains would spend their time there
                    model = peaked(model, tuple(map(tuple, det.tolist())), 1.75)
                vs = mk_strat(name, hi, det, chains, chains, model, fill, sampler_seed=rec.seed + 5, n_discard_per_chain=8, sweep=6, rand_norm=False)
                lg = 2 * np.asarray(vs.log_value(jnp.asarray(allst))).real
                cfg["p"] = [[to(x), num(v)] for x, v in zip(ints(allst), np.exp(lg - lg.max()))]
                cnt = {}
                reps = 6 if rec.thorough else 2
                for rep in range(reps):
                    vs.reset()
                    xs, w = vs.samples_with_counts
                    for x in ints(np.asarray(xs)[nd:]):
                        cnt[tuple(to(x))] = cnt.get(tuple(to(x)), 0) + 1
                ev.append({"op": "freq", "n": chains * reps, "counts": [[list(k), v] for k, v in sorted(cnt.items())]})
            rec.case(f"freq-{name}-{nd}{'-top' if top else ''}", cfg, go)
    # the deterministic set and the chains split over two processes
    for k, (name, mode, nd, ns, chains, kw) in enumerate([("spin4", "harmonic", 3, 8, 2, dict(rand_norm=False)), ("spin0", "uniform", 2, 8, 4, dict(rand_norm=True, number_random_samples=400))]):
        cfg = {"ns": ns, "mode": mode, "tol": "1/1000000000", "real": False, "nr": kw.get("number_random_samples", 0)}

        def go(ev):
            if not available():
                return
            rs = mpi_run(2, "c14_mpi.py", {"what": "strata", "space": name, "mode": mode, "nd": nd, "ns": ns, "chains": chains, "kw": kw, "seed": rec.seed})
            for f in ("H", "eps", "det", "p"):
                cfg[f] = rs[0][f]
            ev.append({"op": "strata", "xs": [x for r in rs for x in r["xs"]], "w": [x for r in rs for x in r["w"]]})
            for r in rs:
                ev += r["est"]
        rec.case(f"mpi-{name}-{mode}", cfg, go)


if __name__ == "__main__":
    main(run)
