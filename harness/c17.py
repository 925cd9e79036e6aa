"""C17: updates of the minimal-norm driver for many sample sets, weights, chunkings and derivative modes."""
from optim import *
import warnings
from mpi import available, mpi_run


def observe(vs, op, mode, chunk_note=None, solver=None):
    from GPSKet.driver import minSRVMC
    kw = {"mode": mode} if mode else {}
    if solver:
        kw["solver"] = solver
    dr = minSRVMC(op, nk.optimizer.Sgd(0.0625), variational_state=vs, **kw)
    dp = dr._forward_and_backward()
    st = dr.energy
    uniq = hasattr(vs, "samples_with_counts")
    xs, w = vs.samples_with_counts if uniq else (vs.samples, None)
    return dr, eps_of(dp), np.asarray(xs).reshape(-1, np.asarray(xs).shape[-1]), w, st


def certificate(vs_apply, params, xs, w, dp):
    """z with O^H z = dp if there is one (checked by the specification)."""
    n = len(xs)
    w = np.full(n, 1 / n) if w is None else np.asarray(w)
    flat = eps_of(params)
    idx = ((np.asarray(xs) + 1) // 2).astype(int)
    O = np.zeros((n,) + flat.shape, dtype=complex)
    for k in range(n):
        v = np.array([flat[idx[k, i], :, i] for i in range(idx.shape[1])])   # site, m
        for i in range(idx.shape[1]):
            O[k, idx[k, i], :, i] = np.prod(np.delete(v, i, axis=0), axis=0)
    O = O.reshape(n, -1)
    Oc = O - w @ O
    return np.linalg.lstsq(Oc.conj().T, dp.reshape(-1).astype(complex), rcond=1e-10)[0]


def event(vs, dp, xs, w, st):
    z = certificate(None, vs.parameters, xs, w, dp)
    e = {"op": "minsr", "xs": to01(xs), "eps": cnums(eps_of(vs.parameters)), "dp": cnums(dp), "z": cnums(z), "mean": cnum(complex(st.mean)), "var": num(float(np.real(st.variance)))}
    if w is not None:
        e["w"] = nums(np.asarray(w))
    return e


def unique(batch, steps):
    from GPSKet.vqs import MCStateUniqueSamples
    return lambda *a, **k: MCStateUniqueSamples(*a, batch_size=batch, max_sampling_steps=steps, **k)


def run(rec):
    warnings.simplefilter("ignore")
    C, F = jnp.complex128, jnp.float64
    # space, kind, dtype, mode, n, chains, chunk, unique (batch, steps)
    runs = [("s3", "one", C, "holomorphic", 8, 1, None, None), ("s3", "one", C, "holomorphic", 8, 4, 2, None), ("s3", "two", C, "complex", 8, 2, 4, None),
            ("s4", "one", C, "complex", 12, 3, 3, None), ("s4", "two", C, "holomorphic", 6, 2, 1, None), ("s3", "one", F, "real", 8, 2, 2, None), ("s4", "two", F, "real", 12, 4, 12, None),
            ("s4", "one", F, None, 10, 5, 5, None), ("s3", "two", C, None, 8, 2, 2, None), ("s3", "one", C, "holomorphic", 6, 2, 3, (12, 2)), ("s3", "two", F, "real", 6, 1, 2, (10, 3)),
            ("s4", "one", C, "complex", 4, 2, 2, (8, 2)), ("s3", "one", F, "real", 4, 4, 1, (16, 1)), ("s3", "one", C, "complex", 8, 1, 4, (12, 2)), ("s4", "one", C, "holomorphic", 3, 1, None, (2, None))]
    if rec.thorough:
        for k in range(80):
            r = rng_for(rec.seed, "c17t", k)
            n = int(r.choice([4, 6, 8, 12]))
            div = [d for d in (1, 2, 3, 4, 6) if n % d == 0]
            runs.append((["s3", "s4"][k % 2], ["one", "two"][int(r.integers(2))], *[(C, "holomorphic"), (C, "complex"), (F, "real")][k % 3], n, int(r.choice(div)), int(r.choice(div)), (12, int(r.integers(1, 4))) if k % 2 else None))
    for k, (sp, kind, dt, mode, n, chains, chunk, uq) in enumerate(runs):
        m = mode or ("complex" if dt == C else "real")
        cfg = {"mode": m, "cplx": dt == C, "tol": "1/100000000"}

        def go(ev):
            kw = {}
            cls = None
            if uq:
                from GPSKet.vqs import MCStateUniqueSamples
                cls = MCStateUniqueSamples
                kw = dict(batch_size=uq[0] * chains, max_sampling_steps=uq[1])
            vs, op = mc(sp, kind, dt, n, chains, chunk, rec.seed + k, rng_for(rec.seed, "c17", k), cls=cls, **kw)
            cfg["np"] = int(vs.n_parameters)
            cfg["H"] = dense_rows(op)
            for rep in range(2):
                dr, dp, xs, w, st = observe(vs, op, mode)
                ev.append(event(vs, dp, xs, w, st))
                if rep == 0:
                    dr.update_parameters(dr._dp)
        rec.case(f"minsr-{sp}-{kind}-{np.dtype(dt).kind}-{m}-{n}-{chains}-{chunk}-{k}", cfg, go)
    # several processes
    for k, (dt, mode, n, chains, chunk, uq) in enumerate([(C, "holomorphic", 8, 4, 2, None), (F, "real", 12, 2, 3, None), (C, "complex", 6, 2, 3, 1)]):
        if k and not rec.thorough and k != 2:
            continue
        cfg = {"mode": mode, "cplx": dt == C, "tol": "1/100000000"}

        def go(ev):
            if not available():
                return
            hi, op, _ = space("s3")
            cfg["H"] = dense_rows(op)
            rs = mpi_run(2, "c17_mpi.py", {"cplx": dt == C, "mode": mode, "n": n, "chains": chains, "chunk": chunk, "uq": uq, "seed": rec.seed, "k": k})
            cfg["np"] = rs[0]["np"]
            xs = np.concatenate([np.array(r["xs"]) for r in rs])
            w = np.concatenate([np.array(r["w"]) for r in rs]) if rs[0]["w"] is not None else None
            params = {"epsilon": np.array(rs[0]["re"]) + 1j * np.array(rs[0]["im"])}
            for r in rs:
                dp = np.array(r["dre"]) + 1j * np.array(r["dim"])
                z = certificate(None, params, xs, w, dp)
                e = {"op": "minsr", "xs": to01(xs), "eps": cnums(params["epsilon"]), "dp": cnums(dp), "z": cnums(z), "mean": cnum(complex(*r["mean"])), "var": num(r["var"])}
                if w is not None:
                    e["w"] = nums(w)
                ev.append(e)
        rec.case(f"mpi-{np.dtype(dt).kind}-{mode}-{n}-{chunk}", cfg, go)


if __name__ == "__main__":
    main(run)
