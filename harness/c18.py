"""C18: geometric-tensor objects of every implementation, state type, mode and chunk size."""
from optim import *
import warnings
from mpi import available, mpi_run


def state(skind, sp, kind, dt, n, chains, chunk, seed, rng):
    if skind == "full":
        hi, op, _ = space(sp)
        vs = nk.vqs.FullSumState(hi, model(kind, hi, dt), seed=1)
        vs.parameters = rand_params(vs.parameters, rng, scale=24)
        if chunk:
            vs.chunk_size = chunk
        return vs, op
    if skind == "uniq":
        from GPSKet.vqs import MCStateUniqueSamples
        return mc(sp, kind, dt, n, chains, chunk, seed, rng, cls=MCStateUniqueSamples, batch_size=2 * n, max_sampling_steps=2)
    return mc(sp, kind, dt, n, chains, chunk, seed, rng)


def weights(skind, vs):
    if skind == "full":
        return np.asarray(vs._all_states), np.asarray(vs.probability_distribution())
    if skind == "uniq":
        xs, w = vs.samples_with_counts
        return np.asarray(xs), np.asarray(w)
    return np.asarray(vs.samples), None


def qgt(impl, vs, mode, shift, reg, ema):
    from GPSKet.optimizer.qgt import QGTJacobianDenseRMSProp, QGTOnTheFlyRMSProp, QGTJacobianDenseUniqueSamples
    if impl == "rms":
        return QGTJacobianDenseRMSProp(vs, ema, mode=mode, diag_shift=shift, eps=reg)
    if impl == "rmsp":     # partially applied
        return QGTJacobianDenseRMSProp(mode=mode, diag_shift=shift, eps=reg)(vs, ema)
    if impl == "fly":
        return QGTOnTheFlyRMSProp(vs, ema, diag_shift=shift, eps=reg, holomorphic=True if mode == "holomorphic" else None)
    if impl == "uniq":
        return QGTJacobianDenseUniqueSamples(vs, mode=mode, diag_shift=shift)
    if impl == "uniqp":
        return QGTJacobianDenseUniqueSamples(mode=mode)(vs, diag_shift=shift)
    if impl == "uniqs":    # the shift is part of the partial application
        return QGTJacobianDenseUniqueSamples(mode=mode, diag_shift=shift)(vs)


def joined(M, params):
    """Reorder a dense matrix from the leaf-by-leaf order of the parameters to that of the joined array."""
    M = np.asarray(M)
    shp = eps_of(params).shape
    n = int(np.prod(shp))
    like = jax.tree_util.tree_map(lambda p: jnp.zeros(p.shape), params)
    perm = np.concatenate([np.asarray(l).reshape(-1) for l in jax.tree_util.tree_leaves(tree_of(np.arange(n, dtype=float).reshape(shp), like))]).astype(int)
    if M.shape[0] == 2 * n:
        perm = np.concatenate([perm, n + perm])
    out = np.empty_like(M)
    out[np.ix_(perm, perm)] = M
    return out


def solver(A, b, x0=None):
    from jax.flatten_util import ravel_pytree
    M = A.to_dense()
    bb, un = ravel_pytree(b)
    return un(jnp.linalg.solve(M, bb)), None


def record(ev, vs, skind, impl, mode, shift, reg, rng, dt, chunk, how):
    xs, w = weights(skind, vs)
    eps = eps_of(vs.parameters)
    cplx = dt == jnp.complex128
    ema = np.abs(dyadic(rng, eps.shape)) ** 2
    if cplx and mode != "holomorphic":
        ema = ema + 1j * np.abs(dyadic(rng, eps.shape)) ** 2
    ema_t = tree_of(ema, vs.parameters)
    if mode == "holomorphic":
        ema_t = jax.tree_util.tree_map(jnp.real, ema_t)
    base = {"op": "qgt", "xs": to01(xs), "eps": cnums(eps), "kind": "plain" if impl.startswith("uniq") else "rms", "mode": mode, "cplx": cplx, "shift": num(shift), "reg": num(reg), "ema": cnums(ema)}
    if w is not None:
        base["w"] = nums(w)
    S = qgt(impl, vs, mode, shift, reg, ema_t)
    rv = lambda: dyadic(rng, eps.shape) + (1j * dyadic(rng, eps.shape) if cplx else 0)
    if "dense" in how:
        ev.append(dict(base, M=cnums(joined(S.to_dense(), vs.parameters))))
    if "mv" in how:
        v = rv()
        ev.append(dict(base, v=cnums(v), y=cnums(eps_of(S @ tree_of(v, vs.parameters)))))
    if "solve" in how:
        b = rv()
        x, _ = S.solve(solver, tree_of(b, vs.parameters))
        ev.append(dict(base, b=cnums(b), x=cnums(eps_of(x)), stol="1/1000000"))
    if "cg" in how:
        b = rv()
        x, _ = S.solve(jax.scipy.sparse.linalg.cg, tree_of(b, vs.parameters))
        ev.append(dict(base, b=cnums(b), x=cnums(eps_of(x)), stol="1/1000"))


def run(rec):
    warnings.simplefilter("ignore")
    C, F = jnp.complex128, jnp.float64
    all_ = ["dense", "mv", "solve"]
    # state, space, kind, dtype, mode, implementation, n, chains, chunk, shift, observations
    runs = [("mc", "s3", "one", F, "real", "rms", 8, 2, None, 0.25, all_ + ["cg"]), ("mc", "s3", "one", C, "complex", "rms", 8, 4, 2, 0.5, all_), ("mc", "s3", "two", C, "complex", "rmsp", 6, 1, None, 0.125, all_),
            ("mc", "s3", "cplx", F, "complex", "rms", 8, 2, 4, 0.25, all_), ("full", "s3", "one", F, "real", "rms", 0, 0, None, 0.25, all_), ("full", "s3", "two", F, "real", "rmsp", 0, 0, 4, 0.5, all_),
            ("full", "s3", "one", C, "complex", "rms", 0, 0, None, 0.25, all_), ("uniq", "s3", "one", F, "real", "rms", 6, 2, None, 0.25, all_), ("uniq", "s3", "one", C, "complex", "rmsp", 6, 2, 3, 0.25, all_),
            ("mc", "s3", "one", F, "real", "fly", 8, 2, None, 0.25, all_), ("mc", "s4", "two", F, "real", "fly", 12, 3, None, 0.5, ["dense", "mv"]), ("mc", "s3", "one", C, "holomorphic", "fly", 8, 2, None, 0.25, ["dense", "mv"]),
            ("uniq", "s3", "one", F, "real", "uniq", 6, 1, None, 0.25, all_), ("uniq", "s3", "two", C, "complex", "uniq", 6, 2, 2, 0.5, all_), ("uniq", "s3", "one", C, "holomorphic", "uniq", 6, 2, 3, 0.5, all_),
            ("uniq", "s4", "two", C, "holomorphic", "uniqp", 4, 1, None, 0.25, all_), ("uniq", "s4", "one", F, "real", "uniqp", 4, 2, 2, 1.0, all_), ("uniq", "s3", "cplx", F, "complex", "uniq", 8, 1, 4, 0.25, all_),
            ("mc", "s4", "one", F, "real", "rms", 12, 3, 3, 0.0, ["dense", "mv"]), ("mc", "s3", "one", F, "real", "rms", 1, 1, None, 0.5, all_), ("uniq", "s3", "one", C, "complex", "uniq", 1, 1, None, 0.5, all_),
            ("full", "s4", "one", C, "complex", "rms", 0, 0, None, 1.0, ["mv", "solve"]), ("mc", "s3", "one", C, "complex", "fly", 8, 2, None, 0.25, ["mv", "cg"]), ("mc", "s3", "two", C, "complex", "fly", 6, 1, None, 0.5, ["mv"]),
            ("uniq", "s3", "one", F, "real", "uniqs", 6, 2, None, 0.5, all_)]
    if rec.thorough:
        for k in range(90):
            r = rng_for(rec.seed, "c18t", k)
            base = runs[k % 24]
            n = int(r.choice([4, 6, 8, 12]))
            div = [d for d in (1, 2, 3, 4, 6) if n % d == 0]
            runs.append((base[0], ["s3", "s4"][int(r.integers(2))], *base[2:6], n, int(r.choice(div)), int(r.choice(div)) if base[0] != "full" and base[5] != "fly" else None, float(r.random()), base[10]))
    for k, (skind, sp, kind, dt, mode, impl, n, chains, chunk, shift, how) in enumerate(runs):
        cfg = {"tol": "1/1000000000", "cplx": dt == C, "mode": mode}

        def go(ev):
            rng = rng_for(rec.seed, "c18", k)
            vs, op = state(skind, sp, kind, dt, n, chains, chunk, rec.seed + k, rng)
            cfg["np"] = int(vs.n_parameters)
            record(ev, vs, skind, impl, mode, shift, 0.0625, rng, dt, chunk, how)
        rec.case(f"qgt-{skind}-{sp}-{kind}-{np.dtype(dt).kind}-{mode}-{impl}-{chunk}-{k}", cfg, go)
    # default mode and default shift; the dense preconditioner
    for k, (kind, dt, mode) in enumerate([("one", F, "real"), ("two", C, "holomorphic"), ("one", C, "complex"), ("one", F, None)]):
        cfg = {"tol": "1/1000000000", "cplx": dt == C, "mode": mode or "real"}

        def go(ev):
            from GPSKet.optimizer import SRDense
            from GPSKet.optimizer.qgt import QGTJacobianDenseUniqueSamples
            rng = rng_for(rec.seed, "c18d", k)
            vs, op = state("uniq", "s3", kind, dt, 6, 2, 2, rec.seed + k, rng)
            cfg["np"] = int(vs.n_parameters)
            xs, w = weights("uniq", vs)
            eps = eps_of(vs.parameters)
            S = QGTJacobianDenseUniqueSamples(vs, mode=mode) if mode else QGTJacobianDenseUniqueSamples(vs)
            base = {"op": "qgt", "xs": to01(xs), "w": nums(w), "eps": cnums(eps), "kind": "plain", "mode": mode or "real", "cplx": dt == C, "shift": "0", "reg": "0"}
            ev.append(dict(base, M=cnums(joined(S.to_dense(), vs.parameters))))
            _, gr = vs.expect_and_grad(op)      # lies in the range of the matrix
            sr = SRDense(QGTJacobianDenseUniqueSamples(mode=mode) if mode else QGTJacobianDenseUniqueSamples())
            x = sr(vs, gr)
            ev.append(dict(base, b=cnums(eps_of(gr)), x=cnums(eps_of(x)), stol="1/10000"))
        rec.case(f"srdense-{kind}-{np.dtype(dt).kind}-{mode}", cfg, go)
    for k, (dt, mode, impl, skind) in enumerate([(F, "real", "rms", "mc"), (C, "complex", "rms", "uniq"), (F, "real", "fly", "mc"), (C, "holomorphic", "uniq", "uniq")]):
        if not rec.thorough and k in (0, 3):
            continue
        cfg = {"tol": "1/1000000000", "cplx": dt == C, "mode": mode}

        def go(ev):
            if not available():
                return
            rs = mpi_run(2, "c18_mpi.py", {"cplx": dt == C, "mode": mode, "impl": impl, "skind": skind, "seed": rec.seed, "k": k})
            cfg["np"] = rs[0]["np"]
            for j in range(len(rs[0]["ev"])):
                for r in rs:
                    e = r["ev"][j]
                    e["xs"] = [x for q in rs for x in q["xs"]]
                    if "w" in e:
                        e["w"] = [x for q in rs for x in q["w"]]
                    ev.append(e)
        rec.case(f"mpi-{np.dtype(dt).kind}-{mode}-{impl}-{skind}", cfg, go)


if __name__ == "__main__":
    main(run)
