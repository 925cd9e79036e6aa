"""C22: state fitting histories: losses and parameter changes of every step, for data sets of the specification."""
from models import *
from c11 import G, ops
import c09, mpi

jax, jnp, nk = jx()


def pars_of(p):
    out = {"eps": cnums(p["epsilon"])}
    if "_qgps" in p:
        out["phase"] = cnums(p["_qgps"]["epsilon"])
    return out


def build(kind, L, sector, M=1, sym="none"):
    from GPSKet.models import ARqGPS, ARqGPSFull, ARqGPSModPhase
    hi = nk.hilbert.Spin(0.5, N=L, total_sz=0 if sector == "sz0" else None)
    f, inv = c09.sym_fun(ops(L, sym))
    s1 = {} if sym == "none" else dict(apply_symmetries=f)
    s2 = {} if sym == "none" else dict(apply_symmetries=(f, inv))
    m = {"ar": lambda: ARqGPS(hi, M, dtype=jnp.complex128, **s1), "arreal": lambda: ARqGPS(hi, M, dtype=jnp.float64, **s1),
         "arfull": lambda: ARqGPSFull(hi, M, dtype=jnp.complex128, **s2), "modphase": lambda: ARqGPSModPhase(hi, M, dtype=jnp.float64, **s1)}[kind]()
    return hi, m


def driver(hi, m, params, xs, ys, lr, batch, seed, chunk=None):
    from GPSKet.driver import ARStateFitting
    from GPSKet.sampler import ARDirectSampler
    vs = nk.vqs.MCState(ARDirectSampler(hi), m, n_samples=4, seed=1)
    vs.parameters = params
    g = nk.graph.Chain(hi.size)
    return ARStateFitting((xs, ys), nk.operator.Heisenberg(hi, g), nk.optimizer.Sgd(lr), variational_state=vs, mini_batch_size=batch, seed=seed)


def steps(dr, n, how):
    """n steps: (parameters before, loss, parameters after)."""
    out = []
    for t in range(n):
        p = pars_of(dr.state.parameters)
        if how == "advance":
            dr.advance(1)
        elif how == "iter":
            for _ in dr.iter(1):
                pass
        else:
            dr.run(1, out=(), show_progress=False)
        out.append((p, num(float(dr.loss)), pars_of(dr.state.parameters)))
    return out


def draws(dr, n):
    """The sequence of losses of n steps (at fixed parameters)."""
    vals, seq = {}, []
    for _ in range(n):
        dr.advance(1)
        seq.append(vals.setdefault(num(float(dr.loss)), len(vals) + 1))
    return {"op": "draws", "p": pars_of(dr.state.parameters), "losses": list(vals), "seq": seq}


def dataset(rng, hi, w, cplx=True):
    allx = np.asarray(hi.all_states())
    idx = rng.permutation(len(allx))[: len(w)]
    ph = np.exp(2j * np.pi * rng.random(len(w))) if cplx else rng.choice([-1.0, 1.0], len(w))
    y = np.sqrt(np.asarray(w, dtype=float) / sum(w)) * ph
    return allx[idx], y


def run(rec):
    import warnings
    warnings.simplefilter("ignore")
    beh = [b["beh"] for b in rec.inputs]
    beh = sorted(({"w": [int(v) for v in b["w"]], "m": b["m"]} for b in beh), key=lambda b: (len(b["w"]), b["m"], b["w"]))
    kinds = [("ar", 3, "none", "none"), ("arreal", 4, "sz0", "none"), ("modphase", 3, "none", "none"), ("arfull", 3, "none", "none"), ("ar", 4, "sz0", "flip"), ("ar", 3, "none", "shift"), ("modphase", 4, "sz0", "none")]
    pick = rng_for(rec.seed, "c22").permutation(len(beh))
    n = len(beh) if rec.thorough else 42
    for k in range(n):
        b = beh[int(pick[k % len(beh)])]
        kind, L, sector, sym = kinds[k % len(kinds)]
        rng = rng_for(rec.seed, "c22", k)
        cfg = {"tol": "1/1000000000", "gtol": "1/1000000", "D": 2, "sector": sector, "model": "arfull" if kind == "arfull" else "ar", "G": G(ops(L, sym)), "m": b["m"], "lr": num(0.125), "cplx": kind in ("ar", "arfull")}

        def go(ev):
            hi, m = build(kind, L, sector, 1 + k % 2, sym)
            x0 = np.asarray(hi.all_states())[:1]
            params = rand_params(m.init(jax.random.PRNGKey(0), x0)["params"], rng)
            cfg.update(pars_of(params))
            xs, ys = dataset(rng, hi, b["w"], cplx=k % 5 != 0)
            cfg["xs"] = [[(v + 1) // 2 for v in x] for x in ints(xs)]
            cfg["ys"] = cnums(ys)
            cfg["w"] = nums(np.abs(ys) ** 2)
            dr = driver(hi, m, params, xs, ys, 0.125, b["m"], rec.seed + k)
            for how in ("advance", "run", "iter", "advance"):
                for p, loss, q in steps(dr, 1, how):
                    ev.append({"op": "fit", "p": p, "loss": loss, "q": q})
            # the order of the draws, at fixed parameters
            if k % 3 == 0 or rec.thorough:
                dr = driver(hi, m, params, xs, ys, 0.0, b["m"], rec.seed + 7 * k)
                ev.append(draws(dr, 2000))
        rec.case(f"{kind}-{sector}-{sym}-{k}", cfg, go)

    # data sets whose target amplitudes are of very different size
    for k, (w, mb) in enumerate([([1, 9], 1), ([1, 4, 16, 64], 1), ([64, 1, 8, 27], 2), ([1, 1, 25, 0, 4], 2), ([3, 48, 12], 2)]):
        rng = rng_for(rec.seed, "c22w", k)
        kind, L, sector = [("ar", 3, "none"), ("modphase", 4, "sz0"), ("arreal", 3, "none")][k % 3]
        cfg = {"tol": "1/1000000000", "gtol": "1/1000000", "D": 2, "sector": sector, "model": "ar", "G": G(ops(L, "none")), "m": mb, "lr": num(0.0), "cplx": kind == "ar"}

        def go(ev):
            hi, m = build(kind, L, sector, 1)
            params = rand_params(m.init(jax.random.PRNGKey(0), np.asarray(hi.all_states())[:1])["params"], rng)
            cfg.update(pars_of(params))
            xs, ys = dataset(rng, hi, w)
            cfg["xs"] = [[(v + 1) // 2 for v in x] for x in ints(xs)]
            cfg["ys"] = cnums(ys)
            cfg["w"] = [str(v) for v in w]
            ev.append(draws(driver(hi, m, params, xs, ys, 0.0, mb, rec.seed + 31 * k), 2000))
        rec.case(f"weights-{k}", cfg, go)

    # several processes
    for k, (R, N, mb, kind) in enumerate([(2, 5, 1, "ar"), (2, 6, 2, "modphase"), (2, 7, 3, "ar"), (3, 7, 2, "ar")] if mpi.available() else []):
        rng = rng_for(rec.seed, "c22m", k)
        L, sector = 3, "none"
        w = rng.integers(1, 5, size=N).tolist()
        cfg = {"tol": "1/1000000000", "gtol": "1/1000000", "D": 2, "sector": sector, "model": "ar", "G": G(ops(L, "none")), "m": mb * R, "lr": num(0.125), "cplx": kind == "ar", "w": [str(v) for v in w]}

        def go(ev):
            hi, m = build(kind, L, sector, 1)
            params = rand_params(m.init(jax.random.PRNGKey(0), np.asarray(hi.all_states())[:1])["params"], rng)
            cfg.update(pars_of(params))
            xs, ys = dataset(rng, hi, w)
            cfg["xs"] = [[(v + 1) // 2 for v in x] for x in ints(xs)]
            cfg["ys"] = cnums(ys)
            flat, _ = jax.flatten_util.ravel_pytree(params)
            out = mpi.mpi_run(R, "c22_mpi.py", {"kind": kind, "L": L, "sector": sector, "xs": xs.tolist(), "re": ys.real.tolist(), "im": ys.imag.tolist(), "mb": mb, "seed": rec.seed + k,
                                                "pre": np.real(flat).tolist(), "pim": np.imag(flat).tolist(), "lr": 0.125, "steps": 4})
            for t in range(4):
                p, loss, q = out[0][t]
                ev.append({"op": "fit", "p": p, "loss": loss, "q": q, "others": [{"loss": o[t][1], "q": o[t][2]} for o in out[1:]]})
        rec.case(f"mpi-{R}-{N}-{mb}-{kind}", cfg, go)


if __name__ == "__main__":
    main(run)
