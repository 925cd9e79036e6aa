"""C16: optimisation histories of the RMSProp-regularised driver and preconditioner."""
from optim import *
import warnings


def direct(A, b):
    return jnp.linalg.solve(A, b)


def run(rec):
    import optax
    from GPSKet.driver import VMC_SRRMSProp
    warnings.simplefilter("ignore")

    class Watched(VMC_SRRMSProp):
        log = None

        def _forward_and_backward(self):
            dp = super()._forward_and_backward()
            vs = self.state
            self.log.append({"op": "step", "xs": to01(vs.samples), "eps": cnums(eps_of(vs.parameters)), "dp": cnums(eps_of(dp)), "mean": cnum(complex(self.energy.mean))})
            return dp

    # (space, kind, dtype, mode, n, chains, chunk, decay, reg, shift, init, solver, splits of the run)
    lin = lambda a, b, n: (lambda t: a + (b - a) * min(t, n) / n)
    C, F = jnp.complex128, jnp.float64
    runs = [
        ("s3", "one", C, "complex", 8, 2, None, 0.5, 1e-3, 0.3, 0.0, direct, [2, 2]),
        ("s3", "one", F, "real", 8, 1, 4, 0.9, 0.25, 0.1, 0.0, direct, [3, 1]),
        ("s3", "cplx", F, "complex", 8, 4, None, 0.75, 0.5, 0.2, 0.0, direct, [3]),
        ("s3", "two", C, "complex", 12, 2, 3, 0.9, 1e-8, "lin", 0.0, direct, [1, 2]),
        ("s4", "two", F, "real", 10, 2, None, 0.5, 2.0, "lin", 0.5, direct, [2, 2]),
        ("s4", "one", C, None, 12, 4, None, 0.875, 1e-2, "exp", 1.5, direct, [3]),
        ("s4", "one", F, None, 16, 2, 2, 0.25, 1.0, "exp", 0.0, direct, [1, 1, 1, 1]),
        ("s3", "one", F, "real", 8, 1, None, 0.5, 1e-3, 0.4, 0.0, "default", [3]),
        ("s3", "cplx", F, None, 16, 1, None, 0.0, 0.1, 0.4, 0.0, direct, [3]),
        ("s4", "one", F, "real", 12, 1, 6, 0.9, 1e-8, 0.05, 0.0, direct, [20 if rec.thorough else 14]),
    ]
    if rec.thorough:
        for k in range(60):
            r = rng_for(rec.seed, "c16t", k)
            sp, kind, dt, mode = [("s3", "one", C, "complex"), ("s3", "two", F, "real"), ("s4", "cplx", F, "complex"), ("s4", "two", C, None)][k % 4]
            runs.append((sp, kind, dt, mode, int(r.choice([4, 8, 16])), int(r.choice([1, 2])), None, float(r.choice([0.0, 0.3, 0.9, 0.99])), float(10.0 ** r.integers(-8, 1)), float(r.random() * 0.9 + 0.05) if k % 3 else "lin", float(r.choice([0.0, 0.0, 0.7])), direct, [int(v) for v in r.integers(1, 4, size=2)]))
    for k, (sp, kind, dt, mode, n, chains, chunk, decay, reg, shift, init, solver, parts) in enumerate(runs):
        total = sum(parts)
        sched = {"lin": lin(0.5, 0.1, 3), "exp": lambda t: 0.4 * 0.5**t}.get(shift)
        val = (lambda t: float(sched(t))) if sched else (lambda t: float(shift))
        m = mode or ("complex" if dt == C or kind == "cplx" else "real")
        cfg = {"mode": m, "cplx": dt == C, "decay": num(decay), "reg": num(reg), "shifts": [num(val(t)) for t in range(total)], "lr": num(0.0625), "init": num(init),
               "tol": "1/1000000000" if solver is direct else "1/10000"}

        def go(ev):
            vs, op = mc(sp, kind, dt, n, chains, chunk, rec.seed + k, rng_for(rec.seed, "c16", k))
            cfg["np"] = int(vs.n_parameters)
            cfg["H"] = dense_rows(op)
            kw = {} if solver == "default" else {"linear_solver_fn": solver}
            dr = Watched(op, nk.optimizer.Sgd(0.0625), diag_shift=sched or shift, decay=decay, eps=reg, initial_scale=init, jacobian_mode=mode, variational_state=vs, **kw)
            dr.log = []
            for i, part in enumerate(parts):
                if i % 2 == 0:
                    dr.run(part, out=(), show_progress=False)
                else:
                    for _ in dr.iter(part):
                        pass
            for j, s in enumerate(dr.log):
                s["after"] = dr.log[j + 1]["eps"] if j + 1 < len(dr.log) else cnums(eps_of(vs.parameters))
                ev.append(s)
        rec.case(f"driver-{sp}-{kind}-{np.dtype(dt).kind}-{m}-{k}", cfg, go)

    # the driver with its samples spread over two processes
    from mpi import mpi_run, available
    for k, (sp, kind, dt, mode, n, chunk) in enumerate([("s3", "one", F, "real", 8, None), ("s3", "two", C, "complex", 12, 3), ("s4", "cplx", F, "complex", 10, None)]):
        cfg = {"mode": mode, "cplx": dt == C, "decay": num(0.5), "reg": num(0.125), "shifts": [num(0.25)] * 3, "lr": num(0.0625), "init": "0", "tol": "1/1000000000"}

        def go(ev):
            if not available():
                return
            rs = mpi_run(2, "c16_mpi.py", dict(cplx=dt == C, mode=mode, sp=sp, kind=kind, n=n, chains=2, chunk=chunk, seed=rec.seed, k=k, lr=0.0625, shift=0.25, decay=0.5, reg=0.125, steps=3), timeout=240)
            cfg.update(np=rs[0]["np"], H=rs[0]["H"])
            for j in range(3):
                xs = [x for r in rs for x in r["log"][j]["xs"]]
                ev.append(dict(rs[0]["log"][j], op="step", xs=xs))
                for f in ("eps", "dp", "after"):        # the same on every process
                    flat = lambda r: [z for a in r["log"][j][f] for b in a for z in b]
                    ev.append({"op": "same", "a": flat(rs[0]), "b": flat(rs[1])})
        rec.case(f"driver-mpi-{sp}-{kind}-{np.dtype(dt).kind}-{mode}", cfg, go)

    # preconditioner: scripted gradient histories of the specification (one behaviour per parameter), interrupted and resumed
    from GPSKet.optimizer.sr_rmsprop import SRRMSProp
    from GPSKet.optimizer.qgt import QGTJacobianDenseRMSProp, QGTOnTheFlyRMSProp
    import flax.serialization as fs
    groups = {}
    for b in rec.inputs:
        b = b["beh"]
        groups.setdefault((b["b"], b["cut"]), []).append(b["hist"])
    for gi, ((dec, cut), hists) in enumerate(sorted(groups.items())):
        hists = sorted(hists)
        rng = rng_for(rec.seed, "c16p", gi)
        hists = [hists[i] for i in rng.permutation(len(hists))]
        variants = [("s3", "one", C, "complex", "dense"), ("s3", "two", F, "real", "dense"), ("s3", "one", F, "real", "fly"), ("s3", "cplx", F, "complex", "dense"), ("s3", "one", C, "complex", "fly")]
        for vi, (sp, kind, dt, mode, impl) in enumerate(variants):
            T = len(hists[0])
            cplx = dt == C
            shifts = [0.25, 0.5, 0.125, 0.75, 1.0, 0.5][:T]
            cfg = {"mode": mode, "cplx": cplx, "decay": dec, "reg": num(0.125), "shifts": [num(v) for v in shifts], "init": "0", "tol": "1/1000000000" if (cplx, impl) != (True, "fly") else "1/1000000"}

            def go(ev):
                vs, op = mc(sp, kind, dt, 8, 2, None, rec.seed + gi, rng_for(rec.seed, "c16q", gi, vi))
                npar = int(vs.n_parameters)
                cfg["np"] = npar
                shape = eps_of(vs.parameters).shape

                def solver(A, b, x0=None):
                    if cplx and impl == "fly":       # has no dense form
                        return jax.scipy.sparse.linalg.cg(A, b, tol=1e-11, maxiter=1000)
                    from jax.flatten_util import ravel_pytree
                    M = A.to_dense()
                    bb, un = ravel_pytree(b)
                    return un(jnp.linalg.solve(M, bb)), None
                qgt = QGTJacobianDenseRMSProp(mode=mode) if impl == "dense" else QGTOnTheFlyRMSProp
                make = lambda: SRRMSProp(vs.parameters, qgt, solver, diag_shift=lambda t: jnp.asarray(shifts)[t], decay=float(Fraction(dec)), eps=0.125)
                pre = make()
                for t in range(T):
                    vals = [float(Fraction(hists[(p + vi * npar) % len(hists)][t])) for p in range(2 * npar if cplx else npar)]
                    g = np.array(vals[:npar], dtype=complex).reshape(shape) + (1j * np.array(vals[npar:]).reshape(shape) if cplx else 0)
                    if not cplx:
                        g = g.real
                    if t == cut and t > 0:
                        saved = fs.msgpack_restore(fs.msgpack_serialize(fs.to_state_dict(pre)))
                        new = make()
                        known = fs.to_state_dict(new)
                        pre = fs.from_state_dict(new, {a: v for a, v in saved.items() if a in known})
                    x = pre(vs, tree_of(g, vs.parameters), t)
                    ev.append({"op": "pre", "xs": to01(vs.samples), "eps": cnums(eps_of(vs.parameters)), "g": cnums(g), "x": cnums(eps_of(x))})
            rec.case(f"pre-{dec}-{cut}-{kind}-{np.dtype(dt).kind}-{impl}".replace("/", ":"), cfg, go)


if __name__ == "__main__":
    main(run)
