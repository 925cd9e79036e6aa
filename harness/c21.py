"""C21: histories of propagated states (derived from each other, parameters replaced), replayed into the code."""
from models import *
from c14 import spaces, operators, rows

jax, jnp, nk = jx()
TAUS = [1 / 8, 1.75, -3 / 8]


def extra(name, hi):
    """More operators: (operator, operator whose dense matrix defines it)."""
    out = dict(operators(name, hi))
    if name == "fermi":
        from GPSKet.operator.hamiltonian import ab_initio as ai
        from c01 import sym_integrals
        h, e = sym_integrals(rng_for("c21"), 3)
        h, e = h / 8, e / 8
        out["abfly"] = (ai.AbInitioHamiltonianOnTheFly(hi, h, e), ai.AbInitioHamiltonian(hi, h, e))
    elif name == "spin":
        y = nk.operator.spin.sigmay(hi, 0) * nk.operator.spin.sigmax(hi, 2) * 0.5 + nk.operator.Ising(hi, nk.graph.Chain(4, pbc=False), h=0.5) * 0.25
        out["complex"] = (y, y)
        g = nk.graph.Chain(4)
        out["jax"] = (nk.operator.IsingJax(hi, g, h=0.75, J=0.5), nk.operator.Ising(hi, g, h=0.75, J=0.5))
        nh = nk.operator.spin.sigmap(hi, 1) * 1.5 + nk.operator.spin.sigmaz(hi, 2) * 0.75 + nk.operator.spin.sigmam(hi, 0) * 0.5
        out["lowering"] = (nh, nh)
    return out


def run(rec):
    from GPSKet.models import qGPS
    from GPSKet.supervised.imag_time_step import get_imag_time_step_vstate, ImagTimeStep
    from GPSKet.sampler import MetropolisHopping
    hists = sorted(json.dumps(b["beh"]) for b in rec.inputs)
    deep = [h for h in hists if h.count('"derive"') >= 2]
    C, F = jnp.complex128, jnp.float64
    combos = []
    for sp, names in (("spin", ["ising", "heis", "complex", "lowering", "jax"]), ("spin0", ["heis", "fly"]), ("fermi", ["hub", "hubfly", "abfly"])):
        for nm in names:
            for dt in (C, F):
                for chunk in (None, 4):
                    if nm == "jax" and chunk:
                        continue
                    for fast in (True, False):
                        combos.append((sp, nm, dt, chunk, fast))
    fly = [c for c in combos if c[1] in ("jax", "fly", "hubfly", "abfly")]
    combos = [c for i, c in enumerate(combos) if c in fly and c[1] not in ("hubfly", "abfly") or i % 4 == (i // 4) % 4 or c[1] == "hubfly" and i % 2]
    n = 240 if rec.thorough else 48
    for k in range(n):
        sp, nm, dt, chunk, fast = combos[k % len(combos)] if k < len(combos) else combos[int(rng_for(rec.seed, "c21k", k).integers(len(combos)))]
        pool = deep if k % 3 else hists
        h = json.loads(pool[int(rng_for(rec.seed, "c21h", k).integers(len(pool)))])
        rng = rng_for(rec.seed, "c21", k)
        cfg = {"tol": "1/100000000"}

        def go(ev):
            hi = spaces()[sp]
            op, ref = extra(sp, hi)[nm]
            hi = op.hilbert
            fermi = sp == "fermi"
            to = (lambda x: x) if fermi else (lambda x: [(v + 1) // 2 for v in x])
            cfg["rows"] = rows(ref, to)
            sa = MetropolisHopping(hi, n_chains=4) if fermi else nk.sampler.MetropolisLocal(hi, n_chains=4) if sp == "spin" else nk.sampler.MetropolisExchange(hi, graph=nk.graph.Chain(4), n_chains=4)
            vs = nk.vqs.MCState(sa, qGPS(hi, 2, dtype=dt, apply_fast_update=fast), n_samples=8, seed=1, sampler_seed=rec.seed + k)
            vs.chunk_size = chunk
            pars = [rand_params(vs.parameters, rng, scale=24) for _ in range(2)]
            cfg["pars"] = [cnums(p["epsilon"]) for p in pars]
            vs.parameters = pars[0]
            sts = [vs]
            onfly = nm in ("jax", "fly", "hubfly", "abfly")
            allx = np.asarray(hi.all_states())
            dtx = np.uint8 if fermi else float

            def some(m):
                return allx[rng.integers(0, len(allx), m)].astype(dtx)

            depth = [0]
            # compilation grows exponentially with the nesting for the fermionic operators
            limit = 3 if not fermi else 2 if nm != "abfly" or rec.thorough else 1

            def query(j, how):
                st = sts[j]
                if depth[j] + (how in ("step", "eloc")) > limit:
                    return
                if how == "value":
                    xs = some(8)
                    ev.append({"op": "amps", "of": j + 1, "how": how, "xs": [to(x) for x in ints(xs)], "vals": cnums(np.exp(np.asarray(st.log_value(xs), dtype=complex)))})
                elif how == "one":
                    xs = some(1)
                    if chunk is None:
                        ev.append({"op": "amps", "of": j + 1, "how": how, "xs": [to(x) for x in ints(xs)], "vals": cnums(np.exp(np.asarray(st.log_value(xs), dtype=complex)))})
                elif how == "samples":
                    xs = np.asarray(st.samples).reshape(-1, hi.size)
                    ev.append({"op": "amps", "of": j + 1, "how": how, "xs": [to(x) for x in ints(xs)], "vals": cnums(np.exp(np.asarray(st.log_value(xs), dtype=complex)))})
                elif how == "step":
                    xs, t = some(8), TAUS[int(rng.integers(3))]
                    held = ints(st.samples) if depth[j] == 0 else None
                    a = ImagTimeStep(st, op).log_imag_time_step(t, jnp.asarray(xs).reshape((2, 4, -1) if rng.integers(2) else (8, -1)))
                    if held is not None:
                        ev.append({"op": "kept", "how": "a step was evaluated", "before": held, "after": ints(st.samples)})
                    ev.append({"op": "step", "of": j + 1, "tau": num(t), "how": how, "xs": [to(x) for x in ints(xs)], "vals": cnums(np.exp(np.asarray(a, dtype=complex)).reshape(-1))})
                elif how == "eloc":
                    set_samples(st, some(8), 4)
                    xs = np.asarray(st.samples).reshape(-1, hi.size)
                    e = np.asarray(st.local_estimators(op)).reshape(-1)
                    ev.append({"op": "eloc", "of": j + 1, "xs": [to(x) for x in ints(xs)], "vals": cnums(e)})
            query(0, "value")
            for a in h:
                j = min(a["of"], len(sts)) - 1
                if a["act"] == "derive" and not onfly:      # propagated states need an operator that is evaluated on the fly
                    query(0, "step")
                elif a["act"] == "derive" and depth[j] == limit:
                    query(j, "value")
                elif a["act"] == "derive":
                    depth.append(depth[j] + 1)
                    t = TAUS[a["t"] - 1]
                    held = ints(sts[j].samples) if depth[j] == 0 else None
                    sts.append(get_imag_time_step_vstate(t, op, sts[j]))
                    ev.append({"op": "derive", "of": j + 1, "tau": num(t)})
                    if held is not None:
                        ev.append({"op": "kept", "how": "another state was derived", "before": held, "after": ints(sts[j].samples)})
                    query(len(sts) - 1, "value")
                    query(j, "value")
                else:
                    sts[j].parameters = pars[a["t"] - 1]
                    ev.append({"op": "set", "of": j + 1, "par": a["t"]})
                    query(j, "value")
            for j in range(len(sts)):
                query(j, "value")
                for how in ("one", "step", "eloc", "samples"):
                    if fermi and depth[j] and how != ("step" if k % 2 else "eloc"):
                        continue
                    if depth[j] < 2 if how != "samples" else (k + j) % 4 == 0 and depth[j] < 3:
                        query(j, how)
        rec.case(f"{sp}-{nm}-{np.dtype(dt).kind}-{chunk}-{'fast' if fast else 'plain'}-{k}", cfg, go)


if __name__ == "__main__":
    main(run)
