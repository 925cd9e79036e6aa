from c15 import *
from mpi import worker
from GPSKet.models import qGPS


def unique(p):
    name, oname = p["space"], p["op"]
    hi = spaces()[name]
    dt = jnp.float64 if p["real"] else jnp.complex128
    to = (lambda s: list(s)) if name == "fermi" else (lambda s: [int((v + 1) // 2) for v in s])
    op, dense = operators(name, hi)[oname]
    vs = mk_state(hi, p["n"], p["b"], p["max"], chains=p["chains"], model=qGPS(hi, 2, dtype=dt), seed=3 + p["seed"])
    vs.parameters = rand_params(vs.parameters, rng_for(p["seed"], "c14m", name, oname), scale=24)
    vs.chunk_size = p["chunk"]
    vs.reset()
    vs.log = []
    xs, w = vs.samples_with_counts
    est = []
    e = vs.expect(op)
    est.append({"op": "expect", "mean": cnum(complex(e.mean)), "var": num(float(np.real(e.variance)))})
    e, gr = vs.expect_and_grad(op)
    est.append({"op": "expect", "mean": cnum(complex(e.mean)), "var": num(float(np.real(e.variance))), "grad": cnums(gr["epsilon"])})
    return {"eps": cnums(vs.parameters["epsilon"]), "H": rows(dense, to), "batches": [[to(x) for x in ints(b)] for b in vs.log],
            "xs": [to(x) for x in ints(np.asarray(xs))], "w": nums(np.asarray(w)), "est": est}


def strata(p):
    name = p["space"]
    hi = spaces15()[name]
    to = lambda s: [int((v + 1) // 2) for v in s]
    allst = np.asarray(hi.all_states())
    rng = rng_for(p["seed"], "c15m", name, p["mode"])
    det = allst[rng.permutation(len(allst))[: p["nd"]]]
    vs = mk_strat(name, hi, det, p["ns"], p["chains"], qGPS(hi, 2, dtype=jnp.complex128), lambda q: rand_params(q, rng, scale=24), sampler_seed=p["seed"] + 2, n_discard_per_chain=2, **p["kw"])
    lg = 2 * np.asarray(vs.log_value(jnp.asarray(allst))).real
    op, dense = operators("spin" if name == "spin4" else name, hi)["heis"]
    xs, w = vs.samples_with_counts
    e, gr = vs.expect_and_grad(op)
    return {"eps": cnums(vs.parameters["epsilon"]), "H": rows(dense, to), "det": [to(x) for x in ints(det)], "p": [[to(x), num(v)] for x, v in zip(ints(allst), np.exp(lg - lg.max()))],
            "xs": [to(x) for x in ints(np.asarray(xs))], "w": nums(np.asarray(w)), "est": [{"op": "expect", "mean": cnum(complex(e.mean)), "var": num(float(np.real(e.variance))), "grad": cnums(gr["epsilon"])}]}


worker(lambda p: unique(p) if p["what"] == "unique" else strata(p))
