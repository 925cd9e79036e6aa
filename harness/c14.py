"""C14: scripted and real sampling histories of unique-samples states, and their estimates."""
from models import *

from mpi import available, mpi_run

jax, jnp, nk = jx()


def spaces():
    from GPSKet.hilbert import FermionicDiscreteHilbert as FH
    return {"spin": nk.hilbert.Spin(0.5, N=4), "spin0": nk.hilbert.Spin(0.5, N=4, total_sz=0), "fermi": FH(3, n_elec=(2, 1))}


def operators(name, hi):
    """name -> (operator, operator whose dense matrix defines it)"""
    out = {}
    if name == "fermi":
        from GPSKet.operator.hamiltonian.hubbard import FermiHubbard, FermiHubbardOnTheFly
        e = np.array([[0, 1], [1, 2], [2, 0]])
        out["hub"] = out["hubfly"] = None
        d = FermiHubbard(hi, e, U=2.5)
        out["hub"] = (d, d)
        out["hubfly"] = (FermiHubbardOnTheFly(hi, e, U=2.5), d)
        return out
    from GPSKet.operator.hamiltonian.J1J2 import get_J1_J2_Hamiltonian
    g = nk.graph.Chain(4, pbc=False)
    heis = nk.operator.Heisenberg(hi, g)
    out["heis"] = (heis, heis)
    isg = nk.operator.Ising(hi, g, h=1.5)
    if name == "spin":
        out["ising"] = (isg, isg)
    else:
        kw = dict(J1=1.0, J2=0.5, total_sz=0.0, sign_rule=False, pbc=False)
        out["fly"] = (get_J1_J2_Hamiltonian(4, on_the_fly_en=True, **kw), get_J1_J2_Hamiltonian(4, **kw))
    return out


def rows(op, to):
    M = op.to_dense()
    st = [to(s) for s in ints(np.asarray(op.hilbert.all_states()))]
    return [[st[k], [[st[j], cnum(M[k, j])] for j in np.nonzero(np.abs(M[k]) > 1e-14)[0]]] for k in range(M.shape[0])]


def mk_state(hi, n, batch, max_steps, chains=1, model=None, seed=1, sampler=None):
    from GPSKet.vqs.mc.mc_state.state_unique_samples import MCStateUniqueSamples
    from GPSKet.models import qGPS

    class Scripted(MCStateUniqueSamples):
        script = None
        log = None

        def sample(self, **kw):
            if self.script is not None:
                if not self.script:
                    raise RuntimeError("the state keeps sampling after it should have stopped")
                r = jnp.asarray(np.array(self.script.pop(0), dtype=float)).reshape(chains, -1, hi.size)
            else:
                r = super().sample(**kw)
            if self.log is not None:
                self.log.append(np.asarray(r).reshape(-1, hi.size))
            return r
    fermi = "Fermionic" in type(hi).__name__
    sa = sampler
    if sa is None and not fermi and hi.constrained:
        sa = nk.sampler.MetropolisExchange(hi, graph=nk.graph.Chain(hi.size), n_chains=chains, dtype=float)
    sa = sa or nk.sampler.MetropolisLocal(hi, n_chains=chains, dtype=np.uint8 if fermi else float)
    return Scripted(sa, model or qGPS(hi, 2, dtype=jnp.complex128), n_samples=n, batch_size=batch, max_sampling_steps=max_steps or None, seed=1, sampler_seed=seed)


def run(rec):
    hi = spaces()["spin0"]
    alpha = [[-1, 1, -1, 1], [1, -1, 1, -1], [1, 1, -1, -1], [-1, -1, 1, 1]]
    g = {}
    for b in rec.inputs:
        b = b["beh"]
        g.setdefault(json.dumps(b["r"], sort_keys=True), []).append(b["hist"])
    for key, hists in sorted(g.items()):
        r = json.loads(key)
        rng = rng_for(rec.seed, "c14", key)
        hists = sorted(hists)
        pick = [hists[int(i)] for i in rng.permutation(len(hists))[: (400 if rec.thorough else 40)]]
        vs = None
        for k, h in enumerate(pick):
            def go(ev):
                nonlocal vs
                if vs is None:
                    vs = mk_state(hi, r["n"], r["b"], r["max"])
                vs.reset()
                vs.script = [[alpha[i - 1] for i in b] for b in h]
                n0 = len(vs.script)
                xs, w = vs.samples_with_counts
                for b in h[: n0 - len(vs.script)]:
                    ev.append({"op": "batch", "xs": [alpha[i - 1] for i in b]})
                ev.append({"op": "result", "xs": ints(np.asarray(xs)), "w": nums(np.asarray(w))})
            rec.case(f"script-{r['a']}-{r['n']}-{r['b']}-{r['max']}-{k}", {"n": r["n"], "max": r["max"], "tol": "1/1000000000000"}, go)
    # long histories: one configuration is met several hundred times
    for k, (n, b, mx) in enumerate([(3, 160, 3), (2, 400, 2), (3, 150, 4)]):
        rng = rng_for(rec.seed, "c14long", k)
        h = [[int(v) for v in rng.choice(2 if j < mx - 1 else 3, size=b, p=[0.97, 0.03] if j < mx - 1 else [0.9, 0.05, 0.05])] for j in range(mx)]

        def go(ev):
            vs = mk_state(hi, n, b, mx)
            vs.script = [[alpha[i] for i in x] for x in h]
            xs, w = vs.samples_with_counts
            for x in h[: mx - len(vs.script)]:
                ev.append({"op": "batch", "xs": [alpha[i] for i in x]})
            ev.append({"op": "result", "xs": ints(np.asarray(xs)), "w": nums(np.asarray(w))})
        rec.case(f"long-{n}-{b}-{mx}", {"n": n, "max": mx, "tol": "1/1000000000000"}, go)
    # real sampling with estimates
    from GPSKet.models import qGPS
    for name, hi in spaces().items():
        to = (lambda s: list(s)) if name == "fermi" else (lambda s: [int((v + 1) // 2) for v in s])
        for oname, (op, dense) in operators(name, hi).items():
            for dt in (jnp.complex128, jnp.float64):
                sets = [(5, 8, 0, 1, None), (6, 6, 2, 2, 2), (4, 12, 0, 4, 1), (6, 18, 1, 1, 3)]
                if name == "spin":
                    sets.append((12, 16, 3, 2, 4))
                if rec.thorough:
                    sets += [(3, 4, 0, 1, 1), (2, 8, 5, 2, None), (4, 40, 0, 4, 2), (5, 5, 1, 5, None)]
                for (n, batch, mx, chains, chunk) in sets:
                    if mx == 0:
                        n = min(n, hi.n_states - 2)
                    chunk = chunk if chunk and n % chunk == 0 and batch % chunk == 0 else None
                    cfg = {"n": n, "max": mx, "tol": "1/100000000", "real": dt == jnp.float64}
                    c = chains if n % chains == 0 and batch % chains == 0 else 1

                    def go(ev):
                        cfg["H"] = rows(dense, to)
                        sa = nk.sampler.ExactSampler(hi, dtype=np.uint8) if name == "fermi" else None
                        vs = mk_state(hi, n, batch, mx, chains=c, model=qGPS(hi, 2, dtype=dt), seed=3 + rec.seed, sampler=sa)
                        vs.parameters = rand_params(vs.parameters, rng_for(rec.seed, name, oname, str(dt), n), scale=24)
                        cfg["eps"] = cnums(vs.parameters["epsilon"])
                        vs.chunk_size = chunk
                        vs.reset()
                        vs.log = []
                        observe(ev, vs)
                        # other parameters: nothing of the old samples may remain
                        vs.log = []
                        vs.parameters = rand_params(vs.parameters, rng_for(rec.seed, name, oname, str(dt), n, 2), scale=24)
                        ev.append({"op": "params", "eps": cnums(vs.parameters["epsilon"])})
                        observe(ev, vs)

                    def observe(ev, vs):
                        xs, w = vs.samples_with_counts
                        for b in vs.log:
                            ev.append({"op": "batch", "xs": [to(x) for x in ints(b)]})
                        ev.append({"op": "result", "xs": [to(x) for x in ints(np.asarray(xs))], "w": nums(np.asarray(w))})
                        e = vs.expect(op)
                        ev.append({"op": "expect", "mean": cnum(complex(e.mean)), "var": num(float(np.real(e.variance)))})
                        e, gr = vs.expect_and_grad(op)
                        ev.append({"op": "expect", "mean": cnum(complex(e.mean)), "var": num(float(np.real(e.variance))), "grad": cnums(gr["epsilon"])})
                        e, gr = vs.expect_and_forces(op)
                        ev.append({"op": "expect", "mean": cnum(complex(e.mean)), "var": num(float(np.real(e.variance))), "force": cnums(gr["epsilon"])})
                    rec.case(f"real-{name}-{oname}-{np.dtype(dt).kind}-{n}-{batch}-{mx}-{chunk}", cfg, go)
    # the same on two processes, which share the samples
    for k, (name, oname, n, b, mx, chains, chunk, real) in enumerate([("spin", "ising", 6, 8, 0, 2, None, False), ("spin0", "heis", 4, 8, 2, 4, 2, True), ("spin", "heis", 12, 8, 2, 2, None, False)]):
        cfg = {"n": n, "max": mx, "tol": "1/100000000", "real": real}

        def go(ev):
            if not available():
                return
            rs = mpi_run(2, "c14_mpi.py", {"what": "unique", "space": name, "op": oname, "n": n, "b": b, "max": mx, "chains": chains, "chunk": chunk, "real": real, "seed": rec.seed})
            cfg["H"], cfg["eps"] = rs[0]["H"], rs[0]["eps"]
            for j in range(len(rs[0]["batches"])):
                ev.append({"op": "batch", "xs": [x for r in rs for x in r["batches"][j]]})
            ev.append({"op": "result", "xs": [x for r in rs for x in r["xs"]], "w": [x for r in rs for x in r["w"]]})
            for r in rs:
                ev += r["est"]
        rec.case(f"mpi-{name}-{oname}-{n}-{b}-{mx}", cfg, go)


if __name__ == "__main__":
    main(run)
