"""C06: proposals of the sampler rules from every configuration TLC reached."""
from models import *
from collections import Counter
from fractions import Fraction

jax, jnp, nk = jx()


def groups(rec):
    g = {}
    for b in rec.inputs:
        b = b["beh"]
        g.setdefault(json.dumps(b["cfg"], sort_keys=True), []).append(b["x"])
    return [(json.loads(k), sorted(v)) for k, v in sorted(g.items())]


def tmat(cfg):
    return jnp.array([[float(Fraction(v)) for v in r] for r in cfg["T"]]) if cfg["T"] else None


def graph_of(cfg):
    return nk.graph.Graph(edges=[(a - 1, b - 1) for a, b in cfg["pairs"]])


def samplers(cfg, **kw):
    """The library's samplers with this rule (name, constructor, reports sites)."""
    from GPSKet.sampler.fermionic_hopping import MetropolisHopping, MetropolisFastHopping
    from GPSKet.sampler.metropolis_fast import MetropolisFastExchange
    from GPSKet.hilbert import FermionicDiscreteHilbert as FH
    if cfg["rule"] == "hopping":
        hi = FH(cfg["L"], n_elec=(cfg["nu"], cfg["nd"]))
        a = dict(hop_probability=float(Fraction(cfg["hop"])), transition_probs=tmat(cfg))
        return hi, [("hopping", lambda: MetropolisHopping(hi, **a, **kw), False), ("fast hopping", lambda: MetropolisFastHopping(hi, **a, **kw), True)]
    hi = nk.hilbert.Spin(0.5, N=cfg["L"], total_sz=(2 * cfg["nu"] - cfg["L"]) / 2)
    cl = [(a - 1, b - 1) for a, b in cfg["pairs"]]
    return hi, [("fast exchange", lambda: MetropolisFastExchange(hi, graph=graph_of(cfg), **kw), True),
                ("fast exchange, clusters", lambda: MetropolisFastExchange(hi, clusters=cl, **kw), True)]


def counts(y):
    return [[list(map(int, k)), c] for k, c in sorted(Counter(map(tuple, np.asarray(y).astype(int).tolist())).items())]


def run(rec):
    n = 20000 if rec.thorough else 5000
    for cfg, xs in groups(rec):
        hi, sams = samplers(cfg, n_chains=1)
        for name, mk, reports in sams:
            def go(ev):
                sa = mk()
                dts = [sa.dtype, np.int64] if cfg["rule"] == "hopping" else [float]
                tr = jax.jit(lambda key, s: sa.rule.transition(sa, None, None, None, key, s))
                for k, x in enumerate(xs):
                    dt = dts[k % len(dts)]
                    key = jax.random.PRNGKey(rec.seed * 1000 + k)
                    r = tr(key, jnp.asarray([x] * n, dtype=dt))
                    y = np.asarray(r[0])
                    ev.append({"op": "kernel", "x": x, "n": n, "counts": counts(y)})
                    seen = set()
                    for i in range(n):
                        t = tuple(y[i].tolist())
                        s = tuple(np.asarray(r[2])[i].tolist()) if reports else ()
                        if (t, s) in seen:
                            continue
                        seen.add((t, s))
                        e = {"op": "proposal", "x": x, "y": ints(y[i])}
                        if reports:
                            e["sites"] = [int(v) + 1 for v in s]
                        ev.append(e)
                # mixed batch: every row moves on its own
                r = tr(jax.random.PRNGKey(7), jnp.asarray(xs * 4, dtype=dts[0]))
                for x, y in zip(xs * 4, np.asarray(r[0])):
                    ev.append({"op": "proposal", "x": x, "y": ints(y)})
            rec.case(f"{name}-{cfg['L']}-{cfg['nu']}-{cfg['nd']}-{cfg['hop'].replace('/', '_')}-{'T' if cfg['T'] else ''}", cfg, go)


if __name__ == "__main__":
    main(run)
