"""C07: Metropolis chains with cached fast updates, observed through the amplitudes the sampler sees."""
from models import *
from c06 import groups, samplers, counts, graph_of
from fractions import Fraction

jax, jnp, nk = jx()
LOG = []


class Spy:
    """A machine that reports every fast update it is asked for."""
    def __init__(self, model):
        self.model = model
        self.apply_fast_update = model.apply_fast_update

    def apply(self, variables, x, **kw):
        out = self.model.apply(variables, x, **kw)
        if kw.get("update_sites") is not None:
            val = out[0] if isinstance(out, tuple) else out
            jax.experimental.io_callback(lambda s, o, v: LOG.append((np.array(s), np.array(o), np.array(v))), None, kw["update_sites"], x, val.real, ordered=True)
        return out


def models(cfg, hi):
    from GPSKet.models import qGPS, Slater, SlaterqGPS, CPDBackflow, PlaquetteqGPS, get_sym_transformation_spin, ARqGPSFull
    from netket.utils import HashableArray
    if cfg["rule"] == "exchange":
        g = graph_of(cfg)
        L = cfg["L"]
        out = [("qGPS", qGPS(hi, 2), 1.0), ("qGPS-syms", qGPS(hi, 1, syms=get_sym_transformation_spin(g)), 1.0)]
        pl = HashableArray(np.array([[(i + j) % L for j in range(3)] for i in range(L)]))
        out.append(("plaquette", PlaquetteqGPS(hi, 1, pl, apply_fast_update=True), 1.0))
        return out
    out = [("qGPS", qGPS(hi, 2), 1.0)]
    if cfg["nu"] > 0 and cfg["nd"] > 0:
        out += [("Slater", Slater(hi), None), ("Slater-linear", Slater(hi, constant_time_updates=False), None), ("SlaterqGPS", SlaterqGPS(hi, spin_symmetry_by_structure=False), None),
                ("CPD", CPDBackflow(hi, 1, restricted=False), None)]
    return out


def make_params(model, hi, x0, rng, around, node):
    v = model.init(jax.random.PRNGKey(0), x0)
    p = rand_params(v["params"], rng, around=around)
    if node:   # two equal orbital rows: configurations with both sites doubly used vanish
        def leaf(a):
            return a.at[:, 1, :].set(a[:, 0, :]) if a.ndim == 3 and a.shape[1] == hi.size else a
        p = jax.tree_util.tree_map(leaf, p)
    return {**v, "params": p}


def wtable(model, v, xs, dt):
    lg = np.asarray(model.apply(v, jnp.asarray(xs, dtype=dt))).real
    top = lg[np.isfinite(lg)].max()
    return [[x, num(a) if np.isfinite(a) and a > top - 15 else "zero"] for x, a in zip(xs, lg)]


def run(rec):
    for cfg0, xs in groups(rec):
        if len(xs) < 2:
            continue
        rng = rng_for(rec.seed, "c07", cfg0)
        hi, sams = samplers(cfg0)
        fast = [i for i, s in enumerate(sams) if s[2]][0]
        dt = np.uint8 if cfg0["rule"] == "hopping" else float
        mods = models(cfg0, hi)
        if not rec.thorough:
            mods = [mods[int(i)] for i in rng.permutation(len(mods))[:3]]
        for name, model, around in mods:
            pw = [2, 1, 3, 2][int(rng.integers(4))]
            seed = int(rng.integers(1 << 30))
            node = "Slater" in name and bool(seed % 2)
            cfg = {**cfg0, "pow": num(pw), "tol": "1/100000000", "w": []}
            tag = f"{name}-{cfg0['rule']}-{cfg0['L']}-{cfg0['nu']}-{cfg0['nd']}-{cfg0['hop'].replace('/', '_')}{'-T' if cfg0['T'] else ''}-pow{pw}"

            def setup(**kw):
                sa = samplers(cfg0, machine_pow=pw, **kw)[1][fast][1]()
                v = make_params(model, hi, jnp.asarray(xs[:1], dtype=dt), rng_for(seed), around, node)
                t = wtable(model, v, xs, dt)
                ok = [x for x, a in t if a != "zero"]
                return sa, v, t, ok

            def start(sa, mach, v, conf):
                st = sa.init_state(mach, v, seed=seed % 1000)
                st = sa.reset(mach, v, st)
                return st.replace(σ=jnp.asarray(conf, dtype=st.σ.dtype))

            nch, sweeps, size = 3, (12 if rec.thorough else 5), 6

            def observed(ev):
                """All chains of one run, one after the other."""
                sa, v, cfg["w"], ok = setup(n_chains=nch, sweep_size=size)
                mach = Spy(model)
                conf = [ok[int(i)] for i in rng_for(seed, 1).integers(0, len(ok), size=nch)]
                st = start(sa, mach, v, conf)
                if seed % 3 == 0:      # the chains come from a run with other parameters
                    old = make_params(model, hi, jnp.asarray(xs[:1], dtype=dt), rng_for(seed, 2), around, False)
                    out, st = sa.sample(mach, old, state=st, chain_length=1)
                    jax.block_until_ready(out)
                    jax.effects_barrier()
                    if all(c in ok for c in ints(np.asarray(st.σ))):
                        conf = ints(np.asarray(st.σ))
                    else:
                        st = start(sa, mach, v, conf)
                steps0 = int(st.n_steps), int(st.n_accepted)
                LOG.clear()
                acc0 = np.asarray(st.n_accepted_proc).copy()
                rows = []
                for s in range(sweeps):
                    LOG.clear()
                    out, st = sa.sample(mach, v, state=st, chain_length=1)
                    jax.block_until_ready(out)
                    jax.effects_barrier()
                    rows.append((list(LOG), np.asarray(out).reshape(nch, -1), np.asarray(st.n_accepted_proc).copy(), int(st.n_steps), int(st.n_accepted)))
                seenall = all(len(r[0]) == size and all(q[0].shape[0] == nch for q in r[0]) for r in rows)
                per = all(r[2].shape == (nch,) for r in rows)
                if seenall:
                    for c in range(nch):
                        ev.append({"op": "start", "x": conf[c], "acc": 0})
                        for log, out, acc, _, _ in rows:
                            for sites, occ, val in log:
                                ev.append({"op": "propose", "sites": [int(i) + 1 for i in sites[c]], "occ": ints(occ[c]), "logre": num(val[c]) if np.isfinite(val[c]) else "nan"})
                            e = {"op": "recorded", "x": ints(out[c])}
                            if per:
                                e["acc"] = int(acc[c] - acc0[c])
                            ev.append(e)
                last = rows[-1]
                ev.append({"op": "counter", "changed": 0, "acc": last[4] - steps0[1], "n": nch * size * sweeps, "steps": last[3] - steps0[0], "exact": False})
            rec.case("observed-" + tag, cfg, observed)

            # transition frequencies, one and several steps
            if len(xs) > 20 and not rec.thorough:
                continue
            for k in (1, 3):
                cf = {**cfg0, "pow": num(pw), "tol": "1/100000000", "w": []}

                def freq(ev):
                    n = 20000 if rec.thorough else 6000
                    sa, v, cf["w"], ok = setup(n_chains=n, sweep_size=k)
                    for i in rng_for(seed, k).permutation(len(ok))[:2]:
                        x0 = ok[int(i)]
                        st = start(sa, model, v, [x0] * n)
                        out, st = sa.sample(model, v, state=st, chain_length=1)
                        out = np.asarray(out).reshape(n, -1)
                        ev.append({"op": "transition", "x": x0, "k": k, "n": n, "counts": counts(out)})
                        changed = int((out.astype(int) != np.array(x0)).any(axis=1).sum())
                        exact = k == 1 and cfg0["rule"] == "hopping" and cfg0["hop"] == "1" and not cfg0["T"] and max(cfg0["nu"], cfg0["nd"]) < cfg0["L"]
                        ev.append({"op": "counter", "changed": changed if k == 1 else 0, "acc": int(st.n_accepted), "n": n * k, "steps": int(st.n_steps), "exact": exact})
                        if k == 1:
                            ev += [{"op": "step", "x": x0, "y": y} for y, _ in counts(out)]
                rec.case(f"frequencies{k}-" + tag, cf, freq)


if __name__ == "__main__":
    main(run)
