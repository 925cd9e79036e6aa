"""C08: direct sampling from the autoregressive models, and the draw from a row of conditionals."""
from models import *
import c09
from c09 import groups, to_state, from_state, init
from collections import Counter

jax, jnp, nk = jx()


def run(rec):
    from GPSKet.sampler import autoreg as ar
    n = 60000 if rec.thorough else 12000
    # the draw itself: every position of the random number relative to the cumulative weights
    rows = [[1, 1], [0, 1], [1, 0], [1, 3], [0.25, 0.5, 0.25, 0], [0, 0, 1, 0], [0, 0.5, 0, 0.5], [2, 0, 0, 6], [0, 0, 0, 1], [1e-3, 1, 1e-3, 1], [1e-200, 1e-200]]
    for k, row in enumerate(rows):
        def go(ev):
            tot = sum(row)
            cum = np.cumsum(row) / tot
            us = {0.0, 1 - 2.0 ** -53, 0.5, 2.0 ** -60}
            for c in cum:
                us |= {float(c), float(np.nextafter(c, 0)), float(np.nextafter(c, 1))}
            us = sorted(u for u in us if 0 <= u < 1)
            p = jnp.asarray([row] * len(us), dtype=jnp.float64)
            a = jnp.arange(len(row)) * 3 + 1
            # feed chosen random numbers (if the draw asks for uniform numbers, one per row)
            asked = []
            real = jax.random.uniform

            def fed(key, shape=(), *ar_, **kw):
                asked.append(tuple(shape))
                if int(np.prod(shape)) == len(us):
                    return jnp.asarray(us).reshape(shape)
                return real(key, shape, *ar_, **kw)
            jax.random.uniform = fed
            try:
                out = np.asarray(ar.batch_choice(jax.random.PRNGKey(0), a, p))
            finally:
                jax.random.uniform = real
            if len(asked) == 1 and int(np.prod(asked[0])) == len(us):
                for u, o in zip(us, out):
                    ev.append({"op": "draw", "p": nums(row), "u": num(u), "k": int((o - 1) // 3) + 1})
            P = jnp.asarray([row] * n, dtype=jnp.float64)
            out = (np.asarray(jax.jit(ar.batch_choice)(jax.random.PRNGKey(rec.seed + 11), a, P)) - 1) // 3
            ev.append({"op": "cells", "p": nums(row), "n": n, "counts": [int(np.sum(out == j)) for j in range(len(row))]})
        rec.case(f"draw-{k}", {"tol": "1/1000000000000", "L": 1, "D": len(row), "sector": "none"}, go)
    # different rows of one batch are drawn independently, each from its own weights
    def go(ev):
        r = rng_for(rec.seed, "rows")
        P = np.concatenate([np.tile([[1.0, 3.0, 0.0, 0.0]], (n, 1)), np.tile([[0.0, 0.0, 3.0, 1.0]], (n, 1))])
        perm = r.permutation(2 * n)
        out = np.asarray(jax.jit(ar.batch_choice)(jax.random.PRNGKey(rec.seed + 5), jnp.arange(4), jnp.asarray(P[perm])))
        for b, row in ((perm < n, P[0]), (perm >= n, P[-1])):
            o = out[b]
            ev.append({"op": "cells", "p": nums(row), "n": n, "counts": [int(np.sum(o == j)) for j in range(4)]})
    rec.case("draw-mixed", {"tol": "1/1000000000000", "L": 1, "D": 4, "sector": "none"}, go)

    for cfg, xs in groups(rec):
        rng = rng_for(rec.seed, "c08", json.dumps(cfg))
        hi, mods = c09.models(cfg, rec, rng)
        L = cfg["L"]
        for name, gr, mk in mods:
            if "pow" in name or "PixelCNN" in name:
                continue
            if not rec.thorough and (L >= 6 and "-" in name or L == 3 and cfg["D"] == 2 and "-" in name):
                continue
            c = {**cfg, "tol": "1/1000000000"}

            def go(ev):
                m = mk()
                r = rng_for(rec.seed, "c08", name, json.dumps(cfg))
                X = jnp.asarray(to_state(cfg, xs))
                v = init(m, hi, X, r)
                if name == "ARqGPS" or name == "ARqGPSFull":   # strongly peaked distributions: tiny conditionals
                    v["params"] = jax.tree_util.tree_map(lambda p: p * 2, v["params"])
                lg = np.asarray(jax.jit(lambda v, x: m.apply(v, x, mutable=["cache"])[0])(v, X), dtype=complex)
                c["w"] = [[x, num(np.exp(2 * l.real))] for x, l in zip(xs, lg)]
                fermi = cfg["D"] == 4
                from GPSKet.sampler import ARDirectSampler
                B = 1
                sa = ARDirectSampler(hi, dtype=np.uint8 if fermi else float)
                st = sa.init_state(m, v, seed=rec.seed * 7 + 3)
                st = sa.reset(m, v, st)
                var = {k: a for k, a in v.items()}
                # an earlier call with other parameters must leave no trace
                old = {**var, "params": jax.tree_util.tree_map(lambda p: -p, v["params"])}
                _, st = sa.sample(m, old, state=st, chain_length=3)
                calls = []
                for _ in range(2):
                    s, st = sa.sample(m, dict(var), state=st, chain_length=n // (2 * B))
                    ev_shape = list(s.shape)
                    s = from_state(cfg, s)
                    calls.append(s)
                    fl = s.reshape(-1, L)
                    ev.append({"op": "samples", "n": len(fl), "shape": ev_shape, "want": [B, n // (2 * B), L],
                               "counts": [[list(map(int, k)), q] for k, q in sorted(Counter(map(tuple, fl.tolist())).items())]})
                # single samples
                sa1 = ARDirectSampler(hi, dtype=np.uint8 if fermi else float)
                st1 = sa1.reset(m, v, sa1.init_state(m, v, seed=5))
                s1, st1 = sa1.sample(m, dict(var), state=st1, chain_length=1)
                ev.append({"op": "samples", "n": 1, "shape": list(s1.shape), "want": [1, 1, L], "counts": [[ints(from_state(cfg, s1)[0, 0]), 1]]})
                if len(xs) <= 8:
                    a = calls[0]
                    for what, u, w in (("consecutive samples of a chain", a[:, :-1], a[:, 1:]), ("successive calls", calls[0], calls[1])):
                        u, w = u.reshape(-1, L), w.reshape(-1, L)
                        ct = Counter(zip(map(tuple, u.tolist()), map(tuple, w.tolist())))
                        ev.append({"op": "pairs", "what": what, "n": len(u), "counts": [[list(map(int, p)), list(map(int, q)), z] for (p, q), z in sorted(ct.items())]})
            rec.case(f"sampler-{name}-{cfg['sector']}-{L}-{cfg['D']}", c, go)


if __name__ == "__main__":
    main(run)
