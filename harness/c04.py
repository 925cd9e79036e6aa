"""C04: rows of the exclusion-process generator in every configuration TLC reached."""
from models import *
from c01 import rows, dense_rows

jax, jnp, nk = jx()


def run(rec):
    from GPSKet.operator.hamiltonian.asep import AsymmetricSimpleExclusionProcess as ASEP
    sizes = {}
    for b in rec.inputs:
        x = b["beh"]["x"]
        sizes.setdefault(len(x), []).append(x)
    for L, xs in sorted(sizes.items()):
        xs = sorted(xs)
        hi = nk.hilbert.Qubit(L)
        for rep in range(12 if rec.thorough else 6):
            rng = rng_for(rec.seed, "c04", L, rep)
            r = {k: float(v) for k, v in zip(("alpha", "beta", "gamma", "delta", "p", "q"), np.abs(dyadic(rng, (6,))))}
            lam = float(dyadic(rng, ())) if rep % 3 else 0.0
            if rep == 3:      # the reversible process
                r["gamma"], r["delta"], r["q"] = r["alpha"], r["beta"], r["p"]
            if rep == 4:      # equal boundary rates only, the counting field tilts the generator
                r["gamma"], r["delta"], r["q"] = r["alpha"], r["beta"], r["p"]
            if rep == 5:      # rates of exactly zero
                r["alpha"] = r["q"] = 0.0
            cfg = {"kind": "asep", "lambda": num(lam), **{k: num(v) for k, v in r.items()}, "tol": "1/1000000000"}

            def go(ev):
                op = ASEP(hi, lam, **r)
                dt = [np.int8, np.float64, np.int64][rep % 3]
                rows(ev, op, xs, rng_for(rep), dt)
                if L <= 4:
                    dense_rows(ev, op)
                if L <= 4 and L > 1:
                    ev.append({"op": "Hermiticity", "claim": bool(op.is_hermitian), "space": xs, "strict": lam == 0})
            rec.case(f"asep-{L}-{rep}", cfg, go)
        # the Hermiticity claim for rates equal within / across the boundaries
        if 1 < L <= 3:
            for k, (al, ga, be, de, p, q, lam) in enumerate([
                    (1, 1, 1, 1, 1, 1, 0), (1, 1, 2, 2, 3, 3, 0), (1, 2, 1, 2, 3, 3, 0), (1, 2, 2, 1, 3, 3, 0), (1, 1, 2, 2, 3, 4, 0),
                    (1, 1, 2, 3, 4, 4, 0), (1, 2, 3, 3, 4, 4, 0), (1, 1, 1, 1, 1, 1, 0.5), (2, 2, 3, 3, 1, 1, -0.25), (1, 1, 1, 1, 1, 2, 0)]):
                r = dict(alpha=al, gamma=ga, beta=be, delta=de, p=p, q=q)
                cfg = {"kind": "asep", "lambda": num(lam), **{n: num(v) for n, v in r.items()}, "tol": "1/1000000000"}

                def go(ev):
                    op = ASEP(hi, lam, **r)
                    ev.append({"op": "Hermiticity", "claim": bool(op.is_hermitian), "space": xs, "strict": lam == 0})
                    rows(ev, op, xs, rng_for(k), np.int8)
                rec.case(f"hermitian-{L}-{k}", cfg, go)


if __name__ == "__main__":
    main(run)
