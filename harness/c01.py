"""C01: rows of the fermionic Hamiltonians, for every configuration TLC reached."""
from common import *
import numpy as np


def sym_integrals(rng, L, sparse=False):
    h = dyadic(rng, (L, L), nonzero=not sparse)
    e = dyadic(rng, (L,) * 4, nonzero=not sparse)
    if sparse:
        h = h * (rng.random((L, L)) < 0.5)
        e = e * (rng.random((L,) * 4) < 0.15)
        # small integrals count as well
        h = h * np.where(rng.random((L, L)) < 0.3, 2.0**-23, 1.0)
        e = e * np.where(rng.random((L,) * 4) < 0.4, 2.0**-23, 1.0)
    h = h + h.T
    e = e + e.transpose(1, 0, 2, 3)
    e = e + e.transpose(0, 1, 3, 2)
    e = e + e.transpose(2, 3, 0, 1)
    return h, e / 4


def conn_list(xp, mels):
    return [[ints(a), cnum(m)] for a, m in zip(np.asarray(xp), np.asarray(mels))]


def rows(ev, op, xs, rng, dtype):
    """Batched (shuffled, with repetitions) and single-row queries."""
    order = list(rng.permutation(len(xs)))
    if len(xs) > 1:
        order.append(order[0])
    batch = np.array([xs[i] for i in order], dtype=dtype)
    sec = np.zeros(len(batch), dtype=int)
    xp, me = op.get_conn_flattened(batch, sec)
    xp, me = np.asarray(xp), np.asarray(me)
    lo = 0
    for k, x in enumerate(batch):
        hi = int(sec[k])
        ev.append({"op": "batched query", "x": ints(x), "conn": conn_list(xp[lo:hi], me[lo:hi])})
        lo = hi
    for x in (xs if len(xs) <= 12 else [xs[i] for i in rng.permutation(len(xs))[:12]]):
        xp, me = op.get_conn(np.array(x, dtype=dtype))
        ev.append({"op": "single query", "x": ints(x), "conn": conn_list(xp, me)})


def dense_rows(ev, op):
    hi = op.hilbert
    states = np.asarray(hi.all_states())
    M = np.asarray(op.to_dense())
    for i, x in enumerate(states):
        ev.append({"op": "dense matrix", "x": ints(x),
                   "conn": [[ints(states[j]), cnum(M[i, j])] for j in range(len(states)) if M[i, j] != 0]})


def run(rec):
    import GPSKet as qk
    from GPSKet.hilbert import FermionicDiscreteHilbert as FH
    from GPSKet.operator.hamiltonian import ab_initio as ai, ab_initio_sparse as ais, hubbard as hb
    secs = {}
    for b in rec.inputs:
        b = b["beh"]
        secs.setdefault((b["L"], b["nu"], b["nd"]), []).append(b["x"])
    reps = 3 if rec.thorough else 1
    for (L, nu, nd), xs in sorted(secs.items()):
        xs = sorted(xs)
        for rep in range(reps):
            rng = rng_for(rec.seed, "c01", L, nu, nd, rep)
            hi = FH(L, n_elec=(nu, nd))
            dt = [np.uint8, np.int64, np.float64, np.int8][int(rng.integers(4))]
            # ab initio: dense integrals, dense class / sparse integrals, sparse class
            for cls, sp in ((ai.AbInitioHamiltonian, False), (ai.AbInitioHamiltonianOnTheFly, True), (ais.AbInitioHamiltonianSparse, True)):
                h, e = sym_integrals(rng, L, sp)
                cfg = {"kind": "abinitio", "h": nums(h), "eri": nums(e), "tol": "1/1000000000"}

                def go(ev, cls=cls, h=h, e=e):
                    op = cls(hi, h, e)
                    rows(ev, op, xs, rng_for("o", rep), dt)
                    if len(xs) <= 20 and cls is ai.AbInitioHamiltonian:
                        dense_rows(ev, op)
                    if len(xs) <= 9:
                        ev.append({"op": "Hermiticity", "claim": bool(op.is_hermitian), "space": xs, "strict": True})
                rec.case(f"{cls.__name__}-{L}-{nu}-{nd}-{rep}", cfg, go)
            # Hubbard: random graph (reversed edges, repeated edges), one or many hoppings
            pairs = [(i, j) for i in range(L) for j in range(L) if i != j]
            variants = [("none", [], 1.0)]
            ring = [(i, (i + 1) % L) for i in range(L)] if L > 2 else [(i, i + 1) for i in range(L - 1)]
            variants.append(("ring", ring, float(dyadic(rng, ()))))
            if pairs:
                k = int(rng.integers(1, len(pairs) + 2))
                ed = [pairs[int(i)] for i in rng.integers(0, len(pairs), size=k)]
                variants.append(("random", ed, [float(v) for v in dyadic(rng, (k,))]))
            for name, ed, t in variants:
                U = float(dyadic(rng, ()))
                tl = t if isinstance(t, list) else [t] * len(ed)
                cfg = {"kind": "hubbard", "U": num(U), "edges": [[a + 1, b + 1] for a, b in ed], "t": [num(v) for v in tl], "tol": "1/1000000000"}
                for cls in (hb.FermiHubbard, hb.FermiHubbardOnTheFly) if name == "random" else (hb.FermiHubbard,):
                    def go(ev, cls=cls, ed=ed, t=t, U=U):
                        op = cls(hi, ed, U=U, t=t)
                        rows(ev, op, xs, rng_for("o", rep), dt)
                        if len(xs) <= 20:
                            dense_rows(ev, op)
                            ev.append({"op": "Hermiticity", "claim": bool(op.is_hermitian), "space": xs, "strict": True})
                    rec.case(f"{cls.__name__}-{name}-{L}-{nu}-{nd}-{rep}", cfg, go)
    # the hopping primitive on its own
    for (L, nu, nd), xs in sorted(secs.items()):
        if L < 2:
            continue
        rng = rng_for(rec.seed, "c01hop", L, nu, nd)
        xs = [sorted(xs)[int(i)] for i in rng.permutation(len(xs))[:6]]

        def go(ev):
            from GPSKet.operator.fermion import apply_hopping
            for x in xs:
                for spin in (1, 2):
                    cum = np.cumsum((np.array(x) & spin) != 0)
                    for a in range(L):
                        for b in range(L):
                            for how, kw in (("counted along the way", {}), ("with cumulative counts", dict(cummulative_count=cum))):
                                y = np.array(x, dtype=np.uint8)
                                s = apply_hopping(a, b, y, spin, **kw)
                                ev.append({"op": how, "x": x, "from": a + 1, "to": b + 1, "spin": spin, "sign": int(s), "y": ints(y)})
        rec.case(f"hop-{L}-{nu}-{nd}", {"kind": "hubbard", "tol": "1/1000000000"}, go)
    # larger systems, a few random configurations each (hops over many electrons)
    for k, (L, nu, nd) in enumerate([(8, 6, 3), (9, 2, 8), (12, 7, 9)] + ([(16, 9, 13), (10, 9, 1)] if rec.thorough else [])):
        rng = rng_for(rec.seed, "c01l", L, nu, nd)
        hi = FH(L, n_elec=(nu, nd))
        xs = []
        for _ in range(4):
            x = np.zeros(L, dtype=int)
            x[rng.permutation(L)[:nu]] += 1
            x[rng.permutation(L)[:nd]] += 2
            xs.append([int(v) for v in x])
        ed = [(i, j) for i in range(L) for j in range(L) if i < j]
        ed = [(a, b) if rng.random() < 0.5 else (b, a) for a, b in ed]
        t = [float(v) for v in dyadic(rng, (len(ed),))]
        U = float(dyadic(rng, ()))
        cfg = {"kind": "hubbard", "U": num(U), "edges": [[a + 1, b + 1] for a, b in ed], "t": [num(v) for v in t], "tol": "1/1000000000"}

        def go(ev):
            rows(ev, hb.FermiHubbard(hi, ed, U=U, t=t), xs, rng_for("o"), np.uint8)
        rec.case(f"FermiHubbard-large-{L}-{nu}-{nd}", cfg, go)
    for k, (L, nu, nd) in enumerate([(6, 5, 3)] + ([(6, 2, 5), (7, 6, 2)] if rec.thorough else [])):
        rng = rng_for(rec.seed, "c01m", L, nu, nd)
        hi = FH(L, n_elec=(nu, nd))
        xs = []
        for _ in range(2):
            x = np.zeros(L, dtype=int)
            x[rng.permutation(L)[:nu]] += 1
            x[rng.permutation(L)[:nd]] += 2
            xs.append([int(v) for v in x])
        for cls in (ai.AbInitioHamiltonian, ais.AbInitioHamiltonianSparse):
            h, e = sym_integrals(rng, L, cls is ais.AbInitioHamiltonianSparse)
            cfg = {"kind": "abinitio", "h": nums(h), "eri": nums(e), "tol": "1/1000000000"}

            def go(ev, cls=cls, h=h, e=e):
                rows(ev, cls(hi, h, e), xs, rng_for("o"), np.uint8)
            rec.case(f"{cls.__name__}-large-{L}-{nu}-{nd}", cfg, go)
    # unconstrained particle numbers: all 4^L configurations of small clusters
    for L in ((2, 3, 4) if rec.thorough else (2, 3)):
        rng = rng_for(rec.seed, "c01u", L)
        xs = [list(map(int, c)) for c in np.array(np.meshgrid(*[range(4)] * L)).reshape(L, -1).T]
        ed = [(i, (i + 1) % L) for i in range(L)] + [(L - 1, 0)]
        t = [float(v) for v in dyadic(rng, (len(ed),))]
        U = float(dyadic(rng, ()))
        cfg = {"kind": "hubbard", "U": num(U), "edges": [[a + 1, b + 1] for a, b in ed], "t": [num(v) for v in t], "tol": "1/1000000000"}

        def go(ev):
            rows(ev, hb.FermiHubbard(FH(L), ed, U=U, t=t), xs, rng, np.uint8)
        rec.case(f"FermiHubbard-unconstrained-{L}", cfg, go)


if __name__ == "__main__":
    main(run)
