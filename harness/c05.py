"""C05: fermionic configuration spaces and random states."""
from models import *
import itertools
from collections import Counter

jax, jnp, nk = jx()


def run(rec):
    from GPSKet.hilbert import FermionicDiscreteHilbert as FH
    secs = sorted({(b["beh"]["L"], b["beh"]["nu"], b["beh"]["nd"]) for b in rec.inputs})
    secs += [(L, -1, -1) for L in (1, 2, 3)] + [(4, 2, 2), (4, 3, 1), (5, 1, 4)]
    for L, nu, nd in dict.fromkeys(secs):
        cfg = {"L": L, "nu": nu, "nd": nd}
        mk = lambda: FH(L, n_elec=None if nu < 0 else (nu, nd))

        def structure(ev):
            hi = mk()
            states = np.asarray(hi.all_states())
            ev.append({"op": "enumerate", "n": int(hi.n_states), "states": ints(states)})
            nums_ = np.asarray(hi.states_to_numbers(states))
            back = np.asarray(hi.numbers_to_states(nums_))
            ev.append({"op": "index", "pairs": [[ints(x), int(k), ints(y)] for x, k, y in zip(states, nums_, back)]})
            # the numbers of a shuffled batch are those of the individual states
            perm = rng_for(rec.seed, cfg).permutation(len(states))
            n2 = np.asarray(hi.states_to_numbers(states[perm]))
            ev.append({"op": "index", "pairs": [[ints(x), int(k), ints(y)] for x, k, y in zip(states[perm], n2, np.asarray(hi.numbers_to_states(n2)))]})
            allx = np.array(list(itertools.product(range(4), repeat=L)), dtype=np.uint8)
            if nu >= 0:
                for dt in (np.uint8, np.float64, np.int32):
                    c = np.asarray(hi.constraint(jnp.asarray(allx.astype(dt))))
                    ev.append({"op": "member", "xs": ints(allx), "in": [bool(v) for v in c]})
            for k in (1, 2, 3):
                if 4 ** (L * k) > 5000:
                    continue
                p = hi ** k
                xs = np.asarray(p.all_states())
                ev.append({"op": "power", "k": k, "N": int(p.size), "n": int(p.n_states), "xs": ints(xs[:200])})
        rec.case(f"structure-{L}-{nu}-{nd}", cfg, structure)

        def rand(ev):
            hi = mk()
            K = hi.n_states
            for i, size in enumerate([None, 1, 5, (2, 3), (3, 1, 2)]):
                dt = [np.uint8, np.int8, np.float64, np.int64, np.float32][(i + L + max(nu, 0)) % 5]
                x = np.asarray(hi.random_state(jax.random.PRNGKey(rec.seed + i), size, dtype=dt))
                want = (() if size is None else (size,) if isinstance(size, int) else size) + (L,)
                ev.append({"op": "random", "shape": list(x.shape), "want": list(want), "xs": ints(x.reshape(-1, L))})
            n = (400 if rec.thorough else 60) * K + 2000
            xs = np.asarray(hi.random_state(jax.random.PRNGKey(1000 + rec.seed), n, dtype=np.uint8))
            cnt = Counter(map(tuple, xs.tolist()))
            ev.append({"op": "frequencies", "n": n, "counts": [[list(k), c] for k, c in sorted(cnt.items())]})
            # the same over calls with different seeds
            one = jax.jit(lambda k: hi.random_state(k, 1, dtype=np.uint8))
            xs2 = np.concatenate([np.asarray(one(jax.random.PRNGKey(s))) for s in range(200)])
            cnt = Counter(map(tuple, xs2.tolist()))
            if K <= 20:
                ev.append({"op": "frequencies", "n": 200, "counts": [[list(map(int, k)), c] for k, c in sorted(cnt.items())]})
            if K <= 12:
                pr = Counter((tuple(a), tuple(b)) for a, b in zip(xs[0::2].tolist(), xs[1::2].tolist()))
                ev.append({"op": "pair frequencies", "n": len(xs) // 2, "counts": [[list(a), list(b), c] for (a, b), c in sorted(pr.items())]})
            many = jax.jit(lambda k: hi.random_state(k, 40, dtype=np.uint8))
            a, b, c = (np.asarray(many(jax.random.PRNGKey(s))) for s in (5, 5, 6))
            d = np.asarray(hi.random_state(jax.random.PRNGKey(5), 40, dtype=np.uint8))
            ev.append({"op": "stream", "same": bool((a == d).all()), "wantsame": True})
            ev.append({"op": "stream", "same": bool((a == b).all()), "wantsame": True})
            if K > 1:
                ev.append({"op": "stream", "same": bool((a == c).all()), "wantsame": False})
        rec.case(f"random-{L}-{nu}-{nd}", cfg, rand)


if __name__ == "__main__":
    main(run)
