"""C19: histories of features, predictions, fits, assignments and resets."""
from supervised import *

D, M, L = 2, 2, 3


def bits(k):
    return [(k >> i) & 1 for i in range(L)]


def data_set(n):
    ks = {1: [1, 2, 3, 0], 2: [1, 3, 2], 3: [1, 2, 3, 7], 4: [2, 0, 3, 1], 5: [2, 1, 3]}[n]
    if n in (2, 5):
        return np.array([[[bits(k)[i], bits(k)[L - 1 - i]] for i in range(L)] for k in ks])
    return np.array([bits(k) for k in ks])


PAT = {1: [0.5, -1, 2, 0.75, 1, -1.5, 1.25], 2: [1, 0, -0.5, 1.5, 0, 2], 3: [0, 1, -1, 0.25]}


def table(n, cplx):
    p = PAT[n if n < 4 else 1]
    e = np.array([[[p[((d - 1) * 3 + (w - 1) * 5 + i) % len(p)] for i in range(1, L + 1)] for w in range(1, M + 1)] for d in range(1, D + 1)], dtype=float)
    if n > 3:
        e[1, 0, L - 1] += 2.0**-21 if n == 4 else 1.5
    return e * (1 + 0.5j) if cplx else e


def replay(ev, c, steps, cplx, rng):
    """Drive the learner through a behaviour of the specification."""
    bufset, bufref = {}, np.zeros(M, dtype=int)
    for s in steps:
        conf = data_set(s["set"])
        refs = np.array(s["refs"]) - 1
        if s["buf"]:
            # the caller reuses its own arrays
            key = conf.shape
            b = bufset.setdefault(key, np.zeros(key, dtype=int))
            b[...] = conf
            conf = b
            bufref[...] = refs
            refs = bufref
        elif (refs == refs[0]).all() and rng.integers(2):
            refs = int(refs[0])
        if s["op"] == "features":
            c.features(ev, conf, refs)
        elif s["op"] == "predict":
            c.predict(ev, conf)
        elif s["op"] == "assign":
            e = table(s["tab"], cplx)
            c.l.epsilon = e
            ev.append({"op": "assign", "eps": cnums(e), "got": c.eps})
        elif s["op"] == "reset":
            c.l.reset()
        elif s["op"] == "fit":
            # infinite regularisation: the fit writes the prior mean
            c.set_alpha(np.full(c.alpha.shape, np.inf), np.full(c.abias.shape, np.inf))
            c.fit(ev, conf, targets(rng, len(conf), cplx), refs, prior=float(Fraction(s["v"])))
        elif s["op"] == "free":
            c.set_alpha(np.full(c.alpha.shape, 0.5), np.full(c.abias.shape, 0.5))
            c.fit(ev, conf, targets(rng, len(conf), cplx), refs)


def run(rec):
    variants = [("exp", False, False, False), ("exp", True, False, True), ("log", False, False, True), ("exp", True, True, True), ("log", True, True, False), ("newton", False, False, False), ("log", True, False, False)]
    for k, b in enumerate(rec.inputs):
        b = b["beh"]
        cls, cplx, expand, bias = variants[k % len(variants)]
        steps = b["steps"]
        if cls == "newton":   # Newton steps from these tables overflow: keep the scripted part of the history
            steps = [s for s in steps if s["op"] != "free"]

        rng = rng_for(rec.seed, "c19", k)
        c = Case(cls, table(1, cplx), expand=expand, bias=bias)

        def go(ev):
            replay(ev, c, steps, cplx, rng)
            c.predict(ev, data_set(1 + k % 5))
        rec.case(f"history-{cls}-{'c' if cplx else 'r'}{'x' if expand else ''}{'b' if bias else ''}-{k}", c.cfg, go)
    # longer random walks over larger tables: refs move one support index at a time, parameters drift through fits
    for k in range(40 if rec.thorough else 8):
        rng = rng_for(rec.seed, "c19w", k)
        cls, cplx, expand, bias = variants[k % len(variants)]
        if cls == "newton":
            cls = "exp"
        d, m, l = [(2, 3, 4), (3, 2, 4), (4, 2, 3), (2, 1, 5)][k % 4]
        c = Case(cls, params(rng, (d, m, l), cplx, zeros=k % 3), expand=expand, bias=bias, alpha=0.5)

        def go(ev):
            sets = [rng.integers(0, d, (5, l)), rng.integers(0, d, (5, l)), rng.integers(0, d, (4, l, 2))]
            ys = [targets(rng, len(s), cplx) for s in sets]
            refs = rng.integers(0, l, m)
            for step in range(12):
                refs = refs.copy()
                refs[rng.integers(m)] = rng.integers(l)
                j = int(rng.integers(3)) if step % 3 == 0 else 0
                if step % 4 == 3:
                    c.fit(ev, sets[j], ys[j], refs)
                else:
                    c.features(ev, sets[j], refs)
                if step % 5 == 4:
                    c.predict(ev, sets[int(rng.integers(3))])
        rec.case(f"walk-{cls}-{d}{m}{l}-{k}", c.cfg, go)
    # parameters replaced by ones that differ in a single entry, by a lot or by very little
    for k in range(60 if rec.thorough else 14):
        rng = rng_for(rec.seed, "c19n", k)
        cls, cplx, expand, bias = variants[k % len(variants)]
        d, m, l = [(2, 2, 3), (3, 1, 4), (2, 3, 4)][k % 3]
        c = Case(cls, params(rng, (d, m, l), cplx), expand=expand, bias=bias, alpha=0.5)

        def go(ev):
            sets = [rng.integers(0, d, (6, l)), rng.integers(0, d, (5, l, 2))]
            refs = rng.integers(0, l, m)
            for step in range(6):
                conf = sets[(k + step // 3) % 2]
                c.features(ev, conf, refs)
                e = np.array(c.l.epsilon)
                w = int(rng.integers(m))
                i = int((refs[w] + 1 + rng.integers(l - 1)) % l)
                x = int(conf.reshape(len(conf), l, -1)[0, i, 0])
                e[x, w, i] *= [1 + 2.0**-20, -1, 1 + 2.0**-22, 1 + 2.0**-10, 1 - 2.0**-19, 2][(step + k) % 6]
                c.l.epsilon = e
                ev.append({"op": "assign", "eps": cnums(e), "got": c.eps})
                if step % 2:
                    c.predict(ev, conf)
                else:
                    c.features(ev, conf, refs)
        rec.case(f"nudge-{cls}-{'c' if cplx else 'r'}{'x' if expand else ''}{'b' if bias else ''}-{k}", c.cfg, go)
    # all moves of the reference site, starting from every zero pattern of one configuration's factors
    for k, (zs, cplx, cop) in enumerate([(z, cp, co) for z in range(8) for cp in (False, True) for co in (1, 2)]):
        rng = rng_for(rec.seed, "c19z", k)
        e = params(rng, (2, 1, 3), cplx)
        for i in range(3):
            if (zs >> i) & 1:
                e[rng.integers(2), 0, i] = 0
        c = Case("exp", e)

        def go(ev):
            conf = np.array([bits(q) for q in range(8)])
            if cop == 2:
                conf = np.stack([conf, np.roll(conf, 1 + k % 2, axis=1)], axis=-1)
            for r in (0, 1, 0, 2, 1, 2, 0):
                c.features(ev, conf, r)
            c.predict(ev, conf)
            for r in (1, 2, 0):
                c.fit(ev, conf, targets(rng, 8, cplx), r)
                c.predict(ev, conf)
        rec.case(f"zeros-{zs}-{'c' if cplx else 'r'}-{cop}", c.cfg, go)


if __name__ == "__main__":
    main(run)
