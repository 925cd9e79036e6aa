"""C20: fit steps with fixed hyperparameters."""
from supervised import *
import mpi


def confs_of(rng, d, l, n, ncopies=1):
    allc = np.array(np.unravel_index(np.arange(d**l), (d,) * l)).T
    c = allc[rng.permutation(len(allc))[: min(n, len(allc))]]
    if ncopies == 1:
        return c
    return np.stack([np.roll(c, k, axis=1) for k in range(ncopies)], axis=-1)


def random_case(rec, k, cls, cplx, expand, bias):
    rng = rng_for(rec.seed, "c20", k, cls)
    d, m, l = [(2, 2, 3), (2, 1, 4), (3, 1, 3), (4, 1, 2), (2, 2, 4)][k % 5]
    if cls == "newton":
        d, m, l = [(2, 1, 3), (2, 2, 3), (3, 1, 3)][k % 3]
    noise = float(rng.choice([0.25, 1e-2, 2.0]))
    iterative = cls == "exp" and k % 7 == 3
    if cls == "newton":
        e = params(rng, (d, m, l), cplx) / 8 + 0.5
        noise = 0.25
    else:
        e = params(rng, (d, m, l), cplx, zeros=k % 2)
    c = Case(cls, e, expand=expand, bias=bias, noise=noise, alpha=0.75, iterative=iterative)

    def go(ev):
        n = int(rng.integers(3, 8))
        ncop = 1 + (k % 3 == 2)
        conf = confs_of(rng, d, l, n, ncop)
        if k % 4 == 1:
            conf = conf.copy()
            conf[:, rng.integers(l)] = 0    # features of the other local states vanish
        n = len(conf)
        y = targets(rng, n, cplx)
        if cls == "newton":
            y = y / 4
            if cplx:
                y = y.real + 1j * y.imag / 4
        if k % 3 == 1:
            c.set_alpha(2.0 ** rng.integers(-3, 3, c.alpha.shape), 2.0 ** rng.integers(-3, 3, c.abias.shape))
        if k % 5 == 2:
            a = np.where(rng.random(c.alpha.shape) < 0.3, np.inf, 1.25)
            c.set_alpha(a, np.where(rng.random(c.abias.shape) < 0.3, np.inf, 0.5))
        t = None if k % 2 else rng.integers(1, 9, n) / 4
        zero = None
        if cls == "exp" and k % 6 in (1, 4) and not iterative:
            zero = rng.random(n) < 0.3
        prior = [0.0, 0.5, -0.25][k % 3] if k % 2 == 0 else 0.0
        rw = None
        if cls == "exp" and k % 8 == 5 and not iterative:
            rw = rng.integers(1, 9, n) / 4
            c.l.noise_reweighting = rw.copy()
        if cls == "exp" and k % 9 == 7 and zero is None and not iterative:
            c.l.noise_tilde = 0.0
        for step in range(3):
            refs = int(rng.integers(l)) if step % 2 == 0 else rng.integers(0, l, m)
            c.fit(ev, conf, y, refs, t=t, zero=zero, prior=prior, rw=rw)
            if cls != "newton" or step == 0:
                c.predict(ev, conf)
            if cls == "newton" and not np.isfinite(np.asarray(c.l.epsilon)).all():
                break
    rec.case(f"{cls}-{'c' if cplx else 'r'}{'x' if expand else ''}{'b' if bias else ''}-{k}", c.cfg, go)


def growing(rec, k, cls, cplx, expand, bias):
    """Parameters after growing the relevance set solve the equations of the final regularisation."""
    rng = rng_for(rec.seed, "c20g", k)
    c = Case(cls, params(rng, (2, 2, 3), cplx), expand=expand, bias=bias, noise=0.25, alpha=0.75)

    def go(ev):
        conf = confs_of(rng, 2, 3, 7)
        y = targets(rng, len(conf), cplx)
        prior = 0.0 if k % 2 else 0.5
        if k % 3 == 0:
            c.set_alpha(np.full(c.alpha.shape, np.inf), np.full(c.abias.shape, np.inf))
        t = None if k % 2 else rng.integers(1, 5, len(conf)) / 2
        for step, r in enumerate((1, 0, 1)):
            before = c.data(conf, y, t, None, prior, c.l.noise_tilde)
            kw = {} if t is None else {"weightings": t.copy()}
            c.l.fit_step_growing_RVM(conf, c.target(y), r, [2, 1, 4][step], prior_mean=prior, **kw)
            before.update(c.reg(r, c.l.alpha_mat, c.l.alpha_bias), op="fit", refs=c.refs(r), after=c.eps, bias=cnum(complex(np.asarray(c.l.bias).reshape(-1)[0])) if bias else ["0", "0"])
            ev.append(before)
            c.predict(ev, conf)
    rec.case(f"grow-{cls}-{'c' if cplx else 'r'}{'x' if expand else ''}{'b' if bias else ''}-{k}", c.cfg, go)


def given(rec, k, cls, cplx, expand):
    """Precomputed features: the weights solve the same equations and no parameter changes."""
    rng = rng_for(rec.seed, "c20p", k)
    e = params(rng, (2, 2, 3), cplx)
    K = params(rng, (6, 3), cplx)
    if k % 2:
        K[:, 1] = 0
    l = CLS[cls](e, init_alpha=0.75, init_noise_tilde=0.25, complex_expand=expand, K=K.copy())
    cfg = {"cls": cls, "cplx": bool(cplx), "expand": bool(expand and cplx), "bias": False, "tol": "1/100000000", "eps0": cnums(e)}

    def go(ev):
        y = targets(rng, 6, cplx)
        t = rng.integers(1, 9, 6) / 4
        conf = np.zeros((6, 3), dtype=int)
        a = np.exp(y) if cls == "exp" else np.array(y)
        l.fit_step(conf, a.astype(complex) if cplx else a, 0, opt_alpha=False, opt_noise=False, weightings=t.copy())
        n = 3 * (2 if expand and cplx else 1)
        ev.append({"op": "weights", "given": cnums(K), "x": cnums(l.weights), "y": cnums(y), "t": nums(t), "zero": [False] * 6, "prior": ["0", "0"], "noise": num(0.25), "iter": False, "rw": nums(np.ones(6)),
                   "alpha": nums(np.full(n, 0.75)), "inf": [False] * n})
        ev.append({"op": "assign", "eps": cnums(e), "got": cnums(l.epsilon)})
    rec.case(f"given-{cls}-{'c' if cplx else 'r'}{'x' if expand else ''}-{k}", cfg, go)


def degenerate(rec, k, cls, cplx, expand):
    """Linearly dependent features without regularisation: the equations are singular (exactly, in floating point) but have solutions."""
    rng = rng_for(rec.seed, "c20d", k)
    z = [1.0, 1.0j, -1.0, -1.0j] if cplx else [1.0, -1.0, 1.0, -1.0]
    e = np.ones((2, 2, 3), dtype=complex if cplx else float)
    for i in range(3):    # the support points differ in phases only
        e[:, 0, i] = z[(k + i) % 4]
        e[:, 1, i] = z[(3 * k + 2 * i) % 4]
    c = Case(cls, e, expand=expand, noise=1.0, alpha=0.0)

    def go(ev):
        conf = confs_of(rng, 2, 3, 8)
        if cls == "exp":
            c.l.noise_tilde = 0.0
        y = targets(rng, 8, cplx)
        c.fit(ev, conf, y, k % 3)
    rec.case(f"degenerate-{cls}-{'c' if cplx else 'r'}{'x' if expand else ''}-{k}", c.cfg, go)


def mpi_case(rec, k, cls, cplx, expand, bias):
    if not mpi.available():
        return
    rng = rng_for(rec.seed, "c20m", k)
    e = params(rng, (2, 2, 3), cplx)
    c = Case(cls, e, expand=expand, bias=bias, noise=0.25, alpha=0.75)

    def go(ev):
        conf = confs_of(rng, 2, 3, 8)
        if k % 2 == 1 or cls == "newton":   # features that vanish on one of the processes
            conf = conf[np.argsort(conf[:, 0], kind="stable")]
        y = targets(rng, 8, cplx)
        if cls == "newton":
            y = y / 8
        t = rng.integers(1, 9, 8) / 4
        refs = [0, 2]
        outs = mpi.mpi_run(2, "c20_mpi.py", {"cls": cls, "cplx": bool(cplx), "expand": bool(expand), "bias": bool(bias), "re": e.real.tolist(), "im": e.imag.tolist(), "conf": conf.tolist(),
                                             "yre": y.real.tolist(), "yim": np.imag(y).tolist(), "t": t.tolist(), "refs": refs, "split": [4, 4] if k % 2 == 1 or cls == "newton" else [3, 5]})
        for step, r in enumerate(refs):
            a, b = [np.array(o["eps"][step][0]) + 1j * np.array(o["eps"][step][1]) for o in outs]
            ev.append({"op": "same", "a": cnums(a), "b": cnums(b)})
            d = c.data(conf, y, t, None, 0.0, 0.25)
            d.update(c.reg(r), op="fit", refs=c.refs(r), after=cnums(a), bias=cnum(complex(*outs[0]["bias"][step])) if bias else ["0", "0"])
            ev.append(d)
    rec.case(f"mpi-{cls}-{'c' if cplx else 'r'}{'x' if expand else ''}{'b' if bias else ''}-{k}", c.cfg, go)


def run(rec):
    kinds = [(cls, cplx, ex, b) for b in (False, True) for cls in ("exp", "log") for cplx, ex in ((False, False), (True, False), (True, True))]
    kinds += [("newton", cp, cp, b) for b in (False, True) for cp in (False, True)]
    for r in range(60 if rec.thorough else 8):
        for j, kd in enumerate(kinds):
            random_case(rec, r * 11 + j, *kd)
    for r in range(12 if rec.thorough else 2):
        for j, kd in enumerate(kinds[:12]):
            growing(rec, r * 13 + j, *kd)
    for k, (cls, cplx, ex) in enumerate([(cls, cp, ex) for cls in ("exp", "log") for cp, ex in ((False, False), (True, False), (True, True))] * 2):
        given(rec, k, cls, cplx, ex)
    for k, (cls, cplx, ex) in enumerate([(cls, cp, ex) for cls in ("exp", "log") for cp, ex in ((False, False), (True, False), (True, True))] * 2):
        degenerate(rec, k, cls, cplx, ex)
    for k, kd in enumerate([kinds[1], kinds[3], kinds[8], kinds[12], kinds[15]] if not rec.thorough else kinds):
        mpi_case(rec, k, *kd)


if __name__ == "__main__":
    main(run)
