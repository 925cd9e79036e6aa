"""C23: evidence, its derivatives, and hyperparameter optimisation."""
from supervised import *
from c20 import confs_of, CLS


def setup(c, conf, y, r, t, zero=None, prior=0.0):
    kw = {}
    if t is not None:
        kw["weightings"] = np.array(t, dtype=float)
    if prior:
        kw["prior_mean"] = prior
    c.l.setup_fit(conf, c.target(y, zero), r, **kw)


def evidence(rec, k, cls, cplx, expand, bias):
    rng = rng_for(rec.seed, "c23e", k)
    d, m, l = [(2, 2, 3), (2, 1, 4), (3, 1, 3)][k % 3]
    if expand and m * d > 3:
        d, m, l = 2, 1, 4
    iterative = cls == "exp" and k % 5 == 4
    noise = float(rng.choice([0.25, 0.0625, 1.5]))
    c = Case(cls, params(rng, (d, m, l), cplx), expand=expand, bias=bias, noise=noise, alpha=0.75, iterative=iterative)

    def go(ev):
        conf = confs_of(rng, d, l, int(rng.integers(4, 8)), 1 + (k % 4 == 3))
        n = len(conf)
        if k % 5 == 1:
            conf = conf.copy()
            conf[:, 0] = 0
        y = targets(rng, n, cplx)
        if k % 3:
            c.set_alpha(2.0 ** rng.integers(-3, 3, c.alpha.shape), 2.0 ** rng.integers(-3, 3, c.abias.shape))
        if k % 7 == 5:
            c.set_alpha(np.where(rng.random(c.alpha.shape) < 0.3, np.inf, 1.25))
        t = None if k % 2 else rng.integers(1, 9, n) / 4
        zero = rng.random(n) < 0.3 if cls == "exp" and k % 4 == 2 and not iterative else None
        prior = 0.5 if k % 6 == 3 else 0.0
        r = int(rng.integers(l))
        setup(c, conf, y, r, t, zero, prior)
        e = c.data(conf, y, t, zero, prior, noise)
        e.update(c.reg(r), op="evid", refs=c.refs(r), lml=num(c.l.log_marg_lik()))
        na = len(e["alpha"])
        at = sorted(set([0, na - 1, int(rng.integers(na))]))
        da = np.asarray(c.l.log_marg_lik_alpha_der())
        e["at"], e["da"] = [v + 1 for v in at], [num(da[v]) for v in at]
        e["dn"] = num(c.l.log_marg_lik_noise_der())
        ev.append(e)
    rec.case(f"evidence-{cls}-{'c' if cplx else 'r'}{'x' if expand else ''}{'b' if bias else ''}{'i' if iterative else ''}-{k}", c.cfg, go)


def growing(rec, k, cls, cplx, expand, bias):
    rng = rng_for(rec.seed, "c23g", k)
    shape = (2, 1, 4) if expand else (2, 2, 3)
    c = Case(cls, params(rng, shape, cplx), expand=expand, bias=bias, noise=0.25, alpha=0.75)

    def go(ev):
        conf = confs_of(rng, 2, shape[2], 7)
        y = targets(rng, len(conf), cplx)
        if k % 2 == 0:
            c.set_alpha(np.full(c.alpha.shape, np.inf), np.full(c.abias.shape, np.inf))
        t = rng.integers(1, 5, len(conf)) / 2 if k % 3 == 0 else None
        kw = {} if t is None else {"weightings": t}
        start = np.array(c.l.epsilon)
        path = []
        for step in range(7):
            c.l.epsilon = start   # growing only changes the reference site: start from the same features again
            c.l.fit_step_growing_RVM(conf, c.target(y), 1, 1 if step else 0, **kw)
            path.append(c.reg(1, c.l.alpha_mat, c.l.alpha_bias))
        e = c.data(conf, y, t, None, 0.0, 0.25)
        e.update(op="grow", refs=c.refs(1), path=path)
        ev.append(e)
    rec.case(f"grow-{cls}-{'c' if cplx else 'r'}{'x' if expand else ''}{'b' if bias else ''}-{k}", c.cfg, go)


def optimise(rec, k, cls, cplx, expand, bias):
    """Optimised hyperparameters are stationary points of the evidence."""
    rng = rng_for(rec.seed, "c23o", k)
    c = Case(cls, params(rng, (2, 1, 4), cplx), expand=expand, bias=bias, noise=0.25, alpha=0.75)

    def go(ev):
        conf = confs_of(rng, 2, 4, 9)
        eps = np.array(c.l.epsilon)
        # data of the model itself plus noise, so that the optimum is finite
        lat = rng.normal(size=eps.shape) + (1j * rng.normal(size=eps.shape) if cplx else 0)
        e2 = eps.copy()
        e2[:, :, 1] = lat[:, :, 1]
        y = np.array([np.prod([e2[x[j], 0, j] for j in range(4)]) for x in conf])
        y = y + 0.5 * (rng.normal(size=9) + (1j * rng.normal(size=9) if cplx else 0))
        y = np.round(y * 64) / 64
        if cplx:
            y = y.real + 1j * np.clip(y.imag, -3, 3)
        what = [("alpha",), ("noise",), ("alpha", "noise"), ("each",)][k % 4]
        if cls == "exp" and what == ("alpha", "noise"):
            what = ("noise",)   # the two are optimised in turn, each for itself
        t = rng.integers(1, 9, 9) / 4 if k % 3 == 0 else None
        kw = {} if t is None else {"weightings": t}
        if cls == "exp":
            kw["max_alpha_iterations"] = 20000
            if "noise" in what:
                kw["noise_bounds"] = [(np.log(1e-6), np.log(1e4))]
        else:
            kw["max_alpha_beta_iterations"] = 20000
        n0 = c.l.noise_tilde
        c.l.fit_step(conf, c.target(y), 1, opt_alpha="alpha" in what or "each" in what, opt_noise="noise" in what, rvm="each" in what, **kw)
        e = c.data(conf, y, t, None, 0.0, c.l.noise_tilde)
        e.update(c.reg(1, np.asarray(c.l.alpha_mat), np.asarray(c.l.alpha_bias)), op="opt", refs=c.refs(1))
        if what == ("noise",):
            e["from"] = num(n0)
        fin = 1e-5 < c.l.noise_tilde < 1e3
        a = np.array([float(Fraction(v)) for v in e["alpha"]])
        fin = fin and not any(e["inf"]) and (a < 1e6).all() and (a > 1e-6).all()
        e["wrt"] = list(what) if fin or what == ("each",) else []
        if what == ("each",):
            # parameters running to infinity stop at the cut-off
            e["inf"] = [bool(i or v > 1e6) for i, v in zip(e["inf"], a)]
        ev.append(e)
    rec.case(f"optimise-{cls}-{'c' if cplx else 'r'}{'x' if expand else ''}{'b' if bias else ''}-{k}", c.cfg, go)


def run(rec):
    kinds = [(cls, cplx, ex, b) for b in (False, True) for cls in ("exp", "log") for cplx, ex in ((False, False), (True, False), (True, True))]
    for r in range(24 if rec.thorough else 4):
        for j, kd in enumerate(kinds):
            evidence(rec, r * 13 + j, *kd)
    for r in range(10 if rec.thorough else 2):
        for j, kd in enumerate(kinds):
            growing(rec, r * 13 + j, *kd)
    for r in range(10 if rec.thorough else 4):
        for j, kd in enumerate(kinds):
            optimise(rec, r * 13 + j, *kd)


if __name__ == "__main__":
    main(run)
