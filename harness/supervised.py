"""Shared by the supervised-learning drivers."""
from common import *
import warnings
import numpy as np
warnings.simplefilter("ignore")
from GPSKet.supervised.supervised_qgps import QGPSLearningExp, QGPSLogSpaceFit, QGPSGenLinMod

CLS = {"exp": QGPSLearningExp, "log": QGPSLogSpaceFit, "newton": QGPSGenLinMod}


class Case:
    """A learner together with the regularisation and data the harness intends it to use."""

    def __init__(self, cls, eps, expand=False, bias=False, noise=0.25, alpha=1.0, iterative=False, tol="1/100000000"):
        self.kind, self.expand, self.bias, self.iterative = cls, expand, bias, iterative
        self.cplx = eps.dtype == complex
        kw = dict(init_alpha=alpha, init_noise_tilde=noise, include_bias=bias)
        if cls != "newton":
            kw["complex_expand"] = expand
        if iterative:
            kw["iterative_noise_est"] = True
        self.l = CLS[cls](eps, **kw)
        self.cfg = {"cls": cls, "cplx": bool(self.cplx), "expand": bool(expand and self.cplx), "bias": bool(bias), "tol": tol, "eps0": cnums(eps)}
        self.D, self.M, self.L = eps.shape
        nf = self.D * self.M * (2 if expand and self.cplx else 1)
        self.alpha = np.full((self.L, nf), float(alpha))
        self.abias = np.full(2 if expand and self.cplx else 1, float(alpha))

    @property
    def eps(self):
        return cnums(self.l.epsilon)

    def set_alpha(self, table, bias=None):
        self.alpha = np.array(table, dtype=float)
        self.l.alpha_mat = self.alpha.copy()
        if bias is not None:
            self.abias = np.array(bias, dtype=float)
            self.l.alpha_bias = self.abias.copy()

    def reg(self, refs, table=None, abias=None):
        """Regularisation of the weights in the order of the specification: features, bias (real, then imaginary parts)."""
        table = self.alpha if table is None else table
        abias = self.abias if abias is None else abias
        refs = np.broadcast_to(refs, (self.M,))
        nf = self.D * self.M
        out = []
        for part in range(table.shape[1] // nf):
            for w in range(self.M):
                for d in range(self.D):
                    out.append(table[refs[w], part * nf + w * self.D + d])
            if self.bias:
                out.append(abias[part])
        a = np.array(out)
        inf = a >= 1e10
        return {"alpha": nums(np.where(inf, 1.0, a)), "inf": [bool(v) for v in inf]}

    def refs(self, refs):
        return [int(r) + 1 for r in np.broadcast_to(refs, (self.M,))]

    def data(self, confs, y, t=None, zero=None, prior=0.0, noise=None, rw=None):
        n = len(confs)
        y = np.zeros(n) if y is None else y
        return {"set": copies(confs), "y": cnums(y), "t": nums(np.ones(n) if t is None else np.asarray(t, dtype=float)), "zero": [bool(v) for v in (np.zeros(n, bool) if zero is None else zero)],
                "prior": cnum(prior), "noise": num(noise), "iter": self.iterative, "rw": nums(np.ones(n) if rw is None else rw)}

    def target(self, y, zero=None):
        if self.kind == "log":
            return np.array(y)
        a = np.exp(y)
        if zero is not None:
            a = np.where(zero, 0.0, a)
        return a.astype(complex) if self.cplx else a

    def fit(self, ev, confs, y, refs, t=None, zero=None, prior=0.0, call=None, rw=None, **kw):
        d = self.data(confs, y, t, zero, prior, self.l.noise_tilde, rw)
        d.update(self.reg(refs), op="fit", refs=self.refs(refs))
        off = {"exp": dict(opt_alpha=False, opt_noise=False), "log": dict(opt_alpha=False, opt_noise=False), "newton": dict(opt_alpha=False, opt_beta=False)}[self.kind]
        off.update(kw)
        if t is not None:
            off["weightings"] = np.array(t, dtype=float)
        if prior:
            off["prior_mean"] = prior
        self.l.fit_step(confs, self.target(y, zero), refs, **off)
        d["after"] = self.eps
        d["bias"] = cnum(complex(np.asarray(self.l.bias).reshape(-1)[0])) if self.bias else ["0", "0"]
        ev.append(d)

    def predict(self, ev, confs):
        v = self.l.predict(confs)
        ev.append({"op": "predict", "set": copies(confs), "val": cnums(v), "got": self.eps})

    def features(self, ev, confs, refs):
        self.l.ref_sites = refs
        K = self.l.set_kernel_mat(confs)
        ev.append({"op": "features", "set": copies(confs), "refs": self.refs(refs), "K": cnums(K), "got": self.eps})


def copies(confs):
    c = np.asarray(confs)
    if c.ndim == 2:
        c = c[:, :, None]
    return [[[int(v) for v in c[i, :, k]] for k in range(c.shape[2])] for i in range(c.shape[0])]


def params(rng, shape, cplx, zeros=0):
    e = dyadic(rng, shape, scale=8, lo=-10, hi=10)
    if cplx:
        e = e + 1j * dyadic(rng, shape, scale=8, lo=-6, hi=6)
    e = e.astype(complex if cplx else float)
    for _ in range(zeros):
        e[tuple(rng.integers(0, s) for s in shape)] = 0
    return e


def targets(rng, n, cplx):
    y = dyadic(rng, n, scale=16, lo=-24, hi=24)
    return y + 1j * dyadic(rng, n, scale=16, lo=-32, hi=32) if cplx else y
