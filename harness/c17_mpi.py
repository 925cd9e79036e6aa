from c17 import *
from mpi import worker


def fn(p):
    warnings.simplefilter("ignore")
    dt = jnp.complex128 if p["cplx"] else jnp.float64
    kw, cls = {}, None
    if p["uq"]:
        from GPSKet.vqs import MCStateUniqueSamples
        cls = MCStateUniqueSamples
        kw = dict(batch_size=12, max_sampling_steps=p["uq"])
    vs, op = mc("s3", "one", dt, p["n"], p["chains"], p["chunk"], p["seed"], rng_for(p["seed"], "c17m", p["k"]), cls=cls, **kw)
    dr, dp, xs, w, st = observe(vs, op, p["mode"])
    eps = eps_of(vs.parameters)
    return {"np": int(vs.n_parameters), "xs": np.asarray(xs).tolist(), "w": None if w is None else np.asarray(w).tolist(), "re": eps.real.tolist(), "im": eps.imag.tolist(),
            "dre": dp.real.tolist(), "dim": dp.imag.tolist(), "mean": [float(np.real(st.mean)), float(np.imag(st.mean))], "var": float(np.real(st.variance))}


worker(fn)
