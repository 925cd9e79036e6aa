from c18 import *
from mpi import worker


def fn(p):
    warnings.simplefilter("ignore")
    dt = jnp.complex128 if p["cplx"] else jnp.float64
    rng = rng_for(p["seed"], "c18m", p["k"])
    vs, op = state(p["skind"], "s3", "one", dt, 8, 4, None, p["seed"], rng)
    ev = []
    record(ev, vs, p["skind"], p["impl"], p["mode"], 0.25, 0.0625, rng, dt, None, ["dense", "mv"])
    return {"np": int(vs.n_parameters), "xs": ev[0]["xs"], "w": ev[0].get("w"), "ev": ev}


worker(fn)
