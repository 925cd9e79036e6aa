from c22 import *
from mpi import worker


def fn(p):
    hi, m = build(p["kind"], p["L"], p["sector"], 1)
    params = m.init(jax.random.PRNGKey(0), np.asarray(hi.all_states())[:1])["params"]
    flat, un = jax.flatten_util.ravel_pytree(params)
    new = np.array(p["pre"]) + 1j * np.array(p["pim"])
    params = un(jnp.asarray(new if jnp.iscomplexobj(flat) else new.real))
    ys = np.array(p["re"]) + 1j * np.array(p["im"])
    dr = driver(hi, m, params, np.array(p["xs"]), ys, p["lr"], p["mb"], p["seed"])
    return steps(dr, p["steps"], "advance")


worker(fn)
