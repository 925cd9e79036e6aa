from optim import *
from mpi import worker
import warnings


def fn(p):
    warnings.simplefilter("ignore")
    from GPSKet.driver import VMC_SRRMSProp
    dt = jnp.complex128 if p["cplx"] else jnp.float64
    vs, op = mc(p["sp"], p["kind"], dt, p["n"], p["chains"], p["chunk"], p["seed"], rng_for(p["seed"], "c16m", p["k"]))
    log = []

    class Watched(VMC_SRRMSProp):
        def _forward_and_backward(self):
            dp = super()._forward_and_backward()
            log.append({"xs": to01(vs.samples), "eps": cnums(eps_of(vs.parameters)), "dp": cnums(eps_of(dp)), "mean": cnum(complex(self.energy.mean))})
            return dp
    dr = Watched(op, nk.optimizer.Sgd(p["lr"]), diag_shift=p["shift"], decay=p["decay"], eps=p["reg"], jacobian_mode=p["mode"], variational_state=vs,
                 linear_solver_fn=lambda A, b: jnp.linalg.solve(A, b))
    dr.run(p["steps"], out=(), show_progress=False)
    for j, s in enumerate(log):
        s["after"] = log[j + 1]["eps"] if j + 1 < len(log) else cnums(eps_of(vs.parameters))
    return {"np": int(vs.n_parameters), "H": dense_rows(op), "log": log}


worker(fn)
