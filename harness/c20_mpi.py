from supervised import *
from mpi import worker


def fn(p):
    from mpi4py import MPI
    k = MPI.COMM_WORLD.Get_rank()
    e = np.array(p["re"]) + 1j * np.array(p["im"]) if p["cplx"] else np.array(p["re"])
    c = Case(p["cls"], e, expand=p["expand"], bias=p["bias"], noise=0.25, alpha=0.75)
    lo, hi = (0, p["split"][0]) if k == 0 else (p["split"][0], len(p["conf"]))
    conf = np.array(p["conf"])[lo:hi]
    y = (np.array(p["yre"]) + 1j * np.array(p["yim"]) if p["cplx"] else np.array(p["yre"]))[lo:hi]
    t = np.array(p["t"])[lo:hi]
    out, bias = [], []
    for r in p["refs"]:
        c.fit([], conf, y, r, t=t)
        out.append([np.real(c.l.epsilon).tolist(), np.imag(c.l.epsilon).tolist()])
        b = complex(np.asarray(c.l.bias).reshape(-1)[0])
        bias.append([b.real, b.imag])
    return {"eps": out, "bias": bias}


worker(fn)
