"""Common to C16, C17, C18: small states with Gaussian process wavefunctions (one or two parameter leaves)."""
from models import *

jax, jnp, nk = jx()
import flax.linen as fnn
from GPSKet.models import qGPS


class Two(fnn.Module):
    """Product of two Gaussian process states: the same formula with the support dimensions joined, two parameter leaves."""
    a: fnn.Module
    b: fnn.Module

    @fnn.compact
    def __call__(self, x):
        return self.a(x) + self.b(x)


class Cplx(fnn.Module):
    """The same state with a complex data type for its (real) log-amplitudes."""
    a: fnn.Module

    @fnn.compact
    def __call__(self, x):
        return self.a(x) * (1.0 + 0.0j)


def model(kind, hi, dt):
    if kind == "two":
        return Two(qGPS(hi, 1, dtype=dt), qGPS(hi, 2, dtype=dt))
    if kind == "cplx":
        return Cplx(qGPS(hi, 2, dtype=dt))
    return qGPS(hi, 2, dtype=dt)


def eps_of(tree):
    """Parameters (or anything of their structure) as one array [d][m][i]."""
    if "epsilon" in tree:
        return np.asarray(tree["epsilon"])
    if "b" in tree:
        return np.concatenate([np.asarray(tree["a"]["epsilon"]), np.asarray(tree["b"]["epsilon"])], axis=1)
    return np.asarray(tree["a"]["epsilon"])


def tree_of(arr, like):
    if "epsilon" in like:
        return {"epsilon": jnp.asarray(arr, dtype=like["epsilon"].dtype)}
    if "b" in like:
        m = like["a"]["epsilon"].shape[1]
        return {"a": {"epsilon": jnp.asarray(arr[:, :m])}, "b": {"epsilon": jnp.asarray(arr[:, m:])}}
    return {"a": {"epsilon": jnp.asarray(arr)}}


def to01(xs):
    return [[int((v + 1) // 2) for v in r] for r in ints(np.asarray(xs).reshape(-1, np.asarray(xs).shape[-1]))]


def dense_rows(op):
    M = op.to_dense()
    st = to01(op.hilbert.all_states())
    return [[st[k], [[st[j], cnum(M[k, j])] for j in np.nonzero(np.abs(M[k]) > 1e-14)[0]]] for k in range(M.shape[0])]


def space(name):
    if name == "s3":
        hi = nk.hilbert.Spin(0.5, N=3)
        g = nk.graph.Chain(3)
        return hi, nk.operator.Ising(hi, g, h=1.5) + nk.operator.spin.sigmay(hi, 0) * nk.operator.spin.sigmay(hi, 2) * 0.5, nk.sampler.MetropolisLocal
    if name == "s4":
        hi = nk.hilbert.Spin(0.5, N=4, total_sz=0)
        return hi, nk.operator.Heisenberg(hi, nk.graph.Chain(4)), lambda h, **k: nk.sampler.MetropolisExchange(h, graph=nk.graph.Chain(4), d_max=2, **k)


def mc(name, kind, dt, n, chains, chunk, seed, rng, cls=None, scale=24, **kw):
    hi, op, smp = space(name)
    sa = smp(hi, n_chains=chains, dtype=float)
    vs = (cls or nk.vqs.MCState)(sa, model(kind, hi, dt), n_samples=n, seed=1, sampler_seed=seed, n_discard_per_chain=3, **kw)
    vs.parameters = rand_params(vs.parameters, rng, scale=scale)
    vs.chunk_size = chunk
    return vs, op
