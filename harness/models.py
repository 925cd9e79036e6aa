"""Wavefunctions of the library with random dyadic parameters, and Monte Carlo states holding given samples."""
from common import *
import numpy as np


def jx():
    import jax, jax.numpy as jnp, netket as nk
    jax.config.update("jax_enable_x64", True)
    return jax, jnp, nk


def rand_params(tree, rng, scale=16, around=None):
    """Replace every leaf by random small dyadic numbers (complex where the leaf is complex)."""
    jax, jnp, nk = jx()

    def leaf(p):
        a = dyadic(rng, p.shape, scale)
        if jnp.iscomplexobj(p):
            a = a + 1j * dyadic(rng, p.shape, scale)
        if around is not None:
            a = around + a / 8
        return jnp.asarray(a, dtype=p.dtype)
    return jax.tree_util.tree_map(leaf, tree)


def state_with(model, hilbert, xs, params=None, rng=None, chains=1, cls=None, chunk=None, around=None, dtype=None):
    """An MCState whose samples are exactly xs."""
    jax, jnp, nk = jx()
    fermi = "Fermionic" in type(hilbert).__name__
    sa = nk.sampler.MetropolisLocal(hilbert, n_chains=chains, dtype=dtype or (np.uint8 if fermi else float))
    cls = cls or nk.vqs.MCState
    vs = cls(sa, model, n_samples=chains, seed=1, sampler_seed=2)
    if params is None:
        params = rand_params(vs.parameters, rng, around=around)
    vs.parameters = params
    set_samples(vs, xs, chains)
    vs.chunk_size = chunk
    return vs


def set_samples(vs, xs, chains=1):
    jax, jnp, nk = jx()
    a = np.asarray(xs)
    dt = getattr(vs.sampler, "dtype", float)
    vs._samples = jnp.asarray(a.reshape(chains, a.shape[0] // chains, a.shape[1]), dtype=dt)


def table(vs, xs):
    """<<x, amplitude>> for fresh evaluations."""
    amp = np.exp(np.asarray(vs.log_value(np.asarray(xs)), dtype=complex))
    return [[ints(x), cnum(a)] for x, a in zip(xs, amp)]


def logtable(vs, xs):
    lg = np.asarray(vs.log_value(np.asarray(xs)), dtype=complex)
    return [[ints(x), cnum(a)] for x, a in zip(xs, lg)]
