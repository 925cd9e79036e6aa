"""Shared by all drivers: exact number encoding, case recording, sharding."""
import argparse, contextlib, io, json, math, os, sys, time, traceback
from fractions import Fraction

os.environ.setdefault("NETKET_SPIN_ORDERING_WARNING", "0")
os.environ.setdefault("MPI4JAX_NO_WARN_JAX_VERSION", "1")
os.environ.setdefault("XLA_FLAGS", "--xla_cpu_multi_thread_eigen=false intra_op_parallelism_threads=1")
os.environ.setdefault("OMP_NUM_THREADS", "1")
os.environ.setdefault("OPENBLAS_NUM_THREADS", "1")
os.environ.setdefault("NUMBA_NUM_THREADS", "1")

REPO = os.environ.get("VERIF_REPO", "/repo")
sys.path.insert(0, REPO)
sys.dont_write_bytecode = True


def num(x):
    """Exact rational string of a real number ("nan" for anything not finite)."""
    if isinstance(x, (int,)) and not isinstance(x, bool):
        return str(x)
    x = float(x)
    if not math.isfinite(x):
        return "nan"
    f = Fraction(x)
    return str(f.numerator) if f.denominator == 1 else f"{f.numerator}/{f.denominator}"


def cnum(z):
    z = complex(z)
    return [num(z.real), num(z.imag)]


def nums(a):
    """Nested lists of exact real numbers."""
    import numpy as np
    a = np.asarray(a)
    if a.ndim == 0:
        return num(a.item())
    return [nums(b) for b in a]


def cnums(a):
    import numpy as np
    a = np.asarray(a)
    if a.ndim == 0:
        return cnum(a.item())
    return [cnums(b) for b in a]


def ints(a):
    import numpy as np
    a = np.asarray(a)
    if a.ndim == 0:
        v = a.item()
        r = int(round(float(v.real if isinstance(v, complex) else v)))
        return r
    return [ints(b) for b in a]


class Recorder:
    def __init__(self, out, tier, seed, shard, nshards, inputs):
        self.f = open(out, "w")
        self.tier, self.seed, self.shard, self.nshards = tier, seed, shard, nshards
        self.inputs = inputs
        self.k = -1
        self.n = 0

    @property
    def thorough(self):
        return self.tier == "thorough"

    def mine(self):
        """Round-robin distribution of cases over the shards."""
        self.k += 1
        return self.k % self.nshards == self.shard

    def case(self, cid, cfg, build):
        """build(ev) appends events; an exception of the code under test becomes an event."""
        if not self.mine():
            return
        ev = []
        t0 = time.time()
        with open(self.f.name + ".cur", "w") as fc:   # names the case if the process crashes
            fc.write(cid)
        buf = io.StringIO()
        try:
            with contextlib.redirect_stdout(buf):
                build(ev)
        except Exception as e:  # noqa: an exception is an observation, not an error of the check
            tb = traceback.extract_tb(e.__traceback__)
            if not any(REPO in (fr.filename or "") for fr in tb) and isinstance(e, HarnessError):
                raise
            where = [f"{os.path.basename(fr.filename)}:{fr.name}" for fr in tb][-3:]
            ev.append({"op": "error", "err": f"{type(e).__name__} in {'>'.join(where)}: {str(e)[:160]}".replace("\n", " ").replace('"', "'")})
        self.f.write(json.dumps({"id": cid, "cfg": cfg, "ev": ev, "wall": int(1000 * (time.time() - t0))}) + "\n")
        self.f.flush()
        self.n += 1
        if "jax" in sys.modules and self.n % 8 == 0:
            sys.modules["jax"].clear_caches()


class HarnessError(Exception):
    pass


def rng_for(*key):
    import numpy as np, zlib
    return np.random.default_rng(zlib.crc32(repr(key).encode()))


def dyadic(rng, shape, scale=16, lo=-24, hi=24, nonzero=True):
    """Random small dyadic rationals k/scale (exactly representable)."""
    import numpy as np
    a = rng.integers(lo, hi + 1, size=shape)
    if nonzero:
        a = np.where(a == 0, 7, a)
    return a / scale


def main(fn):
    ap = argparse.ArgumentParser()
    ap.add_argument("--out", required=True)
    ap.add_argument("--tier", default="quick")
    ap.add_argument("--seed", type=int, default=1)
    ap.add_argument("--shard", default="0/1")
    ap.add_argument("--behaviours", default=None)
    a = ap.parse_args()
    s, n = map(int, a.shard.split("/"))
    beh = []
    if a.behaviours and os.path.exists(a.behaviours):
        beh = [json.loads(x) for x in open(a.behaviours)]
    rec = Recorder(a.out, a.tier, a.seed, s, n, beh)
    fn(rec)
    rec.f.close()
