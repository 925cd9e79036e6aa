"""Run a worker of the harness on several MPI ranks; rank r writes JSON to <out>.r."""
import json, os, subprocess, sys, tempfile, shutil

PY = sys.executable


def clean_env():
    """The parent may itself have initialised MPI (importing netket does)."""
    return {k: v for k, v in os.environ.items() if not k.startswith(("OMPI_", "PMIX_", "PRTE_"))}



def available(_cache={}):
    if "ok" not in _cache:
        try:
            r = subprocess.run(["mpirun", "-n", "2", "--allow-run-as-root", "--oversubscribe", PY, "-c",
                                "from mpi4py import MPI; import sys; sys.stdout.write(str(MPI.COMM_WORLD.allreduce(1)))"], capture_output=True, text=True, timeout=120, env=clean_env())
            _cache["ok"] = r.returncode == 0 and "22" in r.stdout
        except Exception:
            _cache["ok"] = False
    return _cache["ok"]


def mpi_run(n, script, payload, timeout=300):
    """List with the JSON of each rank; raises RuntimeError with the output if a rank fails."""
    d = tempfile.mkdtemp(prefix="verifmpi")
    try:
        json.dump(payload, open(os.path.join(d, "in.json"), "w"))
        env = dict(clean_env(), MPI4JAX_NO_WARN_JAX_VERSION="1", NETKET_SPIN_ORDERING_WARNING="0", PYTHONDONTWRITEBYTECODE="1")
        pr = subprocess.Popen(["mpirun", "-n", str(n), "--allow-run-as-root", "--oversubscribe", PY, os.path.join(os.path.dirname(os.path.abspath(__file__)), script), d],
                              stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, env=env)
        try:
            out, err = pr.communicate(timeout=timeout)
        except subprocess.TimeoutExpired:
            pr.terminate()          # mpirun ends its ranks
            try:
                pr.communicate(timeout=15)
            except subprocess.TimeoutExpired:
                pr.kill()
                pr.communicate()
            raise RuntimeError("mpirun: no result, the processes wait for each other")
        outs = [os.path.join(d, f"out.{k}") for k in range(n)]
        if pr.returncode != 0 or not all(os.path.exists(o) for o in outs):
            raise RuntimeError("mpirun: " + (out + err)[-600:])
        return [json.load(open(o)) for o in outs]
    finally:
        shutil.rmtree(d, ignore_errors=True)


def worker(fn):
    """Entry point of a worker script: fn(payload) -> JSON-able."""
    d = sys.argv[1]
    from mpi4py import MPI
    k = MPI.COMM_WORLD.Get_rank()
    res = fn(json.load(open(os.path.join(d, "in.json"))))
    json.dump(res, open(os.path.join(d, f"out.{k}"), "w"))
