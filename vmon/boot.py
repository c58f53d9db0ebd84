"""Environment of a worker process: imports the code under test from the repository's working tree."""
import os
import sys

REPO = os.environ.get("VMON_REPO", "/repo")
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))


def worker_env(x64: bool, devices: int = 1) -> dict:
    env = dict(os.environ)
    for k in ("PYTHONPATH", "XLA_FLAGS", "JAX_ENABLE_CHECKS", "JAX_DISABLE_JIT", "JAX_DEBUG_NANS",
              "JAX_CHECK_TRACER_LEAKS"):
        env.pop(k, None)
    env.update(JAX_PLATFORMS="cpu", PYTHONDONTWRITEBYTECODE="1", PYTHONPYCACHEPREFIX="/nonexistent",
               PYTHONHASHSEED="0", OMP_NUM_THREADS="1", OPENBLAS_NUM_THREADS="1",
               XLA_FLAGS=(f"--xla_force_host_platform_device_count={devices} " if devices > 1 else "")
               + "--xla_cpu_multi_thread_eigen=false intra_op_parallelism_threads=1",
               TF_CPP_MIN_LOG_LEVEL="3",
               JAX_ENABLE_X64="1" if x64 else "0")
    return env


def import_subject():
    """Import src.jax_act from REPO, and make sure that is where it came from."""
    sys.dont_write_bytecode = True
    sys.path.insert(0, REPO)
    import src.jax_act as pkg
    got = os.path.realpath(pkg.__file__)
    if not got.startswith(os.path.realpath(REPO) + os.sep):
        raise RuntimeError(f"imported {got}, not from {REPO}")
    return pkg
