"""Process set-up: solver bindings, jax in float64 on cpu, astrodynx from /repo's working tree."""
import os
import sys
import types

REPO = os.environ.get("VERIF_REPO", "/repo")
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
VT = "/opt/veriftools/pyvenv/lib/python3.12/site-packages"


def paths():
    os.environ.setdefault("JAX_PLATFORMS", "cpu")
    os.environ.setdefault("XLA_FLAGS", "--xla_cpu_multi_thread_eigen=false intra_op_parallelism_threads=1")
    sys.dont_write_bytecode = True
    src = os.path.join(REPO, "src")
    if src not in sys.path:
        sys.path.insert(0, src)
    if HERE not in sys.path:
        sys.path.insert(0, HERE)
    if VT not in sys.path:
        sys.path.append(VT)
    sys.setrecursionlimit(20000)


def load(x64=True):
    paths()
    if not os.path.exists(os.path.join(REPO, "src/astrodynx/_version.py")):
        m = types.ModuleType("astrodynx._version")
        m.version = m.__version__ = "0"
        m.version_tuple = m.__version_tuple__ = (0,)
        sys.modules["astrodynx._version"] = m
    import jax
    jax.config.update("jax_enable_x64", x64)
    import astrodynx
    f = os.path.realpath(astrodynx.__file__)
    assert f.startswith(os.path.realpath(os.path.join(REPO, "src"))), f
    return astrodynx
