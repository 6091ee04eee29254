"""Process set-up shared by every check: isolation of the sandbox, import of litdata from /repo, import of hypothesis.

Import this module before torch / litdata.
"""

import glob
import os
import shutil
import sys
import tempfile
import zipfile

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VERIF_REPO", "/repo")
REPO_SRC = os.path.join(REPO, "src")


def _scratch() -> str:
    base = os.environ.get("VERIF_SCRATCH")
    if base and os.path.isdir(base):
        return base
    root = "/dev/shm" if os.path.isdir("/dev/shm") and os.access("/dev/shm", os.W_OK) else "/tmp"
    st = os.statvfs(root)
    if st.f_bavail * st.f_frsize < 2 << 30:
        root = "/tmp"
    base = tempfile.mkdtemp(prefix="verif-", dir=root)
    os.environ["VERIF_SCRATCH"] = base
    os.environ["VERIF_SCRATCH_OWNER"] = str(os.getpid())
    return base


def setup_env() -> str:
    base = _scratch()
    mine = os.path.join(base, f"p{os.getpid()}")
    for sub in ("home", "tmp", "opt_cache", "opt_data"):
        os.makedirs(os.path.join(mine, sub), exist_ok=True)
    env = os.environ
    for k in list(env):
        if k.startswith(("DATA_OPTIMIZER_", "LIGHTNING_")) or k in (
            "WORLD_SIZE", "GLOBAL_RANK", "NNODES", "LOCAL_RANK", "RANK", "NODE_RANK", "MAX_CACHE_SIZE", "DEBUG_LITDATA",
            "MASTER_ADDR", "MASTER_PORT", "AWS_SHARED_CREDENTIALS_FILE",
        ):
            del env[k]
    env["HOME"] = os.path.join(mine, "home")
    env["TMPDIR"] = os.path.join(mine, "tmp")
    tempfile.tempdir = None
    env["DATA_OPTIMIZER_CACHE_FOLDER"] = os.path.join(mine, "opt_cache")
    env["DATA_OPTIMIZER_DATA_CACHE_FOLDER"] = os.path.join(mine, "opt_data")
    env.setdefault("OMP_NUM_THREADS", "1")
    env.setdefault("MKL_NUM_THREADS", "1")
    env["POLARS_MAX_THREADS"] = "1"
    env["ARROW_NUM_THREADS"] = "1"
    env["LC_ALL"] = "C.UTF-8"
    env["HF_HUB_OFFLINE"] = "1"
    env["AWS_EC2_METADATA_DISABLED"] = "true"
    env["CUDA_VISIBLE_DEVICES"] = ""
    env["PYTHONDONTWRITEBYTECODE"] = "1"
    env["TOKENIZERS_PARALLELISM"] = "false"
    env["DISABLE_S5CMD"] = "1"
    sys.dont_write_bytecode = True
    return mine


def cleanup_scratch() -> None:
    base = os.environ.get("VERIF_SCRATCH")
    if base and os.environ.get("VERIF_SCRATCH_OWNER") == str(os.getpid()) and os.path.basename(base).startswith("verif-"):
        shutil.rmtree(base, ignore_errors=True)


def ensure_hypothesis() -> None:
    try:
        import hypothesis  # noqa: F401

        return
    except ImportError:
        pass
    deps = os.path.join(VERIF, ".deps")
    if not os.path.isdir(os.path.join(deps, "hypothesis")):
        install_deps(deps)
    sys.path.append(deps)
    import hypothesis  # noqa: F401


def install_deps(deps: str) -> None:
    """Unpack the two wheels the framework needs (hypothesis, sortedcontainers) from the offline wheelhouse."""
    wheels = "/opt/veriftools/wheels"
    tag = f"cp{sys.version_info.major}{sys.version_info.minor}"
    want = sorted(glob.glob(f"{wheels}/hypothesis-*-{tag}-{tag}-*x86_64.whl"))[-1:] + sorted(
        glob.glob(f"{wheels}/hypothesis-*-py3-none-any.whl"))[-1:]
    want = want[:1] + sorted(glob.glob(f"{wheels}/sortedcontainers-*.whl"))[-1:]
    tmp = tempfile.mkdtemp(prefix=".deps-", dir=os.path.dirname(deps))
    for w in want:
        with zipfile.ZipFile(w) as z:
            z.extractall(tmp)
    try:
        os.rename(tmp, deps)
    except OSError:
        shutil.rmtree(tmp, ignore_errors=True)


def import_litdata():
    if REPO_SRC not in sys.path:
        sys.path.insert(0, REPO_SRC)
    import warnings

    warnings.filterwarnings("ignore")
    import logging

    import litdata

    assert os.path.abspath(litdata.__file__).startswith(os.path.abspath(REPO_SRC)), litdata.__file__
    logging.getLogger("litdata").setLevel(logging.ERROR)
    return litdata
