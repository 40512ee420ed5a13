"""Import the code under test from /repo's working tree (never a stale byte code file)."""
import os
import sys
import tempfile

os.environ.setdefault("OMP_NUM_THREADS", "1")
sys.dont_write_bytecode = True
REPO = os.environ.get("VERIF_REPO", "/repo")


def load():
    import cadquery  # noqa: F401  (third party byte code caches stay usable)
    import numpy  # noqa: F401
    import pyclipper  # noqa: F401
    import shapely  # noqa: F401

    # no cached byte code for anything imported from here on
    sys.pycache_prefix = tempfile.gettempdir() + f"/vf-nocache-{os.getpid()}"
    src = os.path.join(REPO, "src")
    sys.path.insert(0, src)
    import cq_cam

    where = os.path.realpath(cq_cam.__file__)
    if not where.startswith(os.path.realpath(src) + os.sep):
        raise SystemExit(f"cq_cam was imported from {where}, not from {src}")
    import logging

    logging.getLogger("cq_cam").setLevel(logging.CRITICAL)
    return cq_cam
