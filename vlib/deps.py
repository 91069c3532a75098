"""Makes hypothesis importable, offline, without touching the repo's venv."""
import atexit
import glob
import os
import shutil
import sys
import tempfile
import zipfile

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
WHEELS = "/opt/veriftools/wheels"
NEED = ["hypothesis", "sortedcontainers"]


def unpack(target):
    tag = "cp%d%d" % sys.version_info[:2]
    for name in NEED:
        found = sorted(glob.glob(os.path.join(WHEELS, name + "-*.whl")))
        pick = [f for f in found if tag + "-" in f] or [
            f for f in found if "none-any" in f
        ]
        if not pick:
            raise RuntimeError("no wheel for " + name)
        with zipfile.ZipFile(pick[-1]) as z:
            z.extractall(target)


def ensure():
    target = os.path.join(HERE, ".deps")
    if not os.path.isdir(os.path.join(target, "hypothesis")):
        target = tempfile.mkdtemp(prefix="rascal_verif_deps_")
        pid = os.getpid()

        def clean():
            if os.getpid() == pid:
                shutil.rmtree(target, ignore_errors=True)

        atexit.register(clean)
        unpack(target)
    # after the venv, so that nothing of it is shadowed
    sys.path.append(target)
    import hypothesis  # noqa: F401


if __name__ == "__main__":
    t = os.path.join(HERE, ".deps")
    shutil.rmtree(t, ignore_errors=True)
    tmp = tempfile.mkdtemp(dir=HERE, prefix=".deps_tmp")
    unpack(tmp)
    os.rename(tmp, t)
    print("unpacked", os.listdir(t))
