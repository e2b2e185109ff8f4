"""Builds the LD_PRELOAD shim from vf/fi.c (idempotent; used by setup_cmd and lazily)."""
import os
import subprocess
import hashlib
import tempfile

HERE = os.path.dirname(os.path.abspath(__file__))


def ensure():
    src = os.path.join(HERE, "fi.c")
    with open(src, "rb") as f:
        h = hashlib.sha1(f.read()).hexdigest()[:12]
    for base in (os.path.join(os.path.dirname(HERE), "build"), os.path.join(tempfile.gettempdir(), "vf-build")):
        so = os.path.join(base, "libfi-%s.so" % h)
        if os.path.exists(so):
            return so
        try:
            os.makedirs(base, exist_ok=True)
            tmp = so + ".%d.tmp" % os.getpid()
            subprocess.run(["gcc", "-O2", "-fPIC", "-shared", "-o", tmp, src, "-ldl"], check=True)
            os.rename(tmp, so)
            return so
        except OSError:
            continue
    raise SystemExit("cannot build the shim")


if __name__ == "__main__":
    print(ensure())
