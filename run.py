#!/usr/bin/env python3-vt
"""Entry point: run.py <ID> [--tier quick|thorough] [--replay FILE] [--shards N] [--scale F] [--only SECTION]"""
import os
import sys

HERE = os.path.dirname(os.path.abspath(__file__))
WANT_ENV = {"PYTHONHASHSEED": "0", "PYTHONDONTWRITEBYTECODE": "1"}


def main():
    env = dict(os.environ)
    changed = False
    for k, v in WANT_ENV.items():
        if env.get(k) != v:
            env[k] = v
            changed = True
    # checks that need the file-system shim have it preloaded into the whole process
    cid = next((a for a in sys.argv[1:] if a and a[0] == "C"), None)
    needs_shim = cid in ("C02", "C13", "C18", "C27")
    if needs_shim and "VF_SHIM" not in env:
        sys.path.insert(0, HERE)
        from vf import shimbuild
        so = shimbuild.ensure()
        env["VF_SHIM"] = so
        env["LD_PRELOAD"] = (env["LD_PRELOAD"] + ":" if env.get("LD_PRELOAD") else "") + so
        changed = True
    if changed and env.get("VF_REEXEC") != "1":
        env["VF_REEXEC"] = "1"
        os.execve(sys.executable, [sys.executable] + sys.argv, env)
    sys.path.insert(0, HERE)
    from vf import engine
    sys.exit(engine.main(sys.argv[1:]))


if __name__ == "__main__":
    main()
