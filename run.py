#!/usr/bin/env python3
"""Entry point of every check:  run.py <PROPERTY> [--tier quick|thorough] [--replay FILE]

Re-executes itself under the project's interpreter with a controlled environment: rebulk comes from /repo's working tree
(VERIF_REPO overrides it for development), sources are always compiled afresh (no stale bytecode), nothing is written in /repo.
"""
import os
import sys

HERE = os.path.dirname(os.path.abspath(__file__))
PY = "/opt/venv/bin/python"


def main():
    if os.environ.get("MC_CHILD") != "1":
        env = {k: v for k, v in os.environ.items() if not k.startswith("PYTHON")}
        repo = os.environ.get("VERIF_REPO", "/repo")
        seed = os.environ.get("VERIF_SEED", "1")
        env.update(
            MC_CHILD="1",
            PYTHONPATH=repo + os.pathsep + HERE,
            PYTHONDONTWRITEBYTECODE="1",
            PYTHONPYCACHEPREFIX="/nonexistent-mc-cache",
            # own the hash seed: explored behaviour must not depend on it, and a run is reproducible for a given VERIF_SEED
            PYTHONHASHSEED=str(int(seed) % 4294967295) if seed.lstrip("-").isdigit() else "1",
            PYTHONUTF8="1",
        )
        for name in ("REBULK_REGEX_ENABLED", "REBULK_CHECK_DECLARED_KEYS"):
            env.pop(name, None)
        py = PY if os.path.exists(PY) else sys.executable
        os.execve(py, [py, os.path.abspath(__file__)] + sys.argv[1:], env)
    sys.path.insert(0, HERE)
    from mc import core

    sys.exit(core.main(sys.argv[1:]))


main()
