#!/usr/bin/env python3
"""check.py PROPERTY: decide one property from the current source of /repo."""
import importlib
import os
import sys

HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, os.path.join(HERE, "lib"))
sys.path.insert(0, os.path.join(HERE, "props"))
sys.dont_write_bytecode = True


def main():
    pid = sys.argv[1]
    tier = os.environ.get("VERIF_TIER", "quick")
    seed = int(os.environ.get("VERIF_SEED", "1"))
    sys.setrecursionlimit(200000)
    from checker import Checker
    from engine import MissingAnchor
    c = Checker(pid, tier, seed)
    mod = importlib.import_module(pid)
    try:
        mod.check(c)
    except MissingAnchor as e:
        c.add("anchor", "undecided", f"anchor vanished: {e}")
    except Exception as e:  # noqa: BLE001  (source the analysis does not understand proves nothing)
        c.add("analysis", "undecided", f"analysis failed: {type(e).__name__} {e}")
    return c.finish()


if __name__ == "__main__":
    import threading
    threading.stack_size(512 * 1024 * 1024)
    rc = []
    t = threading.Thread(target=lambda: rc.append(main()))
    t.start()
    t.join()
    sys.exit(rc[0] if rc else 3)
