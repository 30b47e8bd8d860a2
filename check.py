#!/usr/bin/env python3
"""check.py <PROPERTY> [--tier quick|thorough]

Decides one property from the source under /repo (or $VERIF_REPO) without running it.
Exit 0: the rules held on everything analysed.  Exit 1: a VIOLATION line was printed.
Exit 2: the analysis itself is broken (anchors gone)."""
import os
import sys

if os.environ.get("PYTHONHASHSEED") != "0":
    os.environ["PYTHONHASHSEED"] = "0"
    os.execv(sys.executable, [sys.executable, "-B"] + sys.argv)
sys.dont_write_bytecode = True
sys.setrecursionlimit(30000)
HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)

import threading

from sa import engine

if __name__ == "__main__":
    args = [a for a in sys.argv[1:] if not a.startswith("--")]
    tier = os.environ.get("VERIF_TIER", "quick")
    if "--tier" in sys.argv:
        tier = sys.argv[sys.argv.index("--tier") + 1]
        args = [a for a in args if a != tier]
    if len(args) != 1 or tier not in ("quick", "thorough"):
        print(__doc__)
        sys.exit(2)
    rc = [2]

    def run():
        rc[0] = engine.check(args[0], tier, HERE)

    threading.stack_size(512 * 1024 * 1024)
    t = threading.Thread(target=run)
    t.start()
    t.join()
    sys.stdout.flush()
    sys.exit(rc[0])
