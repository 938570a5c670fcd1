"""One worker process: runs the shard of one section and dumps what it saw."""
import faulthandler
import importlib
import os
import sys
import traceback

import warnings

from harness.core import Worker


def main():
    pid, tier, seed, name, shard, nshards, n, out = sys.argv[1:9]
    only = int(sys.argv[9]) if len(sys.argv) > 9 else None
    faulthandler.enable()
    warnings.simplefilter("ignore")
    sys.setrecursionlimit(5000)
    w = Worker(pid, tier, int(seed))
    try:
        mod = importlib.import_module(f"harness.checks.{pid.lower()}")
        section = next(s for s in mod.SECTIONS if s.name == name)
        w.run(section, int(n), int(shard), int(nshards), only)
    except BaseException:
        w.error = traceback.format_exc()[-4000:]
    w.dump(out)
    sys.stdout.flush()
    os._exit(0)


main()
