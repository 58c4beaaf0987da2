#!/usr/bin/env python3
"""run.py <property>            runs the check of a property (tier: VERIF_TIER)
   run.py --replay <file>       re-executes a recorded violation
   run.py --setup               builds the engine
"""
import json
import os
import sys
import traceback

sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from checks import lib, registry  # noqa: E402


def main():
    if len(sys.argv) >= 2 and sys.argv[1] == "--setup":
        registry.setup()
        return 0
    if len(sys.argv) >= 3 and sys.argv[1] == "--replay":
        return registry.replay(json.load(open(sys.argv[2])))
    pid = sys.argv[1]
    level, fn = registry.CHECKS[pid]
    rep = lib.Report(pid, level)
    try:
        try:
            fn(rep)
        except lib.Found:
            pass
        return rep.finish()
    except lib.build.BuildError as e:
        print(f"{pid}: the repository does not build: {e}", file=sys.stderr)
        return 3
    except lib.CheckError as e:
        print(f"{pid}: check could not be carried out: {e}", file=sys.stderr)
        return 4
    except Exception:
        traceback.print_exc()
        return 5
    finally:
        rep.close()


if __name__ == "__main__":
    sys.exit(main())
