#!/usr/bin/env python3
"""check.py ID [--setup]: decides one property (see DESIGN.md).

exit 0: held on everything explored; 1: VIOLATION line printed; 2: no answer.
"""
import json, os, re, sys, time, traceback
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "lib"))


def main():
    if len(sys.argv) < 2:
        print(__doc__); return 2
    pid = sys.argv[1]
    os.environ["CHECK_ID"] = pid
    import runner, checks
    if pid == "--setup":
        return checks.setup()
    tier = os.environ.get("VERIF_TIER", "quick")
    if tier not in ("quick", "thorough"):
        tier = "quick"
    try:
        seed = int(os.environ.get("VERIF_SEED", "1"))
    except ValueError:
        seed = 1
    try:
        return checks.run(pid, tier, seed)
    except runner.CheckError as e:
        print("CHECK ERROR (no answer): %s" % e)
        return 2
    except Exception:
        traceback.print_exc()
        return 2
    finally:
        runner.cleanup()


if __name__ == "__main__":
    sys.exit(main())
