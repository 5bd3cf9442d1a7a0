#!/usr/bin/env python3
"""check.py <property id> [--tier quick|thorough]: decides one property against /repo's tree.
Exit 0: it held on everything explored; 1: a VIOLATION line; 2: no verdict."""
import importlib, os, sys, traceback

sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "lib"))
import core


def main():
    pid = sys.argv[1]
    tier = os.environ.get("VERIF_TIER", "quick")
    if "--tier" in sys.argv:
        tier = sys.argv[sys.argv.index("--tier") + 1]
    seed = int(os.environ.get("VERIF_SEED", "1"))
    import checks
    ck = core.Check(pid, tier, seed)
    try:
        checks.CHECKS[pid](ck)
    except core.ToolError as e:
        if ck.violations:
            sys.exit(ck.finish())
        print(f"ERROR property={pid}: {e}", file=sys.stderr)
        sys.exit(2)
    except Exception:
        traceback.print_exc()
        sys.exit(2)
    finally:
        import shutil
        shutil.rmtree(ck.scratch, ignore_errors=True)
    sys.exit(ck.finish())


if __name__ == "__main__":
    main()
