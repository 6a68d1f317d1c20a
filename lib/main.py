import os
import sys

from lib.core import run_check


def main(argv):
    prop = argv[0]
    tier = argv[1] if len(argv) > 1 and not argv[1].startswith("--") else os.environ.get("VERIF_TIER", "quick")
    replay = argv[argv.index("--replay") + 1] if "--replay" in argv else None
    seed = int(os.environ.get("VERIF_SEED", "1"))
    return run_check(f"checks.{prop.lower()}", tier, seed, replay)


if __name__ == "__main__":
    sys.exit(main(sys.argv[1:]))
