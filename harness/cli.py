import os
import sys
import traceback


def main():
    from harness import bootstrap

    bootstrap.ensure()
    import warnings

    warnings.simplefilter("ignore")
    from harness import core

    args = sys.argv[1:]
    if args[:1] == ["--replay"]:
        return core.main_replay(args[1])
    tier = args[1] if len(args) > 1 else os.environ.get("VERIF_TIER", "quick")
    return core.main_check(args[0].upper(), tier, int(os.environ.get("VERIF_SEED", "1")))


if __name__ == "__main__":
    try:
        code = main()
    except Exception:
        traceback.print_exc()
        code = 2
    sys.stdout.flush()
    sys.exit(code)
