import importlib, os, sys


def main(argv):
    if argv and argv[0] == "--replay":
        from . import core
        return core.replay(argv[1])
    if not argv:
        print("usage: check ID [quick|thorough] | check --replay FILE")
        return 2
    pid = argv[0]
    tier = argv[1] if len(argv) > 1 else os.environ.get("VERIF_TIER", "quick")
    seed = int(os.environ.get("VERIF_SEED", "1") or "1")
    from . import core
    import sldr
    if not os.path.realpath(sldr.__file__).startswith(os.path.realpath(core.LIB)):
        print("ERROR: wrong sldr", sldr.__file__)
        return 2
    mod = importlib.import_module("vmon.checks." + pid)
    return core.run_property(mod, tier, seed)


if __name__ == "__main__":
    sys.exit(main(sys.argv[1:]))
