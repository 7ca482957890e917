import importlib, os, sys, traceback


def main():
    prop = sys.argv[1]
    tier = sys.argv[2] if len(sys.argv) > 2 else os.environ.get("VERIF_TIER", "quick")
    from .core import Report, Enough
    rep = Report(prop, tier)
    mod = importlib.import_module("checks." + prop.lower())
    try:
        mod.run(rep, tier)
    except Enough:
        pass
    except SystemExit:
        raise
    except BaseException:
        traceback.print_exc()
        print(f"HARNESS ERROR in {prop}")
        sys.exit(3)
    sys.exit(rep.finish())


main()
