"""check.py PROPERTY [quick|thorough]    decide one property
   check.py --replay FILE                re-run one reported behaviour"""
import os, sys

sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import engine  # noqa: E402


def main(argv):
    if argv[:1] == ["--replay"]:
        return engine.replay_file(argv[1])
    import props
    tier = argv[1] if len(argv) > 1 else os.environ.get("VERIF_TIER", "quick")
    seed = int(os.environ.get("VERIF_SEED", "1"))
    return engine.decide(argv[0], props.PROPS[argv[0]], tier, seed)


if __name__ == "__main__":
    try:
        rc = main(sys.argv[1:])
    except Exception:
        import traceback
        traceback.print_exc()
        rc = 2
    sys.stdout.flush()
    sys.exit(rc)
