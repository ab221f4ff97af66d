"""run.py Cnn [--tier quick|thorough] [--replay FILE]: run one check."""

import argparse
import importlib
import os
import signal
import sys
import traceback

sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
sys.dont_write_bytecode = True


def selftest():
    """setup_cmd: the reference model and the tools the checks need are in place."""
    from vf import env, forest

    f = forest.Forest.from_parents([(1, None), (2, 1), (3, 1), (4, None)])
    f.move(2, 4, "first-child")
    assert f.show() == "[1(3) 4(2)]", f.show()
    assert [len(forest.shapes(n)) for n in range(6)] == [1, 1, 2, 5, 14, 42]
    env.setup("sqlite")
    env.create_tables()
    assert os.path.exists("/usr/lib/postgresql/16/bin/initdb")
    print("ok")
    return 0


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("id", nargs="?")
    ap.add_argument("--selftest", action="store_true")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"))
    ap.add_argument("--replay")
    a = ap.parse_args()
    signal.signal(signal.SIGTERM, lambda *_: sys.exit(3))
    from vf import explore

    if a.selftest:
        return selftest()
    check = importlib.import_module(f"vf.checks.{a.id.lower()}")
    if a.replay:
        return explore.replay(check, a.replay)
    if hasattr(check, "main"):
        return check.main(a.tier, int(os.environ.get("VERIF_SEED", "1")))
    run = explore.Run(check, a.tier, int(os.environ.get("VERIF_SEED", "1")))
    run.go()
    return run.finish()


if __name__ == "__main__":
    try:
        rc = main()
    except SystemExit:
        raise
    except BaseException:
        traceback.print_exc()
        rc = 2
    sys.stdout.flush()
    sys.exit(rc)
