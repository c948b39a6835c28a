#!/usr/bin/env python3
"""usage: check.py PROPERTY [--tier quick|thorough] [--replay FILE] [--runs N] [--jobs N] [--seed N]

Exit 0: the property held on everything explored; exit 1 with a VIOLATION line:
it is broken; anything else: the check itself failed.
"""

import os
import sys

if os.path.exists("/opt/venv/bin/python") and not sys.prefix.startswith("/opt/venv"):
    os.execv("/opt/venv/bin/python", ["/opt/venv/bin/python"] + sys.argv)

sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import dst.env  # noqa: E402  (before numpy)

if os.environ.get("PYTHONHASHSEED") is None:
    os.environ["PYTHONHASHSEED"] = "0"
    os.execv(sys.executable, [sys.executable] + sys.argv)

import argparse  # noqa: E402
import importlib  # noqa: E402
import warnings  # noqa: E402


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("property")
    ap.add_argument("--selftest", action="store_true")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"))
    ap.add_argument("--replay")
    ap.add_argument("--runs", type=int)
    ap.add_argument("--wall", type=float)
    ap.add_argument("--jobs", type=int, default=8)
    ap.add_argument("--seed", type=int, default=int(os.environ.get("VERIF_SEED", "1")))
    args = ap.parse_args()

    warnings.simplefilter("ignore")
    if not args.selftest:  # seams first: some modules replace functions the package may import
        prop = importlib.import_module(f"dst.props.{args.property.lower()}")
    import opinf

    if not os.path.realpath(opinf.__file__).startswith(os.path.realpath(dst.env.SRC)):
        print(f"opinf imported from {opinf.__file__}")
        return 72
    from dst import engine

    if args.selftest:
        names = sorted(f[:-3] for f in os.listdir(os.path.join(dst.env.VERIF, "dst", "props")) if f[0] not in "_." and f.endswith(".py"))
        for name in names:
            importlib.import_module(f"dst.props.{name}")
        print("imported", " ".join(names))
        return 0
    if args.replay:
        return engine.replay(prop, args.replay)
    return engine.check(
        prop, args.seed, args.tier, args.runs, args.jobs, args.wall
    )


if __name__ == "__main__":
    try:
        code = main()
    except SystemExit:
        raise
    except BaseException:
        import traceback

        traceback.print_exc()
        code = 73
    sys.stdout.flush()
    sys.stderr.flush()
    os._exit(code)
