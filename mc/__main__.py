import json
import os
import sys


def main():
    from . import core

    args = sys.argv[1:]

    if args[0] == "replay":
        os.environ.update(core.ENV)

        with open(args[1]) as f:
            data = json.load(f)

        core.check_import()
        mod = core.load(data["property"])
        results = []

        for _ in range(2):  # the same case has to fail every time
            results.append(core.run_one(mod, data["case"], core.Rec(getattr(mod, "PURITY", False))))

        print(json.dumps(data["case"]))
        print(results)
        return 1 if results[0] is not None else 0

    pid = args[0]
    tier = args[1] if len(args) > 1 else os.environ.get("VERIF_TIER", "quick")

    return core.main(pid, tier)


if __name__ == "__main__":
    sys.exit(main())
