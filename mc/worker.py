"""One worker process: explores its share of a property's space."""
import faulthandler
import importlib
import json
import os
import sys


def main():
    spec = json.load(open(sys.argv[1]))
    from mc import core
    os.chdir(spec["api"])
    sys.path.insert(0, spec["api"])
    journal = core.Journal(spec["journal"])
    replay = spec.get("replay")
    if replay:
        replay = (replay[0], core.tuplify(replay[1]))
    ctx = core.Ctx(spec["prop"], spec["tier"], spec["seed"], spec["shard"], spec["nshards"],
                   spec["tmp"], journal, spec["known"], replay)
    faulthandler.enable()
    journal.write("import", [])
    mod = importlib.import_module("mc.props." + spec["prop"].lower())
    try:
        mod.explore(ctx)
    except core.Stop:
        pass
    with open(spec["out"], "w") as f:
        json.dump(ctx.result(), f)
    sys.stdout.flush()
    os._exit(0)


if __name__ == "__main__":
    main()
