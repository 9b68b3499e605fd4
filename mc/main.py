"""python mc/main.py C01 quick|thorough    or    python mc/main.py replay F"""
import importlib
import json
import os
import sys
import traceback

sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
sys.dont_write_bytecode = True

import engine  # noqa: E402
from report import Run, Found  # noqa: E402

MODULES = {}
for mod, ids in (("chk_tree", "C01 C02 C03 C04 C18"),
                 ("chk_view", "C05 C06 C07 C08 C14 C17"),
                 ("chk_misc", "C09"),
                 ("chk_queue", "C10 C11"),
                 ("chk_model", "C12 C13"),
                 ("chk_notify", "C15 C16 C19 C23 C24"),
                 ("chk_gtk", "C20"),
                 ("chk_widget", "C21 C22 C25"),
                 ):
    for i in ids.split():
        MODULES[i] = mod


def main(argv):
    rep = None
    if argv[0] == "replay":
        rep = json.load(open(argv[1]))
        prop, tier = rep["property"], rep["tier"]
    else:
        prop = argv[0]
        tier = argv[1] if len(argv) > 1 else os.environ.get(
            "VERIF_TIER", "quick")
    run = Run(prop, tier, rep)
    mod = importlib.import_module(MODULES[prop])
    try:
        getattr(mod, prop)(run)
    except Found:
        pass
    engine.loud()
    if rep:
        if run.violation:
            print("reproduced: " + run.violation[2])
            return 1
        print("not reproduced")
        return 0
    run.finish("model_checking")
    if run.violation:
        part, hist, msg, path = run.violation
        print("part:    %s" % part)
        print("history: %s" % (json.dumps(engine.jsonable(hist)),))
        print("reason:  %s" % msg)
        print("VIOLATION property=%s replay=%s" % (prop, path))
        return 1
    print("%s: held on everything explored" % prop)
    return 0


if __name__ == "__main__":
    try:
        code = main(sys.argv[1:])
    except SystemExit as e:
        engine.loud()
        print(e)
        code = 2
    except BaseException:
        engine.loud()
        traceback.print_exc()
        code = 2
    sys.stdout.flush()
    sys.stderr.flush()
    os._exit(code)
