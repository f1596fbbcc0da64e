#!/usr/bin/env python3
"""run.py PROPERTY quick|thorough  -  decide one property on /repo's working tree.
Exit 0: held; exit 1 with a VIOLATION line: broken; any other exit: the check itself failed."""
import os, sys, importlib, traceback
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "lib"))
sys.dont_write_bytecode = True
import vt

MODULES = {
    "C01": "c_lexer", "C02": "c_lexer", "C03": "c_lexer", "C04": "c_lexer", "C05": "c_handler", **{"C%02d" % i: "c_eval" for i in range(6, 16)},
    **{c: "c_model" for c in ("C17", "C21", "C22", "C23")}, "C16": "c_engine", "C18": "c_store", "C24": "c_json", "C25": "c_overlay", "C26": "c_transient", "C27": "c_debug", "C28": "c_own", "C19": "c_store", "C20": "c_store",
}

def main():
    prop = sys.argv[1]
    tier = sys.argv[2] if len(sys.argv) > 2 else os.environ.get("VERIF_TIER", "quick")
    try:
        ck = vt.Check(prop, tier)
        importlib.import_module(MODULES[prop]).run(ck)
        return ck.finish()
    except vt.ToolError as e:
        print("CHECK ERROR:", e)
        return 3
    except Exception:
        traceback.print_exc()
        return 3

if __name__ == "__main__":
    sys.stdout.reconfigure(line_buffering=True)
    sys.exit(main())
