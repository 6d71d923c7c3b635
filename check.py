#!/usr/bin/env python3
"""python3 check.py <property> : decide one property of /repo's working tree.
python3 check.py <property> --replay <file> : run one recorded violation again."""
import importlib
import sys
import traceback

sys.path.insert(0, __file__.rsplit("/", 1)[0])
import vlib

MODULES = {
    "C01": "checks_changes", "C02": "checks_changes", "C03": "checks_changes",
    "C04": "checks_apply", "C05": "checks_apply", "C06": "checks_apply", "C07": "checks_apply",
    "C08": "checks_apply", "C09": "checks_apply", "C10": "checks_apply",
    "C21": "checks_dual", "C14": "checks_doc", "C15": "checks_doc",
    "C11": "checks_io", "C12": "checks_io", "C13": "checks_io",
    "C16": "checks_cli", "C17": "checks_cli", "C23": "checks_pair",
    "C22": "checks_same", "C24": "checks_any", "C18": "checks_uni", "C19": "checks_uni", "C20": "checks_uni",
}


def main():
    global vlib
    pid = sys.argv[1]
    try:
        if len(sys.argv) > 3 and sys.argv[2] == "--replay":
            import json
            import os
            d = json.load(open(sys.argv[3]))     # before the modules read the seed
            if not d.get("executor", "").startswith("exec_"):
                os.environ["VERIF_SEED"], os.environ["VERIF_TIER"] = str(d.get("seed", 1)), d.get("tier", "quick")
                vlib = importlib.reload(vlib)
            m = importlib.import_module(MODULES[pid])
            rc = vlib.replay(pid, sys.argv[3], lambda: m.run(pid))
        else:
            rc = importlib.import_module(MODULES[pid]).run(pid)
    except vlib.ToolError as e:
        print(f"{pid}: check error: {e}", file=sys.stderr)
        rc = 2
    except Exception:
        traceback.print_exc()
        rc = 2
    finally:
        vlib.cleanup()
    sys.exit(rc)


main()
