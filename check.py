#!/usr/bin/env python3
"""check.py PROPERTY quick|thorough     run a check
   check.py replay FILE                 run a replay file again"""
import importlib, json, os, sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
sys.dont_write_bytecode = True
VENV = "/opt/vp/venv/bin/python"


def main():
    a = sys.argv[1:]
    if a[0] == "replay":
        prop, rest = json.load(open(a[1]))["property"], ["replay", a[1]]
    else:
        prop, rest = a[0], a[1:]
    mod = importlib.import_module("props." + prop.lower())
    if getattr(mod, "VENV", False) and os.path.exists(VENV) and os.path.realpath(sys.prefix) != "/opt/vp/venv" and not os.environ.get("VSIM_VENV"):
        os.environ["VSIM_VENV"] = "1"
        os.execv(VENV, [VENV, os.path.abspath(__file__)] + a)
    from vsim import core
    return core.main(mod, rest)


if __name__ == "__main__":
    sys.exit(main())
