#!/usr/bin/env python3
"""check.py <property id> - decides one property; see DESIGN.md."""
import importlib, os, sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from vlib import core
MODULES = {}
for i in range(1, 9): MODULES["C%02d" % i] = "c_merge"
for i in range(9, 13): MODULES["C%02d" % i] = "c_rules"
MODULES["C13"] = "c_comment"
MODULES["C14"] = "c_fmt"
MODULES["C15"] = "c_fpgen"
MODULES["C25"] = "c_whole"
MODULES["C22"] = "c_pipe"
for i in (16, 23, 24): MODULES["C%02d" % i] = "c_files"
for i in range(17, 22): MODULES["C%02d" % i] = "c_import"
def main():
    if os.environ.get("PYTHONHASHSEED") != "0":      # one seed, one run
        os.environ["PYTHONHASHSEED"] = "0"
        os.execv(sys.executable, [sys.executable] + sys.argv)
    prop = sys.argv[1]
    mod = importlib.import_module("vlib." + MODULES[prop])
    mod.run(core.Check(prop))
if __name__ == "__main__":
    main()
