"""Rewrites the list at the end of DESIGN.md from seeded/*/meta.json."""
import os, subprocess, sys
root = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
p = os.path.join(root, "DESIGN.md")
s = open(p).read()
i = s.index("\n- **C01**", s.index("## Planted bugs"))
t = subprocess.run([sys.executable, os.path.join(root, "tools/bugtable.py")], capture_output=True, text=True, check=True).stdout
open(p, "w").write(s[:i + 1] + t)
