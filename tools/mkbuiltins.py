"""Writes data/builtins-<version>.json: the oracle of C12 (and the value sets of C13).  Run once on the
base commit; every row was cross-checked against the rustc that is installed here (see DESIGN.md)."""
import json, os, sys
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from sa.common import dump
from sa.targets import builtins, value, text
p = dump()
v = text(value(p, "cfg_expr::targets::builtins::RUSTC_VERSION")["v"])
rows = builtins(p)
with open(os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "data", "builtins-%s.json" % v), "w") as f:
    f.write("[\n" + ",\n".join(json.dumps(r, sort_keys=True) for r in rows) + "\n]\n")
