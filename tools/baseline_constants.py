"""Records the constants of the committed tree, so that new ones get extra weight."""
import json, os, sys
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, HERE)
from vlib import engine
out = {
    name: [[{"b": k.hex()} if isinstance(k, bytes) else k, n]
           for k, n in sorted(count.items(), key=repr)]
    for name, count in sorted(engine.collect_constants().items())
}
with open(os.path.join(HERE, "vlib", "baseline_constants.json"), "w") as f:
    json.dump(out, f)
    f.write("\n")
