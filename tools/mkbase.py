"""Records the parameter and binding names, loops and calls of the functions of the current /repo/src
(overlay/base.json): used to follow renamed locals and to tell unknown helpers."""
import json, os, sys
here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(here, "tools"))
import vx, tree
text, rep = vx.build("/repo/src", tree.TREE, os.path.join(here, "overlay"))
for x in rep.lost:
    print("LOST", x)
json.dump({p: rep.fns[p]["shape"] for p in sorted(rep.fns)}, open(os.path.join(here, "overlay", "base.json"), "w"), indent=0, sort_keys=True)
