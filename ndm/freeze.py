"""Developer tool (not used by any check): write spec/model.json from the current tree."""
import json, os, sys
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from ndm import boot
e = boot.boot()
m = boot.extract(e)
json.dump(m, open(os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "spec", "model.json"), "w"), indent=1, sort_keys=True)
print(len(m))
