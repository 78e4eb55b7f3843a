# writes vlib/literals.json from /repo's working tree
import json, sys
sys.path.insert(0, '/verif')
from vlib import lits
json.dump({"fingerprint": lits.fingerprint()} | {f: {"ints": {str(x): c for x, c in sorted(i.items())}, "strs": dict(sorted(s.items()))} for f, (i, s) in sorted(lits.scan().items())},
          open('/verif/vlib/literals.json', 'w'), indent=0)
