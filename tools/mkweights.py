"""vc/weights.json from the last evidence files: start order of the contracts, longest first (no effect on what is decided)"""
import glob, json, os
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
fn = os.path.join(ROOT, 'vc', 'weights.json')
try:
    w = json.load(open(fn))
except OSError:
    w = {}
for e in sorted(glob.glob(os.path.join(ROOT, 'evidence', 'P*.json'))):
    d = json.load(open(e))
    for c in d['details']['contracts']:
        if c.get('wall_s', 0) >= 2:
            w.setdefault(d['property'], {})[c['name']] = round(c['wall_s'])
json.dump(w, open(fn, 'w'), indent=1, sort_keys=True)
