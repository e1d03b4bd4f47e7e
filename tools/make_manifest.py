"""Writes MANIFEST.json from the checks that exist and the properties listed."""
import glob, json, os, re
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
os.chdir(HERE)
ids = [json.loads(l)["id"] for l in open("properties.jsonl")]
have = sorted(os.path.basename(f)[:-3].upper() for f in glob.glob("checks/c[0-9]*.py"))
from manifest_notes import TECHNIQUE, NOTE, NOT_APPLICABLE
checks = []
for pid in have:
    level = re.search(r'^LEVEL = "(\w+)"', open("checks/%s.py" % pid.lower()).read(), re.M).group(1)
    checks.append(dict(property=pid, quick_cmd="./run.py %s quick" % pid, thorough_cmd="./run.py %s thorough" % pid,
                       technique=TECHNIQUE[pid], level=level, level_note=NOTE[pid]))
na = [dict(property=p, reason=NOT_APPLICABLE.get(p, "The check of this property is not built yet.")) for p in ids if p not in have]
json.dump(dict(version=1, setup_cmd="true", checks=checks, not_applicable=na,
               notes="Each check is ./run.py CNN [quick|thorough]; it imports the code of /repo's working tree (VERIF_REPO to look elsewhere), "
                     "in a home, preferences, cache and temporary directory of its own that it removes. No hooks are needed in /repo."),
          open("MANIFEST.json", "w"), indent=1)
print(have, "not:", [x["property"] for x in na])
