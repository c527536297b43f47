"""Write the list of seeded changes into DESIGN.md."""
import json
import os
import re
here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
rows = []
for d in sorted(os.listdir(os.path.join(here, "seeded"))):
    m = json.load(open(os.path.join(here, "seeded", d, "meta.json")))
    rows.append(f"- `{d}` ({m['property']}): {m['what_it_breaks']}. Needs {m['needs']}.")
p = os.path.join(here, "DESIGN.md")
s = open(p).read()
new = "<!-- seeded -->\n" + "\n".join(rows) + "\n<!-- /seeded -->"
s = s.replace("@SEEDED@", "<!-- seeded --><!-- /seeded -->")
s = re.sub(r"<!-- seeded -->.*?<!-- /seeded -->", lambda _: new, s, flags=re.S)
open(p, "w").write(s)
