"""corpus_add.py FILE...  append the cases of replay files to corpus/<id>.json (without duplicates)."""
import json, os, sys
here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
def add(prop, case):
    p = os.path.join(here, "corpus", prop + ".json")
    cs = json.load(open(p)) if os.path.exists(p) else []
    if case not in cs:
        cs.append(case)
        with open(p, "w") as f:
            f.write("[\n" + ",\n".join(json.dumps(c) for c in cs) + "\n]\n")
for fn in sys.argv[1:]:
    d = json.load(open(fn))
    add(d["property"], d["case"])
    if "backend" in d["case"] and d["property"] not in ("C20", "C23"):
        o = dict(d["case"]); o["backend"] = {"np": "pt", "pt": "np"}.get(o["backend"], o["backend"])
        if d["property"] != "C14": add(d["property"], o)
