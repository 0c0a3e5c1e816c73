"""Rewrites the table of planted bugs at the end of DESIGN.md from seeded/*/meta.json."""
import glob, json, os
root = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
path = os.path.join(root, "DESIGN.md")
text = open(path, encoding="utf-8").read()
head = text[: text.index("| planted bug |")]
rows = ["| planted bug | property | needs | caught by |", "|---|---|---|---|"]
for name in sorted(glob.glob(os.path.join(root, "seeded", "*", "meta.json"))):
    meta = json.load(open(name, encoding="utf-8"))
    needs = " ".join(meta["needs"].split()).replace("|", "/")
    rows.append(f"| {os.path.basename(os.path.dirname(name))} | {meta['property']} | {needs} | {meta['property']} |")
open(path, "w", encoding="utf-8").write(head + "\n".join(rows) + "\n")
