"""Write the table of planted bugs at the end of DESIGN.md."""
import json, os
root = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..")
s = open(root + "/DESIGN.md").read()
i = s.index("## Planted bugs")
out = ["## Planted bugs", "",
       "Each passes the 69 stable tests, has a demonstration that fails with it only, and is caught by the quick tier of the check of its property.",
       "Candidates that failed the tests or whose demonstration could not tell were dropped.", "",
       "| bug | needs | breaks | caught by |", "|---|---|---|---|"]
for d in sorted(os.listdir(root + "/seeded")):
    m = json.load(open(f"{root}/seeded/{d}/meta.json"))
    out.append(f"| {d} | {m['needs']} | {m['what_it_breaks']} | {m['property']} |")
open(root + "/DESIGN.md", "w").write(s[:i] + "\n".join(out) + "\n")
