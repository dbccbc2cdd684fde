"""Prints the table of planted bugs for DESIGN.md, from seeded/*/meta.json."""
import glob, json, os
here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
print("| planted bug | caught by | needs | breaks |\n|---|---|---|---|")
for f in sorted(glob.glob(here + "/seeded/*/meta.json")):
    m = json.load(open(f))
    cell = lambda s: " ".join(str(s).split()).replace("|", "\\|")
    print(f"| {os.path.basename(os.path.dirname(f))} | {m['property']} | {cell(m['needs'])} | {cell(m['what_it_breaks'])} |")
