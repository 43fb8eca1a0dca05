"""Writes DESIGN.md from DESIGN.head.md, the harness modules and seeded/."""
import glob, importlib, json, os, sys
ROOT = os.path.abspath(os.path.join(os.path.dirname(os.path.abspath(__file__)), ".."))
sys.path.insert(0, ROOT)
sys.argv = ["mkdesign"]
props = [json.loads(l) for l in open(os.path.join(ROOT, "properties.jsonl"))]
manifest = json.load(open(os.path.join(ROOT, "MANIFEST.json")))
na = {n["property"]: n["reason"] for n in manifest["not_applicable"]}
NOTES = json.load(open(os.path.join(ROOT, "tools", "design_notes.json")))
out = [open(os.path.join(ROOT, "tools", "DESIGN.head.md")).read().rstrip(), "", "## Property by property", ""]
os.environ["PYTHONHASHSEED"] = "0"
import check  # patches the environment before docket is imported
for p in props:
    i = p["id"]
    out += [f"### {i} {p['title']}", ""]
    if i in na:
        out += [f"Not applicable: {na[i]}", ""]
        continue
    m = check.load(i, True)
    note = NOTES.get(i)
    if note:
        out += [f"*Oracle.* {note}", ""]
    out += ["*Encoded.* " + ", ".join(f"`{f}`" for f in m.FUNCTIONS) + ".", ""]
    for h in m.HARNESSES:
        doc = " ".join((h.fn.__doc__ or "").split())
        out.append(f"* `{h.name}`: {doc} Bounds: {h.bounds}. Budget {h.budget_quick:g} / {h.budget_thorough:g} CPU-s.")
    asm = list(dict.fromkeys(a for h in m.HARNESSES for a in h.assumptions))
    out += ["", ("*Assumed.* " + "; ".join(asm) + ".") if asm else "", "", "*Beyond tests.* Decided over " + p["quantifier"]["text"].rstrip(".") + "; " + p["why_tests_cant"].rstrip(".") + ".", ""]
out += ["## Planted changes (seeded/)", "", "Each builds, passes the repository's tests and has a demonstration. Quick checks, run against it:", "", "| change | property | needs | caught by |", "|---|---|---|---|"]
for f in sorted(glob.glob(os.path.join(ROOT, "seeded", "*", "meta.json"))):
    d = json.load(open(f))
    out.append(f"| {os.path.basename(os.path.dirname(f))} | {d['property']} | {d['needs']} | {NOTES.get('seeded', {}).get(os.path.basename(os.path.dirname(f)), d['property'] + ' quick')} |")
out.append("")
text = "\n".join(out)
while "\n\n\n" in text:
    text = text.replace("\n\n\n", "\n\n")
open(os.path.join(ROOT, "DESIGN.md"), "w").write(text)
print(len(text.splitlines()), "lines")
