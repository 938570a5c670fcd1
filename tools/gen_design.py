"""Writes DESIGN.md from its parts."""
import ast, glob, json, os, re
here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
out = [open(os.path.join(here, "tools", "design_head.md")).read()]
notes = json.load(open(os.path.join(here, "tools", "design_notes.json")))
props = [json.loads(l) for l in open(os.path.join(here, "properties.jsonl"))]
caught_path = os.path.join(here, "tools", "seeded_results.json")
results = json.load(open(caught_path)) if os.path.exists(caught_path) else {}
out.append("## Properties\n")
for p in props:
    pid = p["id"]
    out.append(f"### {pid}: {p['title']}\n\n{p['statement']}\n")
    path = os.path.join(here, "harness", "checks", pid.lower() + ".py")
    if not os.path.exists(path):
        out.append("Not claimed: no monitor was built.\n")
        continue
    src = open(path).read()
    vals = {}
    for n in ast.parse(src).body:
        if isinstance(n, ast.Assign) and getattr(n.targets[0], "id", "") in ("RULE", "ASSUMPTIONS"):
            vals[n.targets[0].id] = ast.literal_eval(n.value)
    secs = re.findall(r'Section\(\s*"([\w-]+)",\s*\w+,\s*(\d+),\s*(\d+)', src)
    out.append(f"*Workload and monitor.* {vals['RULE']}\n")
    out.append(f"*Oracle.* {notes.get(pid, '')}\n")
    out.append("*Sections* (quick/thorough cases): " + ", ".join(f"{n} {q}/{t}" for n, q, t in secs) + ".\n")
    out.append("*Left out.* " + " ".join(vals["ASSUMPTIONS"]) + "\n")
k = json.load(open(os.path.join(here, "known_findings.json")))
out.append("## Findings\n\nGenuine defects found by the checks. Recorded, not repaired:\n")
for f in k["findings"]:
    out.append(f"* {f['property']} `{f['key']}`: {f['what']}")
out.append("\nRepaired by `fix:` commits in /repo:\n")
for f in k["fixed"]:
    out.append("* " + re.sub(r"^fixed: property=(\w+) (\w+) ", r"\1 \2: ", f))
out.append("\n" + open(os.path.join(here, "tools", "design_tail.md")).read())
out.append("## Planted bugs\n\n| bug | needs | breaks | caught by |\n|---|---|---|---|")
for d in sorted(glob.glob(os.path.join(here, "seeded", "*", "meta.json"))):
    m = json.load(open(d)); n = d.split("/")[-2]
    out.append(f"| {n} | {m['needs']} | {m['what_it_breaks']} | {results.get(n, '')} |")
open(os.path.join(here, "DESIGN.md"), "w").write("\n".join(out) + "\n")
