"""Development tool: refreshes the tables of DESIGN.md (bounds from the checks themselves, catches from the log of `seed.py check`)."""
import importlib, json, os, re, sys
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path[:0] = [ROOT, "/repo"]
text = open(ROOT + "/DESIGN.md").read()
props = {json.loads(l)["id"]: json.loads(l) for l in open(ROOT + "/properties.jsonl")}

def put(mark, body):
    global text
    text = re.sub(rf"<!-- {mark} -->.*?<!-- /{mark} -->", lambda m: f"<!-- {mark} -->\n{body}\n<!-- /{mark} -->", text, flags=re.S)

out = []
for pid, p in props.items():
    m = importlib.import_module("mc." + pid.lower())
    try:
        d = json.load(open(f"{ROOT}/evidence/{pid}.json"))
        rows = {f["family"]: f for f in d["coverage"]["families"]} if d["tier"] == "quick" and not d["violations"] else {}
        wall = f"quick {d['wall_s']:.0f} s" if rows else ""
    except FileNotFoundError:
        rows, wall = {}, ""
    out.append(f"### {pid} {p['title']}\n")
    out.append(f"*Quantifier*: {', '.join(p['quantifier']['over'])} — {p['quantifier']['text']}. *Why tests cannot*: {p['why_tests_cant']} {('*Cost*: ' + wall + '.') if wall else ''}\n")
    for fam in m.families():
        r = rows.get(fam.name)
        n = f" ({r['cases']:,} cases, {r['comparisons']:,} comparisons, {r['distinct_states']:,} states)" if r else ""
        out.append(f"* `{fam.name}`: {fam.rule}{n}")
    a = getattr(m, "ASSUMPTIONS", [])
    if a:
        out.append("* bounds and assumptions: " + "; ".join(a))
    out.append("")
put("bounds", "\n".join(out))

caught = {}
try:
    for line in open(ROOT + "/tools/catches.txt"):
        parts = line.split()
        caught[parts[0]] = parts[2:]
except FileNotFoundError:
    pass
rows = ["| bug | needs | caught by |", "|---|---|---|"]
n = k = 0
for b in sorted(os.listdir(ROOT + "/seeded")):
    meta = json.load(open(f"{ROOT}/seeded/{b}/meta.json"))
    got = [c.split(":")[0] for c in caught.get(b, []) if c.endswith(":1")]
    n += 1
    k += bool(got)
    rows.append(f"| {b} | {meta['needs']} | {', '.join(got) or ('**missed**' if b in caught else meta['property'] + ' (when added)')} |")
put("seeds", f"{n} kept. Each was run against the quick check of its property when it was added (`tools/seed.py check`), and a check that missed one was extended until it reported it; vcheck runs a random sample of them every time. "
    f"'(when added)' marks those not run again against the current checks in one sweep; {k} were.\n\n" + "\n".join(rows))
open(ROOT + "/DESIGN.md", "w").write(text)
print(n, k)
