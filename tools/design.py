"""Brings the paragraphs of DESIGN.md that say what a check does in step with the checks' own description (META)."""
import json, re
V = "/verif"
d = open(V + "/DESIGN.md").read()
titles = {p["id"]: p["title"] for p in map(json.loads, filter(str.strip, open(V + "/properties.jsonl")))}
tech = {c["property"]: c for c in json.load(open(V + "/MANIFEST.json"))["checks"]}
def lit(s):
    s = re.sub(r'\\\n\s*', '', s)
    return s.replace('\\"', '"').replace('\\\\', '\\')
def arr(s):
    return [lit(x) for x in re.findall(r'"((?:[^"\\]|\\.)*)"', s, re.S)]
for i in sorted(titles):
    s = open(V + "/harness/src/checks/%s.rs" % i.lower()).read()
    rule = lit(re.search(r'rule: "((?:[^"\\]|\\.|\\\n)*)"', s, re.S).group(1))
    ass = arr(re.search(r'assumptions: &\[(.*?)\],\n', s, re.S).group(1))
    head = "### %s " % i
    if head not in d:
        at = d.index("## Defects found and repaired")
        d = d[:at] + "### %s %s\n\n*Technique:* x\n\nx\n\n*Assumes:* x.\n\n" % (i, titles[i]) + d[at:]
    a = d.index(head)
    b = min(x for x in (d.find("\n### ", a + 1), d.find("\n## ", a + 1)) if x > 0)
    sec = d[a:b]
    t = tech.get(i)
    if t:
        sec = re.sub(r'\*Technique:\*[^\n]*\n\n[^\n]*\n', lambda m: "*Technique:* %s (%s).\n\n%s\n" % (t["technique"], t["level"], rule), sec)
    sec = re.sub(r'\*Assumes:\*[^\n]*', lambda m: "*Assumes:* " + ("; ".join(ass) if ass else "nothing beyond the machine working") + ".", sec)
    d = d[:a] + sec + d[b:]
open(V + "/DESIGN.md", "w").write(d)
