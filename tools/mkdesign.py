"""Writes DESIGN.md from tools/design_head.md, each check's RULE/REQUIRED, and tools/catch.json (which check catches which planted bug)."""
import json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, V)
import importlib
def main():
    D = json.load(open(os.path.join(V, 'tools/design.json')))
    out = [open(os.path.join(V, 'tools/design_head.md')).read(), '\n## Properties, one by one\n']
    for l in open(os.path.join(V, 'properties.jsonl')):
        p = json.loads(l)
        d = D[p['id']]
        mod = importlib.import_module('vmon.checks.' + p['id'].lower())
        out.append(f"### {p['id']} — {p['title']}\n")
        out.append(f"*Workload.* {mod.RULE}\n")
        for k in ('oracle', 'bounds', 'why', 'scope'):
            if d.get(k):
                out.append(f"*{ {'oracle': 'Oracle', 'bounds': 'Bounds and cost', 'why': 'Beyond the tests', 'scope': 'Not claimed'}[k]}.* {d[k]}\n")
        out.append(f"*Deciding monitors (a run that never reaches one of them is inconclusive).* {', '.join('`' + r + '`' for r in mod.REQUIRED)}\n")
    out.append(open(os.path.join(V, 'tools/design_tail.md')).read())
    cf = os.path.join(V, 'tools/catch.json')
    if os.path.exists(cf):
        C = json.load(open(cf))
        out.append('\n## Planted bugs and what catches them\n\nQuick tier, seed 1, unless noted. Written from the property text and the code; kept whether caught or not.\n\n| bug | property | caught by | what it breaks |\n|---|---|---|---|')
        for b in sorted(C):
            m = json.load(open(os.path.join(V, 'seeded', b, 'meta.json')))
            out.append(f"| {b} | {m['property']} | {', '.join(C[b]) or '**none**'} | {m['what_it_breaks'].replace('|', '/')} |")
    open(os.path.join(V, 'DESIGN.md'), 'w').write('\n'.join(out) + '\n')
main()
