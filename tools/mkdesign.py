"""DESIGN.md = the text of tools/design_head.md, a table written from properties.jsonl, tools/checks.json and
tools/design_rows.json, and the text of tools/design_tail.md."""
import json, os
H = os.path.dirname(os.path.abspath(__file__)); V = os.path.dirname(H)
rows = json.load(open(H + '/design_rows.json'))
checks = json.load(open(H + '/checks.json'))
props = [json.loads(l) for l in open(V + '/properties.jsonl')]
out = open(H + '/design_head.md').read().rstrip() + '\n\n'
for q in props:
    r = rows[q['id']]
    out += f"### {q['id']} {q['title']}\n"
    out += f"* *Specification*: {r['spec']}\n* *Binding*: {r['bind']}\n* *Bounds*: {checks[q['id']]['note']}\n"
    out += f"* *Beyond the tests*: {r['why']}\n* *Cost* (quick): about {r['cost']} s\n\n"
out += open(H + '/design_tail.md').read()
open(V + '/DESIGN.md', 'w').write(out)
t = open(V + '/DESIGN.md').read()
rowtxt = ''
for d in sorted(os.listdir(V + '/seeded')):
    m = json.load(open(f'{V}/seeded/{d}/meta.json'))
    rowtxt += f"| {d}: {m['what_it_breaks']} | {m['property']} | {m.get('caught_by', m['property'])} |\n"
open(V + '/DESIGN.md', 'w').write(t.replace('SEEDS\n', rowtxt))
