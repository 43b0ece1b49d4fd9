"""writes DESIGN.md: the text below plus the bounds, assumptions and costs taken from the last evidence files"""
import json, os, glob
R = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props = {}
for l in open(os.path.join(R, 'properties.jsonl')):
    p = json.loads(l)
    props[p['id']] = p
ev = {os.path.basename(f)[:-5]: json.load(open(f)) for f in glob.glob(os.path.join(R, 'evidence', 'C*.json'))}

HEAD = open(os.path.join(R, 'tools', 'design_head.md')).read()
TAIL = open(os.path.join(R, 'tools', 'design_tail.md')).read()
HOW = {}
cur = None
for l in open(os.path.join(R, 'tools', 'design_props.md')):
    if l.startswith('## '):
        cur = l[3:].strip()
        HOW[cur] = ''
    elif cur:
        HOW[cur] += l
out = [HEAD, '\n## Per property\n']
for i, p in sorted(props.items()):
    e = ev.get(i)
    out.append(f'\n### {i} — {p["title"]}\n')
    out.append(HOW.get(i, '').strip() + '\n')
    if e:
        c = e['coverage']
        out.append(f'* encoded: {", ".join(f"`{x}`" for x in c["functions_encoded"])}')
        out.append(f'* bounds: {"; ".join(c["bounds"])}')
        a = [x for x in e['assumptions'] if not x.startswith('the claim is over real')]
        if a:
            out.append(f'* assumed: {"; ".join(a)}')
        out.append(f'* cost (quick): {c["harnesses"] if isinstance(c["harnesses"], int) else len(c["harnesses"])} harnesses,'
                   f' {c["obligations_total"]} obligations, {c["solver_queries"]} queries, about {e["wall_s"]:.0f} s')
kf = [json.loads(l) for l in open(os.path.join(R, 'known_findings.jsonl')) if l.strip()]
fixed = '\n'.join('* ' + k['what'].replace('fixed: property=', '') for k in kf if k['kind'] == 'fixed')
known = '\n'.join(f"* {k['property']}, harness `{k['harness']}`: {k['what']}" for k in kf if k['kind'] == 'known')
seeds = []
for d in sorted(glob.glob(os.path.join(R, 'seeded', '*'))):
    m = json.load(open(d + '/meta.json'))
    seeds.append(f"| {os.path.basename(d)} | {m['property']} | {m['needs']} | {m.get('caught', 'caught by ' + m['property'])} |")
TAIL = TAIL.replace('@FIXED@', fixed).replace('@KNOWN@', known).replace('@SEEDS@', '\n'.join(seeds))
open(os.path.join(R, 'DESIGN.md'), 'w').write('\n'.join(out) + '\n\n' + TAIL)
