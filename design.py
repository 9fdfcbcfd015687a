import json, subprocess, glob, os
props = {}
for l in open('/verif/properties.jsonl'):
    d = json.loads(l); props[d['id']] = d
units = {}
for l in subprocess.check_output(['python3-vt', '/verif/units_list.py'], text=True).splitlines():
    p, n, f = [x.strip() for x in l.split('|')]
    units.setdefault(p, []).append((n, f))
how = {}
for l in open('/verif/design_notes.txt'):
    if '\t' in l:
        p, t = l.rstrip('\n').split('\t', 1); how[p] = t
bugs = {}
for f in sorted(glob.glob('/verif/seeded/*/meta.json')):
    m = json.load(open(f)); bugs.setdefault(m['property'], []).append((os.path.basename(os.path.dirname(f)), m['what_it_breaks']))
out = [open('/verif/design_head.md').read()]
out.append('\n## Per property\n')
for p in sorted(how):
    out.append(f"### {p} {props[p].get('title','')}\n")
    out.append(how[p] + '\n')
    out.append('Units (each is one or more functions verified against their contract): ' + '; '.join(f"*{n}*" + (f" ({f})" if f else ' (lemma)') for n, f in units.get(p, [])) + '.\n')
    if p in bugs:
        out.append('Planted bugs caught by this check: ' + '; '.join(f"`{b}` ({w})" for b, w in bugs[p]) + '.\n')
out.append(open('/verif/design_tail.md').read())
open('/verif/DESIGN.md', 'w').write('\n'.join(out))
