#!/usr/bin/env python3
"""design.py: writes DESIGN.md from the texts below, propdata and the evidence of the last runs."""
import json, os, glob, subprocess
root = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props = [json.loads(l) for l in open(root + '/properties.jsonl')]
man = json.load(open(root + '/MANIFEST.json'))
claimed = {c.get('property') or c.get('property_id') or c.get('id') for c in man.get('checks', man.get('claims', []))}
known = [l for l in open(root + '/known_findings.txt')]
seeds = {}
for f in sorted(glob.glob(root + '/seeded/*/meta.json')):
    m = json.load(open(f)); seeds.setdefault(m['property'], []).append((os.path.basename(os.path.dirname(f)), m))
T = json.load(open(root + '/tools/seedresults.json')) if os.path.exists(root + '/tools/seedresults.json') else {}

HEAD = open(root + '/tools/design_head.md').read()
NOTES = {}
for part in open(root + '/tools/design_notes.md').read().split('\n## ')[1:]:
    k, t = part.split('\n', 1); NOTES[k.strip()] = t.strip()

out = [HEAD.rstrip(), '', '# The properties', '']
for p in props:
    i = p['id']
    out.append('## %s %s' % (i, p['title'])); out.append('')
    ev = root + '/evidence/%s.json' % i
    if os.path.exists(ev):
        e = json.load(open(ev)); c = e['coverage']
        rule = c.get('rule') or ''
        out.append('**Enumerated.** ' + rule[0].upper() + rule[1:] + ('' if rule.endswith('.') else '.')); out.append('')
        out.append('**Bounds and assumptions.** ' + '; '.join(e['assumptions']) + '.'); out.append('')
    if i in NOTES:
        out.append(NOTES[i]); out.append('')
    fx = [l.split(' ', 3) for l in known if l.startswith('fixed: property=%s ' % i)]
    kn = [l for l in known if l.startswith('known: property=%s ' % i)]
    if fx:
        out.append('**Defects repaired.**'); out.append('')
        for l in fx: out.append('- `%s` %s' % (l[2], l[3].strip()))
        out.append('')
    if kn:
        out.append('**Known findings.**'); out.append('')
        if len(kn) > 8:
            out.append('- %d keys `not-of-type/…`: a text that is not of the type becomes a value without any error (`CreateFromString` has no error result; a panic would end programs that load such documents today).' % len(kn))
        else:
            for l in kn:
                k = l[l.index('[') + 1:l.index(']')]; out.append('- `%s`: %s' % (k, l[l.index(']') + 1:].strip()))
        out.append('')
    if i in seeds:
        out.append('**Planted changes.**'); out.append('')
        for n, m in seeds[i]:
            out.append('- `%s` (%s): %s' % (n, T.get(n, 'caught'), m['what_it_breaks']))
        out.append('')
open(root + '/DESIGN.md', 'w').write('\n'.join(out).rstrip() + '\n')
