#!/usr/bin/env python3
"""mkseed.py: read a seed description (a python file defining SEEDS: list of
dicts id, property, needs, breaks, edits=[(file, old, new)], demo=go test body,
imports) and write /verif/seeded/<id>/."""
import json, os, subprocess, sys, shutil, tempfile
root = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
def main(path, only):
    ns = {}
    exec(open(path).read(), ns)
    for s in ns['SEEDS']:
        if only and s['id'] not in only: continue
        tmp = tempfile.mkdtemp(prefix='mkseed')
        w = os.path.join(tmp, 'r')
        subprocess.check_call(['git', '-C', '/repo', 'worktree', 'add', '-q', '--detach', w])
        try:
            for f, old, new in s['edits']:
                p = os.path.join(w, f); t = open(p).read()
                assert t.count(old) == 1, (s['id'], f, t.count(old), old)
                open(p, 'w').write(t.replace(old, new))
            diff = subprocess.check_output(['git', '-C', w, 'diff'], text=True)
        finally:
            subprocess.check_call(['git', '-C', '/repo', 'worktree', 'remove', '--force', w])
            shutil.rmtree(tmp, ignore_errors=True)
        d = os.path.join(root, 'seeded', s['id']); os.makedirs(d, exist_ok=True)
        open(d + '/patch.diff', 'w').write(diff)
        shutil.copy(root + '/tools/demo.sh', d + '/demo.sh')
        imps = ['testing'] + s.get('imports', [])
        pre = 'package ecore\n\nimport (\n' + ''.join('\t"%s"\n' % i for i in imps) + ')\n\n'
        open(d + '/demo_test.go', 'w').write(pre + s.get('helpers', '') + 'func TestZZDemo(t *testing.T) {\n' + s['demo'].strip('\n') + '\n}\n')
        json.dump({'property': s['property'], 'needs': s['needs'], 'what_it_breaks': s['breaks']}, open(d + '/meta.json', 'w'), indent=1)
        print('wrote', s['id'])
main(sys.argv[1], sys.argv[2:])
