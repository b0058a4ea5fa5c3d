#!/usr/bin/env python3
"""note.py fixed Cxx 'part of the commit subject' 'what failed'
   note.py known Cxx key 'what fails'
   note.py claim Cxx"""
import os, subprocess, sys
root = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
a = sys.argv[1:]
kf = root + '/known_findings.txt'
if a[0] == 'fixed':
    h = [l.split(' ')[0] for l in subprocess.check_output(['git', '-C', '/repo', 'log', '--format=%h %s'], text=True).splitlines() if a[2] in l]
    assert len(h) == 1, h
    open(kf, 'a').write('fixed: property=%s %s %s\n' % (a[1], h[0], a[3]))
elif a[0] == 'known':
    open(kf, 'a').write('known: property=%s key=[%s] %s\n' % (a[1], a[2], a[3]))
elif a[0] == 'claim':
    p = root + '/tools/propdata.py'; s = open(p).read()
    i = s.index("p('%s'" % a[1]); j = s.find("\np('", i + 1)
    if j < 0: j = len(s)
    s = s[:i] + s[i:j].replace(",claimed=False,reason='check under construction'", '') + s[j:]
    open(p, 'w').write(s)
    subprocess.check_call([sys.executable, root + '/tools/props.py'])
