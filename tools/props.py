#!/usr/bin/env python3
"""Single source for properties.jsonl and MANIFEST.json: python3 tools/props.py"""
import json,os,sys
root=os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
P=[]
def p(id,title,statement,over,text,why,files,mech,level,technique,note,claimed=True,reason=None,observe=None):
    P.append(dict(id=id,title=title,statement=statement,over=over,text=text,why=why,files=files,mech=mech,level=level,technique=technique,note=note,claimed=claimed,reason=reason,observe=observe))
exec(open(os.path.join(root,'tools','propdata.py')).read())
with open(os.path.join(root,'properties.jsonl'),'w') as f:
    for x in P:
        a={"files":x['files'],"mechanism":[{"name":n,"where":w} for n,w in x['mech']]}
        if x['observe']: a['observe_at']=x['observe']
        assert len(x['title'])<=80,x['id']
        f.write(json.dumps({"id":x['id'],"title":x['title'],"statement":x['statement'],"quantifier":{"over":x['over'],"text":x['text']},"why_tests_cant":x['why'],"anchors":a})+'\n')
checks=[{"property":x['id'],"quick_cmd":"bash run.sh %s quick"%x['id'],"thorough_cmd":"bash run.sh %s thorough"%x['id'],"technique":x['technique'],"level":x['level'],"level_note":x['note']} for x in P if x['claimed']]
na=[{"property":x['id'],"reason":x['reason']} for x in P if not x['claimed']]
m={"version":1,"setup_cmd":"bash run.sh -setup","checks":checks,"not_applicable":na,"notes":"Every check explores the real code of /repo exhaustively within stated bounds, next to a reference model; see DESIGN.md."}
json.dump(m,open(os.path.join(root,'MANIFEST.json'),'w'),indent=1)
print(len(checks),'claimed',len(na),'not')
