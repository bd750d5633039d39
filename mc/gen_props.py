import json,os
V=os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
P=[]
def p(id,title,statement,over,qtext,why,files,mech,observe,hook=False,state=None):
    d=dict(id=id,title=title,statement=statement,quantifier=dict(over=over,text=qtext),why_tests_cant=why,
      anchors=dict(files=["src/library/natrium/"+f for f in files],mechanism=[dict(name=a,where="src/library/natrium/"+b) for a,b in mech],observe_at=observe,hook_needed=(hook or None)))
    if state: d["anchors"]["state"]=state
    P.append(d)
exec(open(V+'/mc/props_def.py').read())
open(V+'/properties.jsonl','w').write("".join(json.dumps(x)+"\n" for x in P))
for x in P:
    assert len(x["title"])<=80,(x["id"],len(x["title"]))
    for f in x["anchors"]["files"]: assert os.path.exists("/repo/"+f),f
print(len(P))
