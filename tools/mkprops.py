import json
P=[]
def p(id,title,st,over,qt,why,files,mech,state=None,obs=None):
    d=dict(id=id,title=title,statement=st,quantifier=dict(over=over,text=qt),why_tests_cant=why,
      anchors=dict(files=files,mechanism=[dict(name=n,where=w) for n,w in mech]))
    if state: d['anchors']['state']=[dict(name=n,meaning=m,where=w) for n,m,w in state]
    if obs: d['anchors']['observe_at']=obs
    d['anchors']['hook_needed']=None
    P.append(d)
exec(open('/verif/tools/props_src.py').read())
with open('/verif/properties.jsonl','w') as f:
    for d in P: f.write(json.dumps(d)+'\n')
