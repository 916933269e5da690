import json,sys
def P(id, title, statement, over, text, why, files, mech, technique=None, level_note=None, na=None, state=None, observe=None):
    d=dict(id=id,title=title,statement=statement,quantifier=dict(over=over,text=text),why_tests_cant=why,
      anchors=dict(files=files,mechanism=[dict(name=a,where=b) for a,b in mech],hook_needed=None))
    if state: d["anchors"]["state"]=[dict(name=a,meaning=b,where=c) for a,b,c in state]
    if observe: d["anchors"]["observe_at"]=observe
    if na: d["na"]=na
    else: d["technique"]=technique; d["level_note"]=level_note
    assert len(title)<=80, title
    json.dump(d,open("/verif/tools/props/%s.json"%id,"w"),indent=1)
