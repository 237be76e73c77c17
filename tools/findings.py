#!/usr/bin/env python3
"""known_findings.json: fixed entries suppress nothing; known entries name the harness (K_...) that demonstrates them."""
import json
F=[]
def fixed(p,commit,what,input=""):
    F.append(dict(property=p,id="%s-fixed-%s"%(p,commit),harness="",label="",status="fixed",commit=commit,what="fixed: property=%s %s %s"%(p,commit,what),input=input))
def known(p,id,harness,label,what,input=""):
    F.append(dict(property=p,id=id,harness=harness,label=label,status="known",what=what,input=input))
exec(open("/verif/tools/findings_list.py").read())
json.dump(dict(Findings=F),open("/verif/known_findings.json","w"),indent=1)
