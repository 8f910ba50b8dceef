# usage: addf.py PROP "commit subject substring" "what"
import json,subprocess,sys
d=json.load(open('/verif/known_findings.json'))
log=subprocess.run(['git','-C','/repo','log','--format=%h %s'],capture_output=True,text=True).stdout
h=[l.split(' ',1)[0] for l in log.splitlines() if sys.argv[2] in l][0]
n=max(int(e['id'][1:]) for e in d['findings'])+1
p,w=sys.argv[1],sys.argv[3]
d['findings'].append({"id":f"F{n:02d}","property":p,"status":"fixed","commit":h,"what":f"fixed: property={p} {h} {w}"})
json.dump(d,open('/verif/known_findings.json','w'),indent=1); print(n,h)
