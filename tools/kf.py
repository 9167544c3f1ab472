import subprocess,json
m=json.load(open("/verif/tools/fixprops.json"))
old=open('/verif/known-findings.jsonl').read()
for l in reversed(subprocess.check_output(['git','-C','/repo','log','--format=%h %s'],text=True).splitlines()):
    h,s=l.split(' ',1)
    if not s.startswith('fix:') or h in old: continue
    for k,v in m.items():
        if k in s: old+=f"fixed: property={v} {h} {s[5:]}\n"; break
    else: print("??",s)
open('/verif/known-findings.jsonl','w').write(old)
