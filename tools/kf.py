import subprocess
M="C03 C03 C04 C04 C06 C06 C22 C12 C02 C02 C02 C02 C02 C02 C01 C02 C02 C14 C13 C13 C13 C09 C09 C09 C09 C10 C11 C20 C09 C23 C23 C23 C20 C16 C16 C16 C16 C16 C19".split()
L=[l.split(' ',2) for l in subprocess.run(['git','-C','/repo','log','--reverse','--format=%H %s'],capture_output=True,text=True).stdout.split('\n') if ' fix: ' in l]
out=["# Genuine defects of shcsywendy/lhf.  'fixed:' entries are repaired in /repo and suppress nothing;",
     "# 'open:' entries are known findings that are reported as KNOWN-FINDING lines."]
EXTRA=[]
assert len(L)>=len(M)
MM=dict(zip(range(len(M)),M))
import json
try: more=json.load(open('/verif/tools/kfmore.json'))
except Exception: more=[]
for i,(h,_,s) in enumerate(L):
    pr=M[i] if i<len(M) else more[i-len(M)]
    out.append('fixed: property=%s %s %s'%(pr,h,s))
try: out+=open('/verif/tools/kfopen').read().strip().split('\n')
except Exception: pass
open('/verif/KNOWN_FINDINGS','w').write('\n'.join(out)+'\n')
