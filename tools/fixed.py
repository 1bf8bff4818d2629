"""Writes known_findings.json ('fixed' from the fix: commits of /repo).  Run by hand."""
import json, subprocess, os
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
WHICH = {'30ebe96':'C01','a061ebf':'C01','fd7698b':'C01','9801b73':'C03','df0218b':'C08','df1fb39':'C09','b81fc21':'C13','66ad46d':'C10','e4149a6':'C26',
'03b76d2':'C27','45199f2':'C19','71662ee':'C21','9bb1c55':'C15','d0bb1af':'C18','4e39548':'C16','84d5576':'C17','ce1903f':'C22','45f122f':'C28','2faf91e':'C06',
'59c0cc4':'C12','bfcd84f':'C01','9195912':'C24','885a6a0':'C23','66cf515':'C02','8b4e293':'C06','837ed03':'C08','a37c21d':'C11','9533c8f':'C12','99ad530':'C12','81c950a':'C12','e0088d0':'C13'}
WHICH.update(json.load(open(os.path.join(HERE,'tools','fixed_more.json'))) if os.path.exists(os.path.join(HERE,'tools','fixed_more.json')) else {})
path = os.path.join(HERE, 'known_findings.json')
known = json.load(open(path))['known'] if os.path.exists(path) else []
fixed = []
for line in subprocess.check_output(['git','-C','/repo','log','--reverse','--format=%h %s'], text=True).splitlines():
    h, _, s = line.partition(' ')
    if s.startswith('fix:'):
        fixed.append('fixed: property=%s %s %s' % (WHICH[h[:7]], h, s[4:].strip()))
json.dump({'known': known, 'fixed': fixed}, open(path,'w'), indent=1)
print(len(fixed))
