# Fills the generated parts of DESIGN.md: python3 tools/design.py [CATCHES]
# CATCHES: lines "seed: C01 C02" as the checks reported them.
import json,os,re,sys
V='/verif/'
t=open(V+'DESIGN.md').read()
fs=['| property | commit | what failed |','|---|---|---|']
for l in open(V+'known-findings.txt'):
    m=re.match(r'fixed: property=(C\d+) (\w+) (.*)',l)
    if m: fs.append('| %s | %s | %s |'%m.groups())
def fill(t,name,body):
    b='<!-- %s -->'%name; e='<!-- end %s -->'%name
    if b not in t: return t.replace(name,b+'\n'+body+'\n'+e,1)
    return t[:t.index(b)]+b+'\n'+body+'\n'+t[t.index(e):]
t=fill(t,'FINDINGS','\n'.join(fs))
if len(sys.argv)>1:
    c=dict(l.strip().split(': ') for l in open(sys.argv[1]) if ': ' in l)
    rows=['| planted bug | property | reported by | needs |','|---|---|---|---|']
    for d in sorted(os.listdir(V+'seeded')):
        m=json.load(open(V+'seeded/'+d+'/meta.json'))
        n=m['needs']; n=n if isinstance(n,str) else '; '.join(n)
        rows.append('| %s | %s | %s | %s |'%(d,m['property'],c.get(d,'(not run)').replace(' ',', '),n.replace('|','/')))
    t=fill(t,'CATCHES','\n'.join(rows))
open(V+'DESIGN.md','w').write(t)
