#!/usr/bin/env python3
"""One-off: extract the inputs of the repository's own language-level tests
(resources/*.m and Go TestInstructions) into sim/harness/corpus_raw.jsonl.
Not run by any check: the extracted corpus is committed."""
import re,json,glob,os,sys
repo='/repo/expreduce'
out=[]
def args(s,i):
    # s[i]=='[' ; returns list of args strings and end
    depth=0; cur=''; res=[]; instr=False; j=i
    while j<len(s):
        c=s[j]
        if instr:
            cur+=c
            if c=='\\': cur+=s[j+1]; j+=1
            elif c=='"': instr=False
        elif c=='"': instr=True; cur+=c
        elif s.startswith('(*',j):
            k=s.index('*)',j); j=k+1
        elif c in '[({':
            depth+=1
            if depth>1: cur+=c
        elif c in '])}':
            depth-=1
            if depth==0:
                res.append(cur.strip()); return res,j
            cur+=c
        elif c==',' and depth==1:
            res.append(cur.strip()); cur=''
        else: cur+=c
        j+=1
    return None,j
def unesc(a):
    return json.loads(a.replace('\n','\\n')) if a.startswith('"') else a
for f in sorted(glob.glob(repo+'/resources/*.m')):
    s=open(f).read()
    name=os.path.basename(f)[:-2]
    for m in re.finditer(r'Tests`(\w+)\s*=\s*\{',s):
        end=s.find('\n};',m.end())
        body=s[m.end():end]
        grp=name+'/'+m.group(1)
        for t in re.finditer(r'\b(ESameTest|ENearlySameTest|EStringTest|EExampleOnlyInstruction|EResetState)\[',body):
            a,_=args(body,t.end()-1)
            if not a: continue
            if t.group(1)=='EResetState': continue
            if len(a)!=2: continue
            src=a[1]
            if t.group(1) in('EStringTest','EExampleOnlyInstruction'):
                try: src=json.loads(src)
                except Exception: continue
            out.append({'g':grp,'in':' '.join(src.split())})
for f in sorted(glob.glob(repo+'/*.go')):
    s=open(f).read()
    for m in re.finditer(r'Name:\s*"(\w+)"|&(?:SameTest|StringTest|SameTestEx)\{\s*("(?:[^"\\]|\\.)*"|`[^`]*`),\s*("(?:[^"\\]|\\.)*"|`[^`]*`)',s):
        if m.group(1): grp='go/'+m.group(1); continue
        a=m.group(3)
        try: src=json.loads(a) if a[0]=='"' else a[1:-1]
        except Exception: continue
        out.append({'g':grp,'in':' '.join(src.split())})
with open('/verif/sim/corpus_raw.jsonl','w') as fh:
    for o in out: fh.write(json.dumps(o)+'\n')
print(len(out),len({o['g'] for o in out}))
