"""Which planted bugs change at least one line of the original repository?"""
import subprocess,glob,re,os
cache={}
def blame(f):
    if f not in cache:
        o=subprocess.run(["git","-C","/repo","blame","-s",f],capture_output=True,text=True).stdout.split("\n")
        cache[f]=[l.startswith("^") for l in o]
    return cache[f]
for p in sorted(glob.glob("/verif/seeded/*/patch.diff")):
    orig=mine=add=0; f=None
    for l in open(p):
        if l.startswith("--- a/"): f=l[6:].strip(); continue
        if l.startswith("+++") : continue
        m=re.match(r"@@ -(\d+)",l)
        if m: n=int(m.group(1)); continue
        if f is None or l.startswith(("diff","index")): continue
        if l.startswith("-"):
            if l[1:].strip() and not l[1:].strip().startswith("//"):
                if blame(f)[n-1]: orig+=1
                else: mine+=1
            n+=1
        elif l.startswith("+"): add+=1
        else: n+=1
    if orig==0: print(os.path.basename(os.path.dirname(p)),"orig",orig,"mine",mine,"added",add)
