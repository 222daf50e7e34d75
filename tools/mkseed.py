import os,sys,subprocess,json,shutil
# mk.py ID PROPERTY FILE(s) edits -> creates patch from python replace pairs
def make(id,prop,edits,needs,breaks,demo_files):
    d="/verif/seeded/"+id; os.makedirs(d,exist_ok=True)
    wt="/tmp/wt_seed"
    subprocess.run(["git","-C","/repo","worktree","remove","--force",wt],stderr=subprocess.DEVNULL)
    subprocess.run(["git","-C","/repo","worktree","add","-q","--detach",wt,"HEAD"],check=True)
    for f,a,b in edits:
        s=open(wt+"/"+f).read(); assert s.count(a)==1,(id,f,s.count(a),a); open(wt+"/"+f,"w").write(s.replace(a,b))
    p=subprocess.run(["git","-C",wt,"diff"],stdout=subprocess.PIPE,text=True,check=True).stdout
    open(d+"/patch.diff","w").write(p)
    json.dump({"property":prop,"needs":needs,"what_it_breaks":breaks},open(d+"/meta.json","w"),indent=1)
    for n,c in demo_files.items():
        open(d+"/"+n,"w").write(c)
        if n.endswith(".sh"): os.chmod(d+"/"+n,0o755)
    subprocess.run(["git","-C","/repo","worktree","remove","--force",wt])
    subprocess.run(["git","-C","/repo","worktree","prune"])
