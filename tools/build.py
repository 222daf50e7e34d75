#!/usr/bin/env python3
"""Builds one simulator executable (group) from /repo's working tree.  build.py GROUP [BUILDDIR] -> prints path."""
import os, sys, re, subprocess, hashlib
V=os.path.dirname(os.path.dirname(os.path.abspath(__file__))); R=os.environ.get("LMS_REPO","/repo")
SRC=R+"/src"
CORE=["AVFramedQueue.cpp","AudioCircularBuffer.cpp","SlicedVideoFrameQueue.cpp","AudioFrame.cpp","Event.cpp","Filter.cpp","Frame.cpp","IOInterface.cpp","Jzon.cpp","Path.cpp","Runnable.cpp","Utils.cpp","VideoFrame.cpp","WorkersPool.cpp"]
# other files of src/ that are not in this list (new ones) are built too, except these
NOTCORE={"PipelineManager.cpp","Controller.cpp"}
def module(m,only=None,skip=()):
    d=SRC+"/modules/"+m
    fs=sorted(f for f in os.listdir(d) if f.endswith((".cpp",".c")) and f not in skip)
    return ["modules/%s/%s"%(m,f) for f in fs if only is None or f in only]
def core():
    return sorted(f for f in os.listdir(SRC) if f.endswith(".cpp") and f not in NOTCORE)
GROUPS={
 "core":dict(src=lambda: core()+module("audioMixer"), scen=["scen_pool.cpp","scen_queue.cpp","scen_filter.cpp","scen_flow.cpp","scen_audio.cpp","pm_stub.cpp"], libs=[]),
 "dash":dict(src=lambda: core()+module("dasher"), scen=["scen_dash.cpp","pm_stub.cpp"], libs=["-ltinyxml2"], sys=["fs"], plain=["VideoFrame.cpp"]),
 "shm":dict(src=lambda: core()+module("sharedMemory"), scen=["scen_shm.cpp","pm_stub.cpp"], libs=[], sys=["shm"], plain=["VideoFrame.cpp"]),
 "v4l":dict(src=lambda: core()+module("V4LCapture"), scen=["scen_v4l.cpp","pm_stub.cpp"], libs=[], sys=["v4l"], plain=["VideoFrame.cpp"]),
 "video":dict(src=lambda: core()+module("videoMixer")+module("videoSplitter")+module("videoResampler"), scen=["scen_video.cpp","pm_stub.cpp"], libs=["-lopencv_core","-lopencv_imgproc","-lswscale","-lavutil"], plain=["VideoFrame.cpp"], cflags="-include %s/sim/video_pre.h"%V),
 "enc":dict(src=lambda: core()+module("videoEncoder"), scen=["scen_enc.cpp","x26x.cpp","pm_stub.cpp"], libs=["-lavutil"], plain=["VideoFrame.cpp"], cflags="-include %s/sim/enc_pre.h"%V),
 "pm":dict(src=lambda: core(), copied=["PipelineManager.cpp","Controller.cpp"], scen=["scen_pm.cpp","scen_ctl.cpp","pm_filters.cpp"], libs=[], sys=["net"]),
}
REN_COMMON=dict(memcpy="sim_memcpy",memmove="sim_memmove",memset="sim_memset",memcmp="sim_memcmp",strlen="sim_strlen",exit="sim_exit")
def sysren(g): return {}
def main():
    g=sys.argv[1]; G=GROUPS[g]; B=sys.argv[2] if len(sys.argv)>2 else V+"/build/"+g
    os.makedirs(B,exist_ok=True)
    ren=dict(REN_COMMON)
    for s in G.get("sys",[]):
        for l in open("%s/sim/ren_%s.txt"%(V,s)):
            l=l.split()
            if l: ren[l[0]]=l[1] if len(l)>1 else "sim_"+l[0]
    with open(B+"/redef.tmp","w") as f:
        for k,v in sorted(ren.items()): f.write("%s %s\n"%(k,v))
    rd=B+"/redef.syms"
    if not os.path.exists(rd) or open(rd).read()!=open(B+"/redef.tmp").read(): os.replace(B+"/redef.tmp",rd)
    inc="-I%s/sim/stubs -I%s/sim/stubs/%s -I%s -isystem /opt/vp/cmake/include -isystem /usr/include/opencv4"%(V,V,g,SRC)
    incs=inc
    extra=G.get("cflags","")
    out=[]
    w=out.append
    w("sut = -g1 -O1 -fno-omit-frame-pointer -fsanitize=thread -U_FORTIFY_SOURCE -D_FORTIFY_SOURCE=0 -D__STDC_CONSTANT_MACROS -w -fno-pie -ffunction-sections")
    w("har = -g1 -O1 -fno-access-control -U_FORTIFY_SOURCE -D_FORTIFY_SOURCE=0 -D__STDC_CONSTANT_MACROS -w -fno-pie -fpermissive")
    w("inc = %s %s"%(inc,extra))
    w("rule sutcc\n  command = g++ -std=c++11 $sut $inc -MMD -MF $out.d -c $in -o $out && objcopy --redefine-syms=%s $out\n  depfile = $out.d\n  deps = gcc"%rd)
    w("rule sutplain\n  command = g++ -std=c++11 $sut -O2 -fno-sanitize=thread $inc -MMD -MF $out.d -c $in -o $out && objcopy --redefine-syms=%s $out\n  depfile = $out.d\n  deps = gcc"%rd)
    w("rule sutc\n  command = gcc $sut $inc -MMD -MF $out.d -c $in -o $out && objcopy --redefine-syms=%s $out\n  depfile = $out.d\n  deps = gcc"%rd)
    w("rule harcc\n  command = g++ -std=gnu++14 $har $inc -I%s/sim -MMD -MF $out.d -c $in -o $out\n  depfile = $out.d\n  deps = gcc"%V)
    w("rule corecc\n  command = g++ -std=gnu++17 -g1 -O2 -fno-builtin -fno-pie -w -I%s/sim -MMD -MF $out.d -c $in -o $out\n  depfile = $out.d\n  deps = gcc"%V)
    w("rule link\n  command = g++ -no-pie -rdynamic -o $out @$out.rsp %s -ldl\n  rspfile = $out.rsp\n  rspfile_content = $in\n"%" ".join(G["libs"]))
    objs=[]
    # copied first, so that the headers of the modules are looked up in sim/stubs/GROUP
    w("rule copy\n  command = cp $in $out")
    for s in G.get("copied",[]):
        o="sut/"+s+".o"; objs.append(o); w("build gen/%s: copy %s/%s"%(s,SRC,s)); w("build %s: sutcc gen/%s | %s"%(o,s,rd))
    for s in G["src"]():
        o="sut/"+s.replace("/","_")+".o"; objs.append(o)
        w("build %s: %s %s/%s | %s"%(o,"sutc" if s.endswith(".c") else "sutplain" if s in G.get("plain",[]) else "sutcc",SRC,s,rd))
    for s in ["core.cpp","main.cpp"]+["sys_%s.cpp"%x for x in G.get("sys",[])]:
        o="sim/"+s+".o"; objs.append(o); w("build %s: corecc %s/sim/%s"%(o,V,s))
    for s in G["scen"]:
        o="har/"+s+".o"; objs.append(o); w("build %s: harcc %s/sim/%s"%(o,V,s))
    w("build lmsim: link "+" ".join(objs))
    w("default lmsim")
    t="\n".join(out)+"\n"
    p=B+"/build.ninja"
    if not os.path.exists(p) or open(p).read()!=t: open(p,"w").write(t)
    r=subprocess.run(["ninja","-C",B,"-k","0"]+(["-v"] if "-v" in sys.argv else []),stdout=subprocess.PIPE,stderr=subprocess.STDOUT,text=True)
    if r.returncode: sys.stderr.write(r.stdout[-8000:]); sys.exit(2)
    print(B+"/lmsim")
if __name__=="__main__": main()
