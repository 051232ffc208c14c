#!/usr/bin/env python3
"""Builds the simulator binary from /repo's current working tree.

  .build/rt      patched Go runtime files (overlay)
  .build/mods    patched copies of a few dependency modules
  .build/src     instrumented copy of /repo + the harness in verifsim/
  .build/sim     the binary          (.build/sim-race with --race)
"""
import os, re, sys, json, subprocess, shutil, fcntl, hashlib
HERE=os.path.dirname(os.path.abspath(__file__)); VERIF=os.path.dirname(HERE)
sys.path.insert(0,HERE)
import rtpatch
REPO=os.environ.get("VERIF_REPO","/repo")
B=os.environ.get("VERIF_BUILD") or os.path.join(VERIF,".build")
GOROOT="/opt/veriftools/go1.27.3"
MODC="/root/go/pkg/mod"
MOD="gitlab.com/thorchain/tss/go-tss"
SKIP={".git","build","scripts","changelogs","test_data"}
INSTR={"p2p","common","keygen","keysign","tss","storage","blame","conversion","monitor","messages"}

ENV=dict(os.environ, HOME="/root", GOTOOLCHAIN="local", GOPROXY="off", GOFLAGS="-mod=mod", GONOSUMDB="*", GONOSUMCHECK="1",
  GOPATH="/root/go", GOMODCACHE=MODC, GOCACHE=os.path.join(B,"gocache"), GOROOT=GOROOT, CGO_ENABLED="1",
  GOEXPERIMENT="norandomizedheapbase64")
ENV["PATH"]=GOROOT+"/bin:/usr/local/sbin:/usr/local/bin:/usr/sbin:/usr/bin:/sbin:/bin"
ENV.pop("GOFIPS140",None)

def fail(msg):
    print("BUILD ERROR:",msg,file=sys.stderr); sys.exit(3)

def sub1(src, old, new, what):
    if src.count(old)!=1: fail(f"anchor {what!r} occurs {src.count(old)} times")
    return src.replace(old,new)

def write(p,t):
    os.makedirs(os.path.dirname(p),exist_ok=True)
    b=t.encode() if isinstance(t,str) else t
    if os.path.exists(p):
        with open(p,"rb") as f:
            if f.read()==b: return
    with open(p,"wb") as f: f.write(b)

def copymod(src,name):
    dst=os.path.join(B,"mods",name)
    if os.path.exists(dst): shutil.rmtree(dst)
    os.makedirs(os.path.dirname(dst),exist_ok=True)
    shutil.copytree(src,dst,ignore=lambda d,fs:[f for f in fs if f.endswith("_test.go")])
    for d,_,fs in os.walk(dst):
        os.chmod(d,0o755)
        for f in fs: os.chmod(os.path.join(d,f),0o644)
    return dst

def edit(dst,f,pairs):
    p=os.path.join(dst,f)
    t=open(p).read()
    for o,n in pairs: t=sub1(t,o,n,f)
    open(p,"w").write(t)

def mods():
    """patched copies of dependency modules; returns {module: dir}"""
    stamp=os.path.join(B,"mods","stamp")
    key=hashlib.sha256(open(os.path.abspath(__file__),"rb").read()).hexdigest()
    out={"github.com/libp2p/go-libp2p":"libp2p","github.com/libp2p/go-libp2p-kad-dht":"kaddht","github.com/libp2p/go-libp2p-discovery":"discovery","github.com/libp2p/go-libp2p-asn-util":"asnutil","github.com/binance-chain/tss-lib":"tsslib"}
    rep={k:os.path.join(B,"mods",v) for k,v in out.items()}
    if os.path.exists(stamp) and open(stamp).read()==key: return rep
    L=MODC+"/github.com/libp2p/"
    d=copymod(L+"go-libp2p@v0.11.0","libp2p")
    edit(d,"libp2p.go",[("\treturn cfg.NewNode(ctx)\n","\tif SimNew != nil {\n\t\treturn SimNew(ctx, &cfg)\n\t}\n\treturn cfg.NewNode(ctx)\n"),
      ("type Option = config.Option\n","type Option = config.Option\n\n// SimNew, when set, builds the host (simulation seam).\nvar SimNew func(ctx context.Context, cfg *Config) (host.Host, error)\n"),
      ("\treturn NewWithoutDefaults(ctx, append(opts, FallbackDefaults)...)\n","\tif SimNew != nil {\n\t\treturn NewWithoutDefaults(ctx, opts...)\n\t}\n\treturn NewWithoutDefaults(ctx, append(opts, FallbackDefaults)...)\n")])
    d=copymod(L+"go-libp2p-kad-dht@v0.10.0","kaddht")
    edit(d,"dht.go",[("func New(ctx context.Context, h host.Host, options ...Option) (*IpfsDHT, error) {\n","// SimOff disables the DHT (simulation: peer discovery is modelled by the simulated network).\nvar SimOff bool\n\nfunc New(ctx context.Context, h host.Host, options ...Option) (*IpfsDHT, error) {\n\tif SimOff {\n\t\treturn &IpfsDHT{}, nil\n\t}\n")])
    edit(d,"dht_bootstrap.go",[("func (dht *IpfsDHT) Bootstrap(ctx context.Context) error {\n","func (dht *IpfsDHT) Bootstrap(ctx context.Context) error {\n\tif SimOff {\n\t\treturn nil\n\t}\n")])
    d=copymod(L+"go-libp2p-discovery@v0.5.0","discovery")
    edit(d,"util.go",[("func Advertise(ctx context.Context, a Advertiser, ns string, opts ...Option) {\n","// SimOff disables advertising.\nvar SimOff bool\n\nfunc Advertise(ctx context.Context, a Advertiser, ns string, opts ...Option) {\n\tif SimOff {\n\t\treturn\n\t}\n")])
    d=copymod(L+"go-libp2p-asn-util@v0.0.0-20200825225859-85005c6cf052","asnutil")
    # a table of the Internet's address ranges, loaded at start-up in a goroutine of its own; only the (disabled) DHT uses it
    edit(d,"asn.go",[("\tgo func() {\n\t\tdefer close(a.doneLoading)\n","\tif true {\n\t\treturn a\n\t}\n\tgo func() {\n\t\tdefer close(a.doneLoading)\n")])
    d=copymod(MODC+"/gitlab.com/thorchain/tss/tss-lib@v0.0.0-20201118045712-70b2cb4bf916","tsslib")
    edit(d,"tss/party.go",[("func BaseUpdate(p Party, msg ParsedMessage, task string) (ok bool, err *Error) {\n","// SimFeed, when set, is told what a party is given (simulation seam).\nvar SimFeed func(p Party, msg ParsedMessage)\n\nfunc BaseUpdate(p Party, msg ParsedMessage, task string) (ok bool, err *Error) {\n\tif SimFeed != nil {\n\t\tSimFeed(p, msg)\n\t}\n")])
    with open(stamp,"w") as f: f.write(key)
    return rep

def sync_src():
    src=os.path.join(B,"src"); want={}
    for d,ds,fs in os.walk(REPO):
        rel=os.path.relpath(d,REPO)
        ds[:]=[x for x in ds if not (x.startswith(".") or (rel=="." and x in SKIP))]
        if rel!="." and os.path.exists(os.path.join(d,"go.mod")): ds[:]=[]; continue
        for f in fs:
            if f.endswith("_test.go"): continue
            if not (f.endswith(".go") or f in("go.mod","go.sum") or f.endswith((".s",".c",".h"))): continue
            want[os.path.normpath(os.path.join(rel,f))]=os.path.join(d,f)
    # dirs under cmd are main packages: keep only the http server, as package tsscmd
    want={k:v for k,v in want.items() if not k.startswith("cmd/") }
    for d,ds,fs in os.walk(os.path.join(VERIF,"sim")):
        rel=os.path.relpath(d,os.path.join(VERIF,"sim"))
        for f in fs:
            if rel.split("/")[0]=="inpkg":   # harness files that live inside a package under test
                want[os.path.normpath(os.path.join(*(rel.split("/")[1:] or ["."]),f))]=os.path.join(d,f)
            else: want[os.path.normpath(os.path.join("verifsim",rel,f))]=os.path.join(d,f)
    new=os.path.join(B,"src.new")
    if os.path.exists(new): shutil.rmtree(new)
    todo=[]
    for k,v in sorted(want.items()):
        p=os.path.join(new,k); os.makedirs(os.path.dirname(p),exist_ok=True)
        shutil.copyfile(v,p)
        top=k.split("/")[0]
        if v.startswith(REPO+"/") and k.endswith(".go") and top in INSTR and not k.endswith(".pb.go"): todo.append(p)
    rep=mods()
    g=open(os.path.join(new,"go.mod")).read()
    g=re.sub(r"(?m)^\s*github.com/binance-chain/tss-lib => .*\n","",g)
    g+="\nreplace (\n"+"".join(f"\t{k} => {v}\n" for k,v in sorted(rep.items()))+")\n"
    open(os.path.join(new,"go.mod"),"w").write(g)
    instr=os.path.join(B,"instr"); isrc=os.path.join(HERE,"instr.go")
    if not os.path.exists(instr) or os.path.getmtime(instr)<os.path.getmtime(isrc):
        e=dict(ENV); e.pop("GOEXPERIMENT"); e["GOFLAGS"]="-mod=mod"
        subprocess.check_call(["go","build","-o",instr,isrc],env=e,cwd=HERE)
    r=subprocess.run([instr,MOD+"/verifsim/simrt",new]+todo,stdout=subprocess.PIPE)
    if r.returncode: fail("instrumentation")
    open(os.path.join(B,"sites.txt"),"wb").write(r.stdout)
    if os.path.exists(src): shutil.rmtree(src)
    os.rename(new,src)
    return src

def main():
    race="--race" in sys.argv
    os.makedirs(B,exist_ok=True)
    lock=open(os.path.join(B,"lock"),"w"); fcntl.flock(lock,fcntl.LOCK_EX)
    rep=rtpatch.generate(GOROOT,os.path.join(B,"rt"))
    ov=os.path.join(B,"ov.json"); write(ov,json.dumps({"Replace":rep}))
    src=sync_src()
    out=os.path.join(B,"sim-race" if race else "sim")
    cmd=["go","build","-overlay",ov,"-ldflags=-checklinkname=0","-o",out]
    # the harness itself is built without race instrumentation: its own memory is of no interest, and
    # its lock is invisible to the detector on purpose (simrt.Mutex), so it would report itself
    # (its atomics stay calls, so that generic code first instantiated there keeps its edges)
    if race: cmd+=["-race",f"-gcflags={MOD}/verifsim/...=-race=false -d=ssa/intrinsics/off"]
    r=subprocess.run(cmd+["./verifsim/cmd"],cwd=src,env=ENV,stdout=subprocess.PIPE,stderr=subprocess.STDOUT)
    if r.returncode:
        sys.stderr.buffer.write(r.stdout); fail("go build")
if __name__=="__main__": main()
