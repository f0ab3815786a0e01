#!/usr/bin/env python3
"""Development aid (not part of any check): assemble the reference meaning of random lines with
GNU as and make sure the decoder reads the bytes back as that meaning."""
import re, subprocess, sys, tempfile, os
VH = sys.argv[1]; N = sys.argv[2] if len(sys.argv) > 2 else "3"
R64 = "rax rcx rdx rbx rsp rbp rsi rdi r8 r9 r10 r11 r12 r13 r14 r15".split()
def reg(name, bits):
    i = R64.index(name)
    if i >= 8: return name + {64:"",32:"d",16:"w",8:"b"}[bits]
    b = name[1:]
    if bits == 64: return name
    if bits == 32: return "e"+b
    if bits == 16: return b
    return {"ax":"al","cx":"cl","dx":"dl","bx":"bl","sp":"spl","bp":"bpl","si":"sil","di":"dil"}[b]
CC="o no b ae e ne be a s ns p np l ge le g".split()
def opnd(o):
    m = re.fullmatch(r"(r\w+)\.(\d+)", o)
    if m: return reg(m.group(1), int(m.group(2)))
    m = re.fullmatch(r"m(\d+)\[(.*)\]", o)
    if m:
        sz = {"0":"","8":"byte ptr ","16":"word ptr ","32":"dword ptr ","64":"qword ptr ","128":"xmmword ptr "}[m.group(1)]
        body = m.group(2)
        k = max(body.rfind("+0x"), body.rfind("-0x"))
        d = int(body[k+1:],16); 
        if body[k]=='-': d=-d
        if d >= 1<<63: d -= 1<<64
        return "%s[%s%+d]" % (sz, body[:k], d)
    m = re.fullmatch(r"rel([+-]\d+)", o)
    if m: return ".%+d" % int(m.group(1)), 
    return o
def gas(t):
    op, _, rest = t.partition(" ")
    m = re.match(r"(\w+)(?:\((.*?)\))?(?:$| )", t)
    full = re.match(r"(\w+(?:\([^ ]*\))?) ?(.*)", t)
    op, rest = full.group(1), full.group(2)
    ops = [opnd(x) for x in rest.split(", ")] if rest else []
    m = re.fullmatch(r"(\w+)\((\w+)\)", op)
    if m:
        k, v = m.groups()
        if k in ("Alu","Shift"): mn = v.lower()
        elif k == "Sse": mn = {"Xorp":"xorps","Andp":"andpd","Orp":"orpd"}.get(v, v.lower())
        elif k == "Set": mn = "set"+CC[int(v)]
        elif k == "Cmov": mn = "cmov"+CC[int(v)]
        elif k == "Jcc": mn = "j"+CC[int(v)]
        elif k == "Cxd": mn = {"8":"cqo","4":"cdq","2":"cwd"}[v]
        else: raise Exception(t)
    else:
        mn = op.lower()
        if mn == "mov" and len(ops)==2 and re.fullmatch(r"-?\d+", str(ops[1])) and not isinstance(ops[1],tuple) and ops[0] in R64: mn = "movabs"
        if mn == "movsx" and ".32" in rest.split(", ")[1] or mn=="movsx" and rest.split(", ")[1].startswith("m32"): mn="movsxd"
        if mn == "imul1": mn="imul"
    if ops and isinstance(ops[0], tuple):
        return None
    return mn + " " + ", ".join(ops)
lines = [l.rstrip("\n").split("\t") for l in subprocess.run([VH,"spec-dump",N],stdout=subprocess.PIPE,text=True).stdout.splitlines()]
src=[".intel_syntax noprefix"]; idx=[]
for mn, t, c in lines:
    g = gas(t)
    if g is None: continue
    idx.append((mn,t,c,g)); src.append("L%d: %s" % (len(idx)-1, g))
n=len(idx)
src.append("L%d:" % n); src.append(".section .lens")
src += [".long L%d-L%d" % (i+1,i) for i in range(n)]
d=tempfile.mkdtemp()
open(d+"/a.s","w").write("\n".join(src)+"\n")
p=subprocess.run(["as","-o",d+"/a.o",d+"/a.s"],stderr=subprocess.PIPE,text=True)
if p.returncode: print(p.stderr[:3000]); sys.exit(1)
subprocess.check_call(["objcopy","-O","binary","-j",".text",d+"/a.o",d+"/t"])
subprocess.check_call(["objcopy","-O","binary","--set-section-flags",".lens=alloc","-j",".lens",d+"/a.o",d+"/l"])
T=open(d+"/t","rb").read(); Ls=open(d+"/l","rb").read()
byte={}; o=0
for i in range(n):
    k=int.from_bytes(Ls[4*i:4*i+4],"little"); byte[i+2]=T[o:o+k].hex(); o+=k
bad=set()
hexes=[];keep=[]
for i,x in enumerate(idx):
    if i+2 in bad: continue
    if i+2 not in byte: print("no bytes", x); continue
    hexes.append(byte[i+2]); keep.append(x)
out=subprocess.run([VH,"decode"],input="\n".join(hexes)+"\n",stdout=subprocess.PIPE,text=True).stdout.splitlines()
nb=0; mns=set()
for x,h,o in zip(keep,hexes,out):
    mns.add(x[0])
    if x[2]!=o:
        nb+=1
        if nb<30: print("DIFF",x,h,o)
print(len(keep),"compared",nb,"differences",len(bad),"refused by as",len(mns),"mnemonics")
subprocess.run(["rm","-rf",d])
