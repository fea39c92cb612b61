import sys; sys.path.insert(0,'/verif/symx')
import term as tm, random, z3
# random differential test of the simplifier against z3
random.seed(int(sys.argv[1]) if len(sys.argv)>1 else 0)
ws=[1,3,8,9,16,17]
def rand(w,d):
    """returns (term, z3 expr built without simplification)"""
    if d==0 or random.random()<.15:
        if random.random()<.4:
            v=random.choice([0,1,tm.M(w),random.getrandbits(w)]); return v, z3.BitVecVal(v,w)
        n=random.choice("abc"); return tm.var(n+str(w),w), z3.BitVec(n+str(w),w)
    k=random.random()
    if k<.45:
        op=random.choice(list(tm.BIN)); x,zx=rand(w,d-1); y,zy=rand(w,d-1)
        if op in("shl","lshr","ashr") and random.random()<.7:
            y=random.randrange(w); zy=z3.BitVecVal(y,w)
        if op in("udiv","urem","sdiv","srem") :
            y=random.randrange(1,1<<w); zy=z3.BitVecVal(y,w)
        f={"add":lambda a,b:a+b,"sub":lambda a,b:a-b,"mul":lambda a,b:a*b,"and":lambda a,b:a&b,"or":lambda a,b:a|b,"xor":lambda a,b:a^b,"shl":lambda a,b:a<<b,"lshr":z3.LShR,"ashr":lambda a,b:a>>b,"udiv":z3.UDiv,"urem":z3.URem,"sdiv":lambda a,b:a/b,"srem":z3.SRem}[op]
        return tm.BIN[op](x,y,w), f(zx,zy)
    if k<.55:
        hi_w=random.choice([x for x in ws if x>=w]); x,zx=rand(hi_w,d-1); lo=random.randrange(hi_w-w+1)
        return tm.extract(x,lo+w-1,lo), z3.Extract(lo+w-1,lo,zx)
    if k<.65 and w>1:
        lw=random.randrange(1,w); h,zh=rand(w-lw,d-1); l,zl=rand(lw,d-1)
        return tm.concat(h,l,w-lw,lw), z3.Concat(zh,zl)
    if k<.75 and w>1:
        w0=random.randrange(1,w); x,zx=rand(w0,d-1)
        if random.random()<.5: return tm.zext(x,w0,w), z3.ZeroExt(w-w0,zx)
        return tm.sext(x,w0,w), z3.SignExt(w-w0,zx)
    if k<.88:
        c,zc=rand(1,d-1); x,zx=rand(w,d-1); y,zy=rand(w,d-1)
        return tm.ite(c,x,y,w), z3.If(zc==1,zx,zy)
    if w==1:
        w2=random.choice(ws); x,zx=rand(w2,d-1); y,zy=rand(w2,d-1)
        p=random.choice(["eq","ne","ult","ugt","ule","uge","slt","sgt","sle","sge"])
        f={"eq":zx==zy,"ne":zx!=zy,"ult":z3.ULT(zx,zy),"ugt":z3.UGT(zx,zy),"ule":z3.ULE(zx,zy),"uge":z3.UGE(zx,zy),"slt":zx<zy,"sgt":zx>zy,"sle":zx<=zy,"sge":zx>=zy}[p]
        return tm.icmp(p,x,y,w2), z3.If(f,z3.BitVecVal(1,1),z3.BitVecVal(0,1))
    op=random.choice(["ctlz","cttz","ctpop","not"])
    x,zx=rand(w,d-1)
    if op=="not": return tm.not_(x,w), ~zx
    return x,zx
bad=0
for it in range(int(sys.argv[2]) if len(sys.argv)>2 else 1500):
    w=random.choice(ws); t,z=rand(w,random.randrange(1,5))
    assert type(t) is not int or 0<=t<(1<<w),(t,w)
    assert type(t) is int or t.w==w
    s=z3.Solver(); s.set("timeout",3000); s.add(tm.zbv(t,w)!=z)
    r=s.check()
    if r==z3.sat:
        bad+=1; print("BAD",tm.show(t),z); 
        if bad>3: break
    lo,hi=tm.rng(t); s=z3.Solver(); s.set("timeout",3000); s.add(z3.Or(z3.ULT(z,lo),z3.UGT(z,hi)))
    if s.check()==z3.sat: bad+=1; print("BAD RANGE",tm.show(t),lo,hi,z)
print("done",bad)
