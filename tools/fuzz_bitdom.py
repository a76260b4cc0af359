import sys, random, traceback
sys.path.insert(0,'/verif/lib')
import bitdom as B
from bitdom import *
def run(seed):
    R=random.Random(seed)
    B.DEF[1:]=[]; B.NAME[1:]=[]; B._HC.clear()
    if hasattr(B,'_REM'): B._REM.clear()
    F=Facts(); val={}
    memo={}
    def lit(l):
        if l<2: return l
        s=l>>1
        return sym(s)^(l&1)
    def V(v,w):
        if isinstance(v,int): return v&((1<<w)-1)
        if isinstance(v,tuple): return sum(lit(l)<<i for i,l in enumerate(v[:w]))
        r=(v.k+sum(c*sym(s) for s,c in v.t))&((1<<v.w)-1)
        return r&((1<<w)-1)
    def sym(s):
        if s in val: return val[s]
        if s in memo: return memo[s]
        d=DEF[s]; op=d[0]
        if op=="and": r=lit(d[1])&lit(d[2])
        elif op=="xor": r=lit(d[1])^lit(d[2])
        elif op=="le": r=int(sum(c*sym(x) for x,c in d[1])<=d[2])
        elif op=="eq": r=int(V(d[1],d[3])==V(d[2],d[3]))
        elif op=="ult": r=int(V(d[1],d[3])<V(d[2],d[3]))
        elif op=="slt": r=int(sgn(V(d[1],d[3]),d[3])<sgn(V(d[2],d[3]),d[3]))
        elif op=="bit": r=(V(d[1],d[1].w if isinstance(d[1],LV) else 64)>>d[2])&1
        elif op in("mul","udiv","urem"):
            w=d[1]; a,b=V(d[2][0],w),V(d[2][1],w)
            x={"mul":lambda:a*b,"udiv":lambda:a//b,"urem":lambda:a%b}[op]()
            r=(x>>d[3])&1
        else: raise Exception(op)
        memo[s]=r
        return r
    log=[]
    W=R.choice([3,4,5,8])
    pool=[]
    for i in range(R.choice([1,2,3])):
        k=R.randint(1,W); b=fresh_bits("x%d"%i,k)
        for l in b: val[l>>1]=R.randint(0,1)
        v=simp(b+(0,)*(W-k)); 
        if R.random()<.3: v=simp(b+(b[-1],)*(W-k))
        pool.append((v,W)); log.append(("in",k,v,V(v,W)))
    def chk(what,v,w,c):
        g=V(v,w)
        if g!=c&((1<<w)-1): raise AssertionError("%s: value %r is %d should be %d"%(what,v,g,c))
        n=F.N(v)
        g=V(n,w)
        if g!=c&((1<<w)-1): raise AssertionError("%s: N %r -> %r is %d should be %d"%(what,v,n,g,c))
        for sg in(False,True):
            lo,hi=F.rng(n,w,sg); cc=sgn(g,w) if sg else g
            if not lo<=cc<=hi: raise AssertionError("%s: rng signed=%s %r = %s..%s misses %d"%(what,sg,n,lo,hi,cc))
    for step in range(R.randint(3,14)):
        if R.random()<.5:
            w=R.choice([p[1] for p in pool])
            same=[p for p in pool if p[1]==w]
            (a,_)=R.choice(same); (b,_)=R.choice(same+[(R.randrange(1<<w),w)]*2)
            a,b=F.N(a),F.N(b); ca,cb=V(a,w),V(b,w)
            op=R.choice(["add","sub","and","or","xor","shl","lshr","ashr","zext","sext","trunc","mulc","div","scale"])
            w2=w
            if op=="add": r,c=F.add(a,b,w),ca+cb
            elif op=="sub": r,c=F.add(a,b,w,-1),ca-cb
            elif op in("and","or","xor"): r,c=F.logic(op,a,b,w),{"and":ca&cb,"or":ca|cb,"xor":ca^cb}[op]
            elif op in("shl","lshr","ashr"):
                n=R.randrange(w); r=getattr(F,op)(a,n,w); c={"shl":ca<<n,"lshr":ca>>n,"ashr":sgn(ca,w)>>n}[op]
            elif op in("zext","sext"):
                w2=w+R.randint(1,8); r=getattr(F,op)(a,w,w2); c=ca if op=="zext" else sgn(ca,w)
            elif op=="trunc":
                if w<2: continue
                w2=R.randint(1,w-1); r=F.trunc(a,w,w2); c=ca
            elif op in("mulc","scale"):
                n=R.randrange(1<<w); r=F.mul(a,n,w); c=ca*n
            else:
                n=R.randint(1,(1<<w)-1); q,r=F.divmod(a,n,w); log.append(("div",a,n)); chk("div q",q,w,ca//n); c=ca%n
            log.append((op,a,b,w,r,c&((1<<w2)-1)))
            chk(op,r,w2,c)
            pool.append((r,w2))
        else:
            w=R.choice([p[1] for p in pool])
            same=[p for p in pool if p[1]==w]
            (a,_)=R.choice(same); (b,_)=R.choice(same+[(R.randrange(1<<w),w)]*3)
            a,b=F.N(a),F.N(b); ca,cb=V(a,w),V(b,w)
            if R.random()<.3: a,b,ca,cb=b,a,cb,ca
            op=R.choice(["eq","ult","slt"])
            t={"eq":ca==cb,"ult":ca<cb,"slt":sgn(ca,w)<sgn(cb,w)}[op]
            l=F.cmp(op,a,b,w)
            log.append((op,a,b,w,l,t))
            if lit(l)!=t: raise AssertionError("%s %r %r :%d literal %d (%r) is %d should be %d"%(op,a,b,w,l,DEF[l>>1] if l>1 else None,lit(l),t))
            try: F.assign(l if t else l^1)
            except Infeasible: raise AssertionError("assume %s %r %r %r: infeasible"%(op,a,b,t))
            for s in range(1,len(DEF)):
                if lit(F.L(2*s))!=sym(s): raise AssertionError("L of %d (%r) -> %r wrong"%(s,DEF[s],F.L(2*s)))
            for v,w in pool: chk("after",v,w,V(v,w))
    return log
a,b=int(sys.argv[1]),int(sys.argv[2]); bad=0; uns=0
for s in range(a,b):
    try: run(s)
    except Unsupported: uns+=1
    except AssertionError as e:
        bad+=1
        if bad<6: print(s,str(e)[:400])
    except Exception as e:
        bad+=1
        if bad<6: print(s); traceback.print_exc(limit=-3)
print("bad",bad,"unsupported",uns,"of",b-a)
