import sys, os; sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import z3, lia, random
W=8
def term(d,vs,arr):
    r=random.random()
    if d==0 or r<.2: return random.choice(vs) if random.random()<.7 else z3.BitVecVal(random.choice([0,1,2,3,7,8,127,128,254,255,random.randrange(256)]),W)
    a=term(d-1,vs,arr)
    k=random.randrange(16)
    if k<4: return a+term(d-1,vs,arr)
    if k<6: return a-term(d-1,vs,arr)
    if k==6: return a*random.randrange(256)
    if k==7: return z3.LShR(a,random.randrange(8))
    if k==8: return a<<random.randrange(8)
    if k==9: return z3.If(form(d-1,vs,arr),a,term(d-1,vs,arr))
    if k==10: return z3.Select(arr,a)
    if k==11: return z3.Select(z3.Store(arr,term(d-1,vs,arr),term(d-1,vs,arr)),a)
    if k==12: return a & random.choice([1,3,7,15,0xf0,0xfe,0xff,0x80])
    if k==13: return z3.URem(a,z3.BitVecVal(random.randrange(1,256),W))
    if k==14: return z3.Extract(7,0,z3.SignExt(8,a)+1) if random.random()<.5 else z3.Concat(z3.Extract(3,0,a),z3.Extract(7,4,a))
    return -a if random.random()<.5 else ~a
def form(d,vs,arr):
    k=random.randrange(9)
    if d>0 and k==0: return z3.And(form(d-1,vs,arr),form(d-1,vs,arr))
    if d>0 and k==1: return z3.Or(form(d-1,vs,arr),form(d-1,vs,arr))
    if k==2: return z3.Not(form(d-1,vs,arr)) if d>0 else z3.BoolVal(True)
    a,b=term(d,vs,arr),term(d,vs,arr)
    if k==3: return z3.ULE(a,b)
    if k==4: return z3.ULT(a,b)
    if k==5: return a<b
    if k==6: return a<=b
    return a==b
random.seed(int(sys.argv[1])); st={'sat':0,'unsat':0,'unknown':0}
for it in range(int(sys.argv[2])):
    vs=[z3.BitVec('x%d'%i,W) for i in range(3)]; arr=z3.Array('A',z3.BitVecSort(W),z3.BitVecSort(W))
    L=lia.Lia(3000); pc=[]
    for stp in range(6):
        if pc and random.random()<.3: pc=pc[:random.randrange(len(pc))]
        f=form(1,vs,arr) if random.random()<.6 else z3.ULE(random.choice(vs),random.randrange(256))
        if random.random()<.5: f=z3.simplify(f)
        pc=pc+[f]
        g=form(2,vs,arr)
        r=L.check(pc,g)
        s=z3.Solver(); s.add(*pc); s.add(g); q=str(s.check()); st[r]+=1
        if r!='unknown' and r!=q: print('BAD',r,q,pc,g); sys.exit(1)
        if q=='unsat' and not str(s.check(*[]))=='unsat': pass
print(st)
