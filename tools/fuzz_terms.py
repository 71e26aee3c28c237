"""Self-test of the integer simplifier of the analyzer.

usage: fuzz_terms.py SEED COUNT
Random conditions are built under random assumptions; the simplified term must
have the value of the plain formula at every point of a small grid.
"""
import sys,random,itertools
import os
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), '..', 'analyzer'))
import terms as T
from terms import *
from mats import sym
V=['a','b','c','d']
S={v:sym(v) for v in V}
def gen(r,d):
    if d==0 or r.random()<.25:
        if r.random()<.6:
            v=r.choice(V); return S[v],lambda e,v=v:e[v]
        k=r.randint(-3,3); return const(k),lambda e,k=k:k
    o=r.choice(['+','-','*','//','%','-'])
    x,f=gen(r,d-1); y,g=gen(r,d-1)
    if o=='+': return add(x,y),lambda e:f(e)+g(e)
    if o=='-': return sub(x,y),lambda e:f(e)-g(e)
    if o=='*': return mul(x,y),lambda e:f(e)*g(e)
    v=r.choice(V); k=r.randint(1,3); n=r.randint(0,2)
    D=add(const(k),scale(S[v],n)); h=lambda e:k+n*e[v]
    q,m=T.f_divmod(x,D)
    return (q,lambda e:f(e)//h(e)) if o=='//' else (m,lambda e:f(e)%h(e))
def cond(r,d):
    if d==0 or r.random()<.4:
        x,f=gen(r,3)
        if r.random()<.5: return cmp_ge(x),lambda e:f(e)>=0
        y,g=gen(r,2); return cmp_eq(x,y),lambda e:f(e)==g(e)
    o=r.choice('&|!')
    x,f=cond(r,d-1)
    if o=='!': return bnot(x),lambda e:not f(e)
    y,g=cond(r,d-1)
    return (band(x,y),lambda e:f(e) and g(e)) if o=='&' else (bor(x,y),lambda e:f(e) or g(e))
def ev(t,env):
    if t is TRUE: return True
    if t is FALSE: return False
    op=t.op
    if op=='and': return all(ev(x,env) for x in t.a)
    if op=='or': return any(ev(x,env) for x in t.a)
    if op=='not': return not ev(t.a[0],env)
    if op in('ge','eq'):
        v=num_(t.a[1],env); return v>=0 if op=='ge' else v==0
    raise Exception(op)
def num_(p,env):
    tot=0
    for m,c in p.a:
        w=c
        for x,e in m: w*=at(x,env)**e
        tot+=w
    return tot
def at(x,env):
    if x.op=='app':
        if x.a[0]=='fdiv': return num_(x.a[1][0],env)//num_(x.a[1][1],env)
        if x.a[0]=='mod': return num_(x.a[1][0],env)%num_(x.a[1][1],env)
        if x.a[0] in env: return env[x.a[0]]
    if x.op=='nite': return num_(x.a[1],env) if ev(x.a[0],env) else num_(x.a[2],env)
    raise Exception(str(x)[:80])
names={v:S[v].a[0][0][0][0].a[0] for v in V}
bad=0; skip=0; n=int(sys.argv[2]); seed=int(sys.argv[1]); seen=set()
for i in range(n):
    r=random.Random(seed*1000003+i)
    try:
        h,hf=cond(r,1)
        with assume(h): t,f=cond(r,2)
    except Exception as ex: print('EXC',i,type(ex).__name__,str(ex)[:100]); bad+=1; continue
    for pt in itertools.product(range(0,4),repeat=4):
        e=dict(zip(V,pt))
        if not hf(e): continue
        try: got=ev(t,{names[v]:e[v] for v in V})
        except Exception as ex: skip+=1; break
        if got!=f(e):
            bad+=1; print('BAD',i,e,'got',got,str(t)[:300]); break
    if bad>8: break
print('done',i+1,'bad',bad,'skipped',skip)
sys.exit(1 if bad else 0)
