import sys, traceback, time
sys.path.insert(0, '/verif')
from pa.drive import *
prog = MD.Program()
from pa.programs import handlers, region
H=handlers()
DS='pympc.dynamics.discrete_time_systems.'
PO='pympc.geometry.polyhedron.Polyhedron'
nx,nu,N,s,m,p = dim('nx'),dim('nu'),dim('N'),dim('s'),dim('m'),dim('p')
def lin(I): return new(I, DS+'LinearSystem', mat(I,'A',nx,nx), mat(I,'B',nx,nu)).val
def aff(I): return new(I, DS+'AffineSystem', mat(I,'A',nx,nx), mat(I,'B',nx,nu), mat(I,'c',nx)).val
def poly(I, eq=True): return new(I, PO, mat(I,'PA',m,nx), mat(I,'Pb',m), *((mat(I,'PC',p,nx), mat(I,'Pd',p)) if eq else ())).val
def us(I): return family(I,N,lambda i: farr('u',nu,idx=(i,)), name='u')
T={}
def case(f): T[f.__name__]=f; return f
def show(I, r, st=True):
    I2=r.I
    if r.dead: print('   DEAD')
    else: print('  ', str(r.frozen())[:900])
    for e in r.raises[:6]: print('   raise', e.exc, e.fn, e.pc, e.msg[:50])
    for u in I.unknowns[:8]: print('   unk', u)
    for l in I.loop_log: 
        if any(x[1]=='top' for x in l[2]): print('   loop', l)
@case
def sim(I): return method(I, lin(I), 'simulate', mat(I,'x',nx), us(I))
@case
def simaff(I): return method(I, aff(I), 'simulate', mat(I,'x',nx), us(I))
@case
def cond(I): return method(I, lin(I), 'condense', N)
@case
def condaff(I): return method(I, aff(I), 'condense', N)
@case
def polyc(I): return run(I, lambda: poly(I))
@case
def contains(I): return method(I, poly(I), 'contains', mat(I,'x',nx))
@case
def intersection(I):
    P1=poly(I); P2=new(I, PO, mat(I,'QA',s,nx), mat(I,'Qb',s)).val
    return method(I,P1,'intersection',P2)
@case
def cart(I):
    P1=poly(I); P2=new(I, PO, mat(I,'QA',s,nu), mat(I,'Qb',s)).val
    return method(I,P1,'cartesian_product',P2)
@case
def normalize(I):
    P1=poly(I); r=method(I,P1,'normalize'); return run(I, lambda: P1)
def prop(n, eq=True):
    def f(I):
        P1=poly(I,eq); return run(I, lambda: I.getattr(P1,n))
    f.__name__=n+('' if eq else '_ne'); case(f)
for n in ('empty','bounded','radius','center','vertices'):
    prop(n); prop(n, False)
@case
def minfac(I): return method(I, poly(I,False),'minimal_facets')
@case
def minfac_eq(I): return method(I, poly(I),'minimal_facets')
@case
def redund(I):
    P1=poly(I,False); r=method(I,P1,'remove_redundant_inequalities'); return run(I, lambda: P1)
@case
def incl(I):
    P1=poly(I); P2=new(I, PO, mat(I,'QA',s,nx), mat(I,'Qb',s)).val
    return method(I,P1,'is_included_in',P2)
@case
def proj(I):
    P1=poly(I,False); return method(I,P1,'project_to',I.new_list([One(P(0)),One(P(1))]))
@case
def frombounds(I): return run(I, prog.find(PO+'.from_bounds'), mat(I,'lo',nx), mat(I,'hi',nx))
@case
def addlb_idx(I):
    P1=poly(I,False); r=method(I,P1,'add_lower_bound',mat(I,'lo',s), family(I,s,lambda i: Poly.atom(('elem','idx',i))));return run(I, lambda: P1)
@case
def remeq(I): return method(I,poly(I),'_remove_equalities')
@case
def fromsym(I):
    x=Opq('symvec','x',nx); e=Opq('symexpr','e',s)
    return run(I, prog.find(PO+'.from_symbolic'), x, e)
if __name__=='__main__':
  for nme in sys.argv[1:] or T:
    I=Interp(prog, H); t0=time.time()
    print('---',nme)
    try: show(I, T[nme](I))
    except Exception: traceback.print_exc(limit=-7)
    print('   %.2fs'%(time.time()-t0))
