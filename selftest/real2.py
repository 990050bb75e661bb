import sys; sys.path.insert(0,'/verif/selftest')
import real
from real import *
import pa.alg as ALG
real.T.clear()
PP='pympc.optimization.parametric_programs.'
CC='pympc.control.controllers.'
def dic(I, **k): return I.alloc(DictC({Const(a if a!='zero' else '0'):b for a,b in k.items()}))
def mpqp(I):
    ALG.SYM.update(['Huu','Hxx'])
    return new(I, PP+'MultiParametricQuadraticProgram', dic(I,uu=mat(I,'Huu',nu,nu),ux=mat(I,'Hux',nu,nx),xx=mat(I,'Hxx',nx,nx)),
      dic(I,u=mat(I,'fu',nu),x=mat(I,'fx',nx)), mat(I,'g'), dic(I,u=mat(I,'Au',m,nu),x=mat(I,'Ax',m,nx)), mat(I,'b',m)).val
def aset(I, n=m, name='act'):
    v=fresh('a'); CTX.ranges[v]=(ZERO,n)
    return I.new_list([Rep(n,v,Poly.atom(v),Cond(('in',name,Poly.atom(v))))])
@case
def qpsolve(I): return method(I, mpqp(I), 'solve', mat(I,'x',nx))
@case
def qpact(I): return method(I, mpqp(I), 'explicit_solve_given_active_set', aset(I))
@case
def qppoint(I): return method(I, mpqp(I), 'explicit_solve_given_point', mat(I,'x',nx), aset(I))
@case
def qpexpl(I): return method(I, mpqp(I), 'explicit_solve')
@case
def feasset(I): return method(I, mpqp(I), 'get_feasible_set')
def mpmiqp(I):
    nz,nd=dim('nz'),dim('nd')
    ALG.SYM.update(['Huu','Hxx','Hzz'])
    return new(I, PP+'MultiParametricMixedIntegerQuadraticProgram', dic(I,uu=mat(I,'Huu',nu,nu),zz=mat(I,'Hzz',nz,nz),zx=mat(I,'Hzx',nz,nx),xx=mat(I,'Hxx',nx,nx)),
       dic(I,u=mat(I,'Au',m,nu),z=mat(I,'Az',m,nz),d=mat(I,'Ad',m,nd),x=mat(I,'Ax',m,nx)), mat(I,'b',m)).val
@case
def miqpsolve(I): return method(I, mpmiqp(I), 'solve', mat(I,'x',nx))
def mpc(I):
    ALG.SYM.update(['Q','R','P'])
    D=new(I, PO, mat(I,'DA',m,nx+nu), mat(I,'Db',m), mat(I,'DC',p,nx+nu), mat(I,'Dd',p)).val
    XN=new(I, PO, mat(I,'XA',s,nx), mat(I,'Xb',s)).val
    return new(I, CC+'ModelPredictiveController', lin(I), N, mat(I,'Q',nx,nx), mat(I,'R',nu,nu), mat(I,'P',nx,nx), D, XN)
@case
def mpcc(I):
    r=mpc(I)
    return r if r.dead else run(I, lambda: I.getattr(r.val,'mpqp'))
@case
def mpcff(I): return method(I, mpc(I).val,'feedforward', mat(I,'x',nx))
@case
def mpcfb(I): return method(I, mpc(I).val,'feedback', mat(I,'x',nx))
@case
def mpcffe(I):
    C=mpc(I).val; method(I,C,'store_explicit_solution'); return method(I,C,'feedforward_explicit', mat(I,'x',nx))
def hyb(I):
    ALG.SYM.update(['Q','R','P'])
    S=P(2)*dim('sm')*0+dim('sm',2)
    sysl=family(I,S,lambda i: FObj(prog.find(DS+'AffineSystem'), tuple(sorted([('A',farr('A',nx,nx,idx=(i,))),('B',farr('B',nx,nu,idx=(i,))),('c',farr('c',nx,idx=(i,))),('nx',nx),('nu',nu)]))))
    mi=lambda i: Poly.atom(('elem','mi',i))
    pi=lambda i: Poly.atom(('elem','pi',i))
    dom=family(I,S,lambda i: FObj(prog.find(PO), tuple(sorted([('A',farr('DA',mi(i),nx+nu,idx=(i,))),('b',farr('Db',mi(i),idx=(i,))),('C',farr('DC',pi(i),nx+nu,idx=(i,))),('d',farr('Dd',pi(i),idx=(i,)))]+[(x,NONE) for x in ('_empty','_bounded','_radius','_center','_vertices')]))))
    pwa=new(I, DS+'PieceWiseAffineSystem', sysl, dom)
    return pwa
@case
def pwac(I): return hyb(I)
def hmpc(I):
    h=hyb(I)
    XN=new(I, PO, mat(I,'XA',s,nx), mat(I,'Xb',s)).val
    return new(I, CC+'HybridModelPredictiveController', h.val, N, mat(I,'Q',nx,nx), mat(I,'R',nu,nu), mat(I,'P',nx,nx), XN)
@case
def hmpcc(I):
    r=hmpc(I)
    return r if r.dead else run(I, lambda: I.getattr(r.val,'mpmiqp'))
@case
def hff(I): return method(I, hmpc(I).val,'feedforward', mat(I,'x',nx))
def modes(I): return family(I,N,lambda i: Poly.atom(('elem','ms',i)))
@case
def hmpqp(I): return method(I, hmpc(I).val,'get_mpqp', modes(I))
@case
def pwasim(I): return method(I, hyb(I).val,'simulate', mat(I,'x',nx), us(I))
@case
def pwacond(I): return method(I, hyb(I).val,'condense', modes(I))
@case
def pwawell(I): return method(I, hyb(I).val,'is_well_posed')
@case
def pwamode(I): return method(I, hyb(I).val,'get_mode', mat(I,'x',nx), mat(I,'u',nu))
@case
def mcais(I):
    return run(I, prog.find(DS+'mcais'), mat(I,'A',nx,nx), poly(I,False))
@case
def lqr(I): return method(I, lin(I),'solve_dare', mat(I,'Q',nx,nx), mat(I,'R',nu,nu))
if __name__=='__main__':
  for nme in sys.argv[1:] or real.T:
    I=Interp(prog,H); t0=time.time()
    print('---',nme)
    try: show(I, real.T[nme](I))
    except Exception: traceback.print_exc(limit=-7)
    print('   %.2fs'%(time.time()-t0))
