import sys, traceback
sys.path.insert(0, '/verif')
from pa.drive import *
prog = MD.Program()
def t(src, mk, show=True):
    I = Interp(prog)
    f = snippet(prog, 'import numpy as np\n' + src)
    r = run(I, f, *mk(I))
    v = r.frozen() if not r.dead else 'DEAD'
    print(v, '| raises', [(e.exc, e.pc) for e in r.raises][:3], '| unk', I.unknowns[:4])
    for l in I.loop_log: print('    loop', l)
n, m, N = dim('n'), dim('m'), dim('N')
AB = lambda I: (mat(I, 'A', n, n), mat(I, 'B', n, m))
cases = [
 ('def f(A,B):\n return A.dot(B)+B', AB),
 ('def f(A,N):\n s=0\n for i in range(N):\n  s=s+i\n return s', lambda I: (mat(I,'A',n,n), N)),
 ('def f(A,N):\n M=np.eye(A.shape[0])\n for i in range(N):\n  M=A.dot(M)\n return M', lambda I: (mat(I,'A',n,n), N)),
 ('def f(A,x,u):\n X=[x]\n for i in range(len(u)):\n  X.append(A.dot(X[i])+u[i])\n return X', lambda I: (mat(I,'A',n,n), mat(I,'x',n), family(I,N,lambda i: farr('u',n,idx=(i,))))),
 ('def f(A,N):\n S=np.zeros((0,A.shape[1]))\n for i in range(N):\n  S=np.vstack((S,A))\n return S', lambda I: (mat(I,'A',n,n), N)),
 ('def f(A,N):\n return np.vstack([A.dot(A)]*N)', lambda I: (mat(I,'A',n,n), N)),
 ('def f(A,N):\n S=np.zeros((N*A.shape[0],A.shape[1]))\n for i in range(N):\n  S[i*A.shape[0]:(i+1)*A.shape[0],:]=A\n return S', lambda I: (mat(I,'A',n,n), N)),
 ('def f(A,x):\n for i in range(A.shape[0]):\n  if A[i,0]>0:\n   raise ValueError("x")\n return 1', lambda I: (mat(I,'A',n,n), mat(I,'x',n))),
 ('def f(A,x):\n for i in range(A.shape[0]):\n  if A[i,0]>0:\n   return i\n return None', lambda I: (mat(I,'A',n,n), mat(I,'x',n))),
 ('def f(A,N):\n i=0\n M=np.eye(A.shape[0])\n while i<N:\n  M=A.dot(M)\n  i+=1\n return M', lambda I: (mat(I,'A',n,n), N)),
 ('def f(A,N):\n L=[]\n for i in range(N):\n  for j in range(N):\n   if i!=j:\n    L.append(A[i,j])\n return L', lambda I: (mat(I,'A',N,N), N)),
 ('def f(A,N):\n s=0.\n for i in range(N):\n  s+=A[i,i]\n return s', lambda I: (mat(I,'A',N,N), N)),
 ('def f(A,x):\n k=0\n while np.linalg.norm(x)>1:\n  x=A.dot(x)\n  k+=1\n return x,k', lambda I: (mat(I,'A',n,n), mat(I,'x',n))),
]
sel = [int(a) for a in sys.argv[1:]] or range(len(cases))
for i in sel:
    print('---', i, cases[i][0].replace('\n', ';'))
    try: t(*cases[i])
    except Exception: traceback.print_exc(limit=-6)
