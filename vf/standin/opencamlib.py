"""Stand-in for the third party library opencamlib (not installable here): drops flat and
ball end mills onto a triangle mesh, with the same interface, so that cq_cam.operations.op3d
runs for real."""
import math, sys
import numpy as np
class Point:
    def __init__(self,x=0.,y=0.,z=0.): self.x,self.y,self.z=x,y,z
class CLPoint(Point): pass
class Triangle:
    def __init__(self,a,b,c): self.p=(a,b,c)
class STLSurf:
    def __init__(self): self.tris=[]
    def addTriangle(self,t): self.tris.append([(q.x,q.y,q.z) for q in t.p])
class MillingCutter:
    def __init__(self,d,l): self.d,self.l=float(d),float(l)
    def getDiameter(self): return self.d
    def getRadius(self): return self.d/2
class CylCutter(MillingCutter): ball=False
class BallCutter(MillingCutter): ball=True
class BatchDropCutter:
    def __init__(self): self.pts=[]
    def setCutter(self,c): self.c=c
    def appendPoint(self,p): self.pts.append(p)
    def setSTL(self,s): self.s=s
    def run(self):
        T=np.array(self.s.tris,float)
        for p in self.pts:
            p.z=max(p.z,self.drop(T,p.x,p.y))
    def getCLPoints(self): return self.pts
    def drop(self,T,x,y):
        R=self.c.d/2; best=-math.inf
        lo=T[:,:,:2].min(1); hi=T[:,:,:2].max(1)
        near=(lo[:,0]<=x+R)&(hi[:,0]>=x-R)&(lo[:,1]<=y+R)&(hi[:,1]>=y-R)
        for t in T[near]:
            for v in t: # vertices
                d=math.hypot(v[0]-x,v[1]-y)
                if d<=R: best=max(best,v[2]+(math.sqrt(R*R-d*d)-R if self.c.ball else 0))
            for a,b in ((t[0],t[1]),(t[1],t[2]),(t[2],t[0])):
                best=max(best,self.edge(a,b,x,y,R))
            best=max(best,self.facet(t,x,y,R))
        return best
    def edge(self,a,b,x,y,R):
        dx,dy=b[0]-a[0],b[1]-a[1]; L=math.hypot(dx,dy)
        if L<1e-12: return -math.inf
        s0=((x-a[0])*dx+(y-a[1])*dy)/L; d2=((x-a[0])*dy-(y-a[1])*dx)**2/L/L
        if d2>R*R: return -math.inf
        h=math.sqrt(R*R-d2); m=(b[2]-a[2])/L
        f=lambda s:a[2]+m*s
        if not self.c.ball:
            s=min(max(s0+(h if m>0 else -h),0),L)
            if abs(s-s0)>h+1e-9: return -math.inf
            return f(s)
        u=h*m/math.sqrt(1+m*m)
        s=min(max(s0+u,0),L)
        if abs(s-s0)>h: return -math.inf
        return f(s)+math.sqrt(max(h*h-(s-s0)**2,0))-R
    def facet(self,t,x,y,R):
        n=np.cross(t[1]-t[0],t[2]-t[0]); l=np.linalg.norm(n)
        if l<1e-14 or abs(n[2])/l<1e-9: return -math.inf
        n=n/l
        if n[2]<0: n=-n
        g=math.hypot(n[0],n[1])
        if self.c.ball: px,py=x-R*n[0],y-R*n[1]
        else:
            if g<1e-12: px,py=x,y
            else: px,py=x-R*n[0]/g,y-R*n[1]/g
        # inside of the triangle?
        s=[(b[0]-a[0])*(py-a[1])-(b[1]-a[1])*(px-a[0]) for a,b in ((t[0],t[1]),(t[1],t[2]),(t[2],t[0]))]
        if not (min(s)>=-1e-9 or max(s)<=1e-9): return -math.inf
        z=t[0][2]-(n[0]*(px-t[0][0])+n[1]*(py-t[0][1]))/n[2]
        return z+(R*n[2]-R if self.c.ball else 0)
ocl=sys.modules[__name__]
