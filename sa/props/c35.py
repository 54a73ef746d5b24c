"""Abstract interpretation of the grain boundary prefab with symbolic lattices,
origins, boundary planes and host priorities: members, surfaces, priorities and
generators are compared with the two grains a boundary consists of."""
import math

from sa.check import arrty as A
from . import common as cm

ENV = dict(X=A(5, 3), n=A(3), p=A(3), q=A(3), m=A(3), go=A(3), bd=A(3), z=A(3), w=A(3), c=A(3), r="float", pr="int", L="float")
POS = {"bd": "pos", "r": "pos", "L": "pos"}
GEN = dict(angles=(1e-6, math.pi - 1e-6))
HOST = "g=Generator(origin=go)\ng.voxel.bases=B\nu=Volume(%s,generator=g,priority=pr)\n"
OUT = ("return [len(mv.volumes),mv.volumes[0].priority-pr,mv.volumes[1].priority-pr]+"
       "[[o.params for o in x.alg_objects] for x in mv.volumes]+[x.points%s for x in mv.volumes]")
GENS = "return [[x.generator.voxel.bases,x.generator.origin] for x in mv.volumes]"


def run(c):
    at = ["SimpleGrainBoundary.build_object"]

    def ob(name, drv, spec, rule, **k):
        c.eq(name, drv, spec, ENV, POS, at=at, rule=rule, hooks=cm.hull_hooks, models=cm.GEO, key=name, **k)
    hosts = {"points": ("points=X", "[]", "X"), "a ball": ("alg_objects=[Sphere(r,c)]", "[(r,c)]", "None"),
             "points and two surfaces": ("points=X,alg_objects=[Sphere(r,c),Plane(m,q)]", "[(r,c),(m,q)]", "X")}
    ways = {"one axis": ("z1=(0,1,1),r1=0", "(0,1,1)", "(0,1,1)"), "two axes": ("z1=[1,1,1],r1=0,z2=[0,1,1],r2=0", "(1,1,1)", "(0,1,1)"),
            "the second along z already": ("z1=np.array([2,-1,0]),r1=0,z2=(0,0,1),r2=0", "(2,-1,0)", "(0,0,1)"),
            "opposite axes": ("z1=(0,0,-1),r1=0,z2=(0,0,1),r2=0", "(0,0,-1)", "(0,0,1)"),
            "the first along z": ("z1=(0,0,1),r1=0,z2=(1,2,3),r2=0", "(0,0,1)", "(1,2,3)")}
    mats = {"rectangular cell": "B=np.diag([4.0,5.0,6.0])\n", "oblique cell": "B=np.array([[4.0,1.0,0.0],[0.0,3.0,1.0],[0.0,0.0,5.0]])\n",
            "turned cell": "B=np.array([[0.0,-4.0,0.0],[4.0,0.0,0.0],[0.0,0.0,4.0]])\n"}
    for h, (args, surf, pts) in hosts.items():
        for w, (za, z1, z2) in ways.items():
            ob("members on %s, %s" % (h, w), "B=np.diag(bd)\n" + HOST % args
               + "mv=SimpleGrainBoundary(%s,plane=Plane(n,p),volume=u,generator=g).build_object()\n" % za + OUT % ("" if pts == "X" else " is None"),
               "S=%s\nn=n/np.linalg.norm(n)\nm=m/np.linalg.norm(m)\n" % surf.replace("m,q", "m/np.linalg.norm(m),q")
               + "return [2,0,1,S+[(n,p)],S]+[%s,%s]" % ((pts,) * 2 if pts == "X" else ("True",) * 2),
               "two members: the host cut by the boundary plane, and the whole host one level later")
    for mn, ms in mats.items():
        for w, (za, z1, z2) in ways.items():
            d = ms + HOST % "points=X" + "mv=SimpleGrainBoundary(%s,plane=Plane(n,p),volume=u,generator=g).build_object()\n" % za
            for i, zz in enumerate((z1, z2)):
                ob("axis of grain %d, %s, %s" % (i + 1, mn, w), d + "x=mv.volumes[%d].generator.voxel.bases\nreturn x@np.array(%s),x.T@x,np.sign(np.linalg.det(x))" % (i, zz),
                   ms + "k=np.linalg.norm(B@np.array(%s))\nreturn np.array([0.0,0.0,1.0])*k,B.T@B,np.sign(np.linalg.det(B))" % zz,
                   "the crystal of each grain is the given one turned so that its own zone axis is along z")
            # a cell stretched by its scale, the same or another one along each edge
            for sn, sc in (("one scale", "2.5"), ("a scale per edge", "np.array([2.0,0.5,3.0])")):
                sd = ms + HOST.replace("u=", "g.voxel.scale=%s\nu=" % sc) % "points=X" + "mv=SimpleGrainBoundary(%s,plane=Plane(n,p),volume=u,generator=g).build_object()\n" % za
                for i, zz in enumerate((z1, z2)):
                    ob("axis of grain %d, %s, %s, %s" % (i + 1, mn, w, sn),
                       sd + "x=mv.volumes[%d].generator.voxel.sbases\nreturn x@np.array(%s),x.T@x,np.sign(np.linalg.det(x))" % (i, zz),
                       ms + "B=B*%s\nk=np.linalg.norm(B@np.array(%s))\nreturn np.array([0.0,0.0,1.0])*k,B.T@B,np.sign(np.linalg.det(B))" % (sc, zz),
                       "the crystal of each grain is the given one turned so that its own zone axis is along z")
            ob("grains turn the crystal about the origin, %s, %s" % (mn, w), d + "return [x.generator.voxel.bases@np.linalg.inv(B)@go-x.generator.origin for x in mv.volumes]",
               "return [np.zeros(3),np.zeros(3)]", "the lattice origin is carried along by the same rotation")
    d = "B=np.diag(bd)\n" + HOST % "points=X" + "mv=SimpleGrainBoundary((0,1,1),0,(1,1,1),0,plane=Plane(n,p),volume=u,generator=g).build_object()\n"
    ob("inputs unchanged", d + "return g.voxel.bases,g.voxel.origin,u.priority-pr,len(u.alg_objects),u.points", "return np.diag(bd),go,0,0,X", "host and generator stay as given")
