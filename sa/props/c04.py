"""Value-flow analysis of the surface classes: the abstract value of every
interior, distance and projection query, for symbolic surfaces and symbolic
points (including queries that follow attribute updates, orientation flips and
copies), is compared in an exact algebra with the geometric definition."""
from ..check import arrty as A

ENV = dict(r="float", c=A(3), tol="float", P=A(2, 3), n=A(3), p0=A(3), L="float", q=A(3), m=A(3), c2=A(3), r2="float",
           t2="float", L2="float")
POS = {"r": "pos", "tol": "pos", "L": "pos", "r2": "pos", "t2": "pos", "L2": "pos"}

SPH = "return np.linalg.norm(P-{c},axis=1) < {r}+{tol}"
PLN = "return (P-{p})@{n}/np.sqrt({n}@{n}) < {tol}"
SD = "return ({P}-{p})@{n}/np.sqrt({n}@{n})"
CYL = """
u={n}/np.linalg.norm({n})
t=(P-{p})@u
d=P-{p}-np.outer(t,u)
return np.logical_and(np.linalg.norm(d,axis=1) < {r}+{tol}, np.abs(t) < {L}/2+{tol})"""


def run(c):
    env = dict(ENV)
    if c.thorough:
        env["P"] = A(4, 3)

    def ob(name, drv, spec, at):
        c.eq(name, drv, spec, env, POS, at=at, zero=True)

    sph, pln, cyl = "Sphere.checkIfInterior", "Plane.checkIfInterior", "Cylinder.checkIfInterior"
    mk = {"s": "s=Sphere(r,c,tol=tol)\n", "p": "s=Plane(n,p0,tol=tol)\n", "c": "s=Cylinder(n,p0,r,L,tol=tol)\n"}
    q = "return s.checkIfInterior(P)"
    b = dict(c="c", r="r", tol="tol", p="p0", n="n", L="L")

    def f(t, **k):
        return t.format(**dict(b, **k))
    # constructed
    ob("sphere interior", mk["s"] + q, f(SPH), sph)
    ob("plane interior", mk["p"] + q, f(PLN), pln)
    ob("cylinder interior", mk["c"] + q, f(CYL), cyl)
    # default tolerance is positive and small: the surface itself is interior
    ob("sphere interior, keywords", "s=Sphere(radius=r,center=c,tol=tol)\n" + q, f(SPH), sph)
    ob("plane interior, keywords", "s=Plane(point=p0,normal=n,tol=tol)\n" + q, f(PLN), pln)
    ob("cylinder interior, keywords", "s=Cylinder(axis=n,point=p0,length=L,radius=r,tol=tol)\n" + q, f(CYL), cyl)
    # after updates
    ob("sphere interior after new radius", mk["s"] + "s.checkIfInterior(P)\ns.radius=r2\n" + q, f(SPH, r="r2"), sph)
    ob("sphere interior after new centre", mk["s"] + "s.checkIfInterior(P)\ns.center=c2\n" + q, f(SPH, c="c2"), sph)
    ob("sphere interior after new tolerance", mk["s"] + "s.checkIfInterior(P)\ns.tol=t2\n" + q, f(SPH, tol="t2"), sph)
    ob("plane interior after new normal", mk["p"] + "s.checkIfInterior(P)\ns.normal=m\n" + q, f(PLN, n="m"), pln)
    ob("plane interior after new point", mk["p"] + "s.checkIfInterior(P)\ns.point=c2\n" + q, f(PLN, p="c2"), pln)
    ob("plane interior after new tolerance", mk["p"] + "s.checkIfInterior(P)\ns.tol=t2\n" + q, f(PLN, tol="t2"), pln)
    ob("plane interior after a flip", mk["p"] + "s.checkIfInterior(P)\ns.flip_orientation()\n" + q, f(PLN, n="(-n)"), pln)
    ob("plane interior of a flipped plane", mk["p"] + "s=s.flip_orientation()\n" + q, f(PLN, n="(-n)"), pln)
    ob("plane interior after two flips", mk["p"] + "s.flip_orientation().flip_orientation()\n" + q, f(PLN), pln)
    ob("cylinder interior after new axis", mk["c"] + "s.checkIfInterior(P)\ns.axis=m\n" + q, f(CYL, n="m"), cyl)
    ob("cylinder interior after new point", mk["c"] + "s.checkIfInterior(P)\ns.point=c2\n" + q, f(CYL, p="c2"), cyl)
    ob("cylinder interior after new radius", mk["c"] + "s.checkIfInterior(P)\ns.radius=r2\n" + q, f(CYL, r="r2"), cyl)
    ob("cylinder interior after new length", mk["c"] + "s.checkIfInterior(P)\ns.length=L2\n" + q, f(CYL, L="L2"), cyl)
    ob("cylinder interior after new tolerance", mk["c"] + "s.checkIfInterior(P)\ns.tol=t2\n" + q, f(CYL, tol="t2"), cyl)
    # a single point
    one = "return s.checkIfInterior(q)"
    ob("plane interior of one point", mk["p"] + one, "return (q-p0)@n/np.sqrt(n@n) < tol", pln)
    # distances and projections
    for nm, pt in (("points", "P"), ("one point", "q")):
        sd = SD.format(P=pt, p="p0", n="n")
        ob("signed distance of " + nm, mk["p"] + "return s.sdist_from_plane(%s)" % pt, sd, "Plane.sdist_from_plane")
        ob("distance of " + nm, mk["p"] + "return s.dist_from_plane(%s)" % pt,
           "return np.abs(" + sd[7:] + ")", "Plane.dist_from_plane")
    ob("projection of points", mk["p"] + "return s.project_point(P)",
       "return P-np.outer((P-p0)@n/(n@n), n)", "Plane.project_point")
    ob("projection of one point", mk["p"] + "return s.project_point(q)",
       "return q-((q-p0)@n/(n@n))*n", "Plane.project_point")
    ob("signed distance of a projection is zero", mk["p"] + "return s.sdist_from_plane(s.project_point(P))",
       "return np.zeros(P.shape[0])", "Plane.project_point")
    for pt in ("P", "q"):
        ob("signed distance after a flip (%s)" % pt, mk["p"] + "s.flip_orientation()\nreturn s.sdist_from_plane(%s)" % pt,
           "return -" + SD.format(P=pt, p="p0", n="n")[7:], "Plane.sdist_from_plane")
    # helpers that reduce a list of points to one
    ob("projection after new point", mk["p"] + "s.point=c2\nreturn s.project_point(P)",
       "return P-np.outer((P-c2)@n/(n@n), n)", "Plane.project_point")
    # stored parameters
    ob("plane parameters", mk["p"] + "return s.params", "return n/np.linalg.norm(n), p0", "Plane.params")
    ob("sphere parameters", mk["s"] + "return s.params", "return r, c", "Sphere.params")
    # list inputs are accepted for defining data
    ob("sphere from a list centre", "s=Sphere(r,[c[0],c[1],c[2]],tol=tol)\n" + q, f(SPH), sph)
    ob("sphere from a column centre", "s=Sphere(r,c.reshape((3,1)),tol=tol)\n" + q, f(SPH), sph)
    ob("sphere after a new column centre", mk["s"] + "s.center=c2.reshape((3,1))\n" + q, f(SPH, c="c2"), sph)
    ob("plane from columns", "s=Plane(n.reshape((3,1)),p0.reshape((3,1)),tol=tol)\n" + q, f(PLN), pln)
    ob("plane from rows", "s=Plane(n[None,:],p0[None,:],tol=tol)\n" + q, f(PLN), pln)
    ob("cylinder from columns", "s=Cylinder(n.reshape((3,1)),p0.reshape((3,1)),r,L,tol=tol)\n" + q, f(CYL), cyl)
    ob("plane from lists", "s=Plane([n[0],n[1],n[2]],[p0[0],p0[1],p0[2]],tol=tol)\n" + q, f(PLN), pln)
    ob("cylinder from lists", "s=Cylinder([n[0],n[1],n[2]],[p0[0],p0[1],p0[2]],r,L,tol=tol)\n" + q, f(CYL), cyl)
    # the same surface held by a volume and queried through it
    for k, cls, spec in (("s", "sphere", f(SPH)), ("p", "plane", f(PLN)), ("c", "cylinder", f(CYL))):
        ob("%s interior through a volume" % cls, mk[k] + "v=Volume(alg_objects=[s])\nreturn v.checkIfInterior(P)", spec,
           "Volume.checkIfInterior")
    # points exactly at the limit are not below it
    ob("points at and below a sphere's limit", "s=Sphere(1.0,[0.0,0.0,0.0],tol=0.5)\nreturn s.checkIfInterior(np.array([[1.5,0.0,0.0],[0.0,-1.25,0.0],[0.0,0.0,-1.5]]))",
       "return np.array([False,True,False])", sph)
    ob("points at and below a plane's limit", "s=Plane([0.0,0.0,2.0],[0.0,0.0,1.0],tol=0.5)\nreturn s.checkIfInterior(np.array([[0.0,3.0,1.5],[0.0,7.0,1.25],[5.0,0.0,0.5]]))",
       "return np.array([False,True,True])", pln)
    ob("points at and below a cylinder's limits", "s=Cylinder([0.0,0.0,2.0],[0.0,0.0,0.0],1.0,2.0,tol=0.5)\nreturn s.checkIfInterior(np.array([[1.5,0.0,0.0],[0.0,0.0,1.5],[0.0,0.0,-1.5],[0.0,1.25,-1.25]]))",
       "return np.array([False,False,False,True])", cyl)
