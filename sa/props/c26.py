"""Abstract interpretation of s2s_alignment and of the transform it returns, on
symbolic planes and reference points: transformed points, planes and reference
points are compared with a rotation about the moving plane's point that makes
the normals anti-parallel, followed by the contact translation."""
import math

from sa.check import arrty as A

ENV = dict(n=A(3), m=A(3), p=A(3), q=A(3), a=A(3), b=A(3), P=A(2, 3), k="float", tol="float", x=A(3))
POS = {"k": "pos", "tol": "pos"}
GEN = dict(angles=(1e-6, math.pi - 1e-6))
HD = "T=s2s_alignment(Plane(n,p),Plane(m,q),a,b)\n"
AX = {"moving normal along -y": ("n=np.array([0,-1.0,0])*k\n", GEN), "moving normal along z": ("n=np.array([0,0,1.0])*k\n", GEN), "target normal along x": ("m=np.array([-1.0,0,0])*k\n", GEN),
      "already anti-parallel": ("m=-n*k\n", {}), "same direction": ("m=n*k\n", {}), "same direction along z": ("n=np.array([0,0,1.0])\nm=n*k\n", {}),
      "same direction in a coordinate plane": ("n=np.array([0,1.0,1.0])\nm=n*k\n", {}),
      "perpendicular axes": ("n=np.array([0,0,2.0])\nm=np.array([0,1.0,0])*k\n", {})}


def run(c):
    at = ["s2s_alignment", "rot_vtv"]
    for nm, (pre, kw) in AX.items():
        def ob(name, drv, spec, rule):
            c.eq("%s: %s" % (nm, name), pre + HD + drv, pre + "u=m/np.linalg.norm(m)\n" + spec, ENV, POS, at=at, rule=rule, **kw)
        ob("normals anti-parallel", "return T.applyTransformation_alg(Plane(n,p)).normal", "return -u", "normals anti-parallel")
        ob("plane moves as the points do", "return T.applyTransformation_alg(Plane(n,p)).point-T.applyTransformation(p)", "return np.zeros(3)",
           "one affine map")
        ob("moving point on the target plane", "return (T.applyTransformation(p)-q)@m", "return 0.0", "contact")
        ob("reference points coincide in the plane", "d=T.applyTransformation(a)-b\nreturn d*(m@m)-m*(d@m)", "return np.zeros(3)",
           "projections of the reference points coincide")
        rot = "R=rot_vtv(n,-m)\nra=R@(a-p)+p\nd=b-ra\nt=d-u*(d@u)-u*((p-q)@u)\n"
        if nm == "same direction":
            continue
        ob("whole map", "return T.applyTransformation(P)", rot + "return (P-p)@R.T+p+t", "rotation about the moving point, then the contact translation")
        ob("one point", "return T.applyTransformation(x)", rot + "return R@(x-p)+p+t", "rotation about the moving point, then the contact translation")
        ob("lattice vectors", "return T.applyTransformation_bases(np.eye(3))", "return rot_vtv(n,-m)", "rotation part")
    Z = "n=np.array([0,0,1.0])*k\n"
    ob = lambda name, drv, spec, rule: c.eq(name, Z + drv, Z + spec, ENV, POS, at=at, rule=rule, **GEN)  # noqa: E731
    ob("sequence of two", HD + "return len(T.transforms),isinstance(T.transforms[0],Rotation),isinstance(T.transforms[1],Translation)",
       "return 2,True,True", "rotation followed by translation")
    ob("keywords", "T=s2s_alignment(T_point=b,M_point=a,T_plane=Plane(m,q),M_plane=Plane(n,p))\nreturn T.applyTransformation(P)",
       HD + "return T.applyTransformation(P)", "parameters by name")
    ob("planes and points left alone", "M=Plane(n,p)\nT0=Plane(m,q)\nT=s2s_alignment(M,T0,a,b)\nT.applyTransformation(P)\nreturn M.normal,M.point,T0.normal,T0.point,a,b",
       "M=Plane(n,p)\nT0=Plane(m,q)\nreturn M.normal,M.point,T0.normal,T0.point,a,b", "arguments unchanged")
    ob("transform does not follow the plane", "M=Plane(n,p)\nT0=Plane(m,q)\nT=s2s_alignment(M,T0,a,b)\nT0.point=x\nreturn T.applyTransformation(P)",
       HD + "return T.applyTransformation(P)", "the computed map is fixed")
    c.eq("projection onto a plane", "return Plane(m,q).project_point(x)", "u=m/np.linalg.norm(m)\nreturn x-u*((x-q)@u)", ENV, POS,
         at=["Plane.project_point"], rule="orthogonal projection")
    c.eq("signed distance", "return Plane(m,q).sdist_from_plane(x)", "return ((x-q)@m)/np.linalg.norm(m)", ENV, POS, at=["Plane.sdist_from_plane"],
         rule="signed distance along the normal")
    c.eq("distance", "return Plane(m,q).dist_from_plane(x)", "return np.abs(((x-q)@m)/np.linalg.norm(m))", ENV, POS, at=["Plane.dist_from_plane"],
         rule="distance along the normal")
