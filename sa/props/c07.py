"""Abstract interpretation of every transform class: points, sphere centres,
plane and cylinder points, normals, axes and lattice vectors after the transform
are computed for symbolic matrices, origins, shifts and planes, and compared in
an exact algebra with one affine map x -> M (x - o) + o (+ t); composed
transforms are compared with the composition in the given order."""
from sa.check import arrty as A

ROT = """
nn=1+b*b+c*c+d*d
R=np.array([[1+b*b-c*c-d*d, 2*(b*c-d), 2*(b*d+c)],[2*(b*c+d), 1-b*b+c*c-d*d, 2*(c*d-b)],[2*(b*d-c), 2*(c*d+b), 1-b*b-c*c+d*d]])/nn
"""
ENV = dict(P=A(3, 3), q=A(3), q1=A(1, 3), M=A(3, 3), M2=A(3, 3), o=A(3), o2=A(3), t=A(3), t2=A(3), n=A(3), p=A(3), b="float",
           c="float", d="float", n0=A(3), p0=A(3), r="float", L="float", tol="float", Bs=A(3, 3))
POS = {"r": "pos", "L": "pos", "tol": "pos"}
I3 = "np.eye(3)"
Z = "np.zeros(3)"
# name -> (constructor, linear part, shift):   x -> lin @ x + shift
TR = {
    "Translation": ("Translation(t)", I3, "t"),
    "Translation with keywords": ("Translation(shift=t,locked=False,basis_only=True)", I3, "t"),
    "Translation by a column": ("Translation(t.reshape((3,1)))", I3, "t"),
    "MatrixTransform": ("MatrixTransform(M,o)", "M", "(o - M@o)"),
    "MatrixTransform without origin": ("MatrixTransform(M)", "M", Z),
    "Inversion": ("Inversion(origin=o)", "(-np.eye(3))", "2*o"),
    "Inversion without origin": ("Inversion()", "(-np.eye(3))", Z),
    "Rotation": ("Rotation(matrix=R,origin=o)", "R", "(o - R@o)"),
    "Rotation without origin": ("Rotation(R)", "R", Z),
    "Reflection": ("Reflection(Plane(n,p))", "(np.eye(3)-2*np.outer(n,n)/(n@n))", "2*n*(n@p)/(n@n)"),
}


def run(c):
    def ob(name, drv, spec, at):
        c.eq(name, ROT + drv, ROT + spec, ENV, POS, at=at, rule="one affine map")

    def suite(name, mk, lin, sh, cls, iso=False, light=False):
        hd = "T=%s\n" % mk
        sp = "ML=%s\nS=%s\n" % (lin, sh)
        ob(name + " of points", hd + "return T.applyTransformation(P)", sp + "return P@ML.T + S", cls + ".applyTransformation")
        ob(name + " of one point", hd + "return T.applyTransformation(q)", sp + "return ML@q + S", cls + ".applyTransformation")
        ob(name + " of a row", hd + "return T.applyTransformation(q1)", sp + "return q1@ML.T + S", cls + ".applyTransformation")
        ob(name + " of bases", hd + "return T.applyTransformation_bases(Bs)", sp + "return ML@Bs",
           cls + ".applyTransformation_bases")
        al = cls + ".applyTransformation_alg"
        ob(name + " of a sphere", hd + "s=T.applyTransformation_alg(Sphere(r,p0,tol=tol))\nreturn s.center, s.tol",
           sp + "return ML@p0+S, tol", al)
        ob(name + " of a plane point", hd + "s=T.applyTransformation_alg(Plane(n0,p0,tol=tol))\nreturn s.point, s.tol",
           sp + "return ML@p0+S, tol", al)
        if light:
            ob(name + " of a cylinder point", hd + "s=T.applyTransformation_alg(Cylinder(n0,p0,r,L,tol=tol))\nreturn s.point, s.tol",
               sp + "return ML@p0+S, tol", al)
            return
        ob(name + " of a plane normal", hd + "s=T.applyTransformation_alg(Plane(n0,p0,tol=tol))\nreturn s.normal",
           sp + "w=np.linalg.inv(ML).T@n0\nreturn w/np.linalg.norm(w)", al)
        ob(name + " of a cylinder point", hd + "s=T.applyTransformation_alg(Cylinder(n0,p0,r,L,tol=tol))\nreturn s.point, s.tol",
           sp + "return ML@p0+S, tol", al)
        ob(name + " of a cylinder axis", hd + "s=T.applyTransformation_alg(Cylinder(n0,p0,r,L,tol=tol))\nreturn s.axis",
           sp + "w=ML@n0\nreturn w/np.linalg.norm(w)", al)
        if iso:
            ob(name + " keeps sizes", hd + "s=T.applyTransformation_alg(Cylinder(n0,p0,r,L,tol=tol))\n"
               "u=T.applyTransformation_alg(Sphere(r,p0))\nreturn s.radius, s.length, u.radius", "return r, L, r", al)
    for name, (mk, lin, sh) in TR.items():
        suite(name, mk, lin, sh, name.split()[0], iso=not name.startswith("Matrix"))
    # maps of special determinant or trace, which are no rotations
    for nm, m in (("a shear", "np.array([[1,0.5,0],[0,1,0],[0,0,1.0]])"), ("a shear along y", "np.array([[1.0,0,0],[-0.25,1,0.5],[0,0,1]])"), ("a stretch of unit determinant", "np.diag([2.0,0.5,1])"),
                  ("a stretch of the trace of the identity", "np.diag([0.5,1.5,1.0])"), ("a mirror", "np.diag([-1.0,1,1])"), ("a shear and mirror", "np.array([[0,1.0,0.5],[1,0,0],[0,0,1]])"),
                  ("a tiny shear", "np.array([[1,1e-3,0],[0,1,0],[0,0,1.0]])"), ("an axis exchange", "np.array([[0,1.0,0],[0,0,1],[1,0,0]])"), ("a shrinking", "0.01*np.eye(3)")):
        suite("MatrixTransform by " + nm, "MatrixTransform(%s,o)" % m, m, "(o-%s@o)" % m, "MatrixTransform")
        suite("MatrixTransform about the origin by " + nm, "MatrixTransform(%s)" % m, m, "np.zeros(3)", "MatrixTransform", light=True)
    # attribute updates
    suite("Translation after a new shift", "Translation(t2)\nT.applyTransformation(P)\nT.shift=t", I3, "t", "Translation")
    suite("MatrixTransform after a new matrix", "MatrixTransform(M2,o)\nT.applyTransformation(P)\nT.matrix=M", "M",
          "(o - M@o)", "MatrixTransform")
    suite("MatrixTransform after a new origin", "MatrixTransform(M,o2)\nT.applyTransformation(P)\nT.origin=o", "M",
          "(o - M@o)", "MatrixTransform")
    suite("Rotation after a new origin", "Rotation(R)\nT.applyTransformation(P)\nT.origin=o", "R", "(o - R@o)", "Rotation")
    suite("Reflection after a new plane", "Reflection(Plane(n0,p0))\nT.applyTransformation(P)\nT.plane=Plane(n,p)",
          TR["Reflection"][1], TR["Reflection"][2], "Reflection")
    # compositions, in the order given
    names = ["Translation", "MatrixTransform", "Inversion", "Rotation", "Reflection"]
    short = {"Translation": "Translation(t2)", "MatrixTransform": "MatrixTransform(M2,o2)", "Inversion": "Inversion(origin=o2)",
             "Rotation": "Rotation(matrix=R,origin=o2)", "Reflection": "Reflection(Plane(n,o2))"}
    lin2 = {"Translation": (I3, "t2"), "MatrixTransform": ("M2", "(o2-M2@o2)"), "Inversion": ("(-np.eye(3))", "2*o2"),
            "Rotation": ("R", "(o2-R@o2)"), "Reflection": ("(np.eye(3)-2*np.outer(n,n)/(n@n))", "2*n*(n@o2)/(n@n)")}
    pairs = [(a, b) for a in names for b in names] if c.thorough else \
        [("Translation", "MatrixTransform"), ("MatrixTransform", "Translation"), ("Rotation", "Translation"),
         ("MatrixTransform", "MatrixTransform"), ("MatrixTransform", "Reflection"), ("Rotation", "MatrixTransform"),
         ("Translation", "Rotation"), ("Inversion", "MatrixTransform"), ("Translation", "Reflection"),
         ("Reflection", "Inversion"), ("MatrixTransform", "Inversion")]
    for a, b in pairs:
        ma, la, sa = TR[a]
        lb, sb = lin2[b]
        for how, mk in (("list", "MultiTransform([%s,%s])"), ("added", "MultiTransform()\nT.add_transform(%s)\nT.add_transform(%s)"),
                        ("added list", "MultiTransform()\nT.add_transform([%s,%s])")):
            if how != "list" and (a, b) not in (("Translation", "MatrixTransform"), ("Rotation", "Translation")):
                continue
            suite("MultiTransform (%s) %s then %s" % (how, a, b), mk % (ma, short[b]), "(%s)@%s" % (lb, la),
                  "((%s)@(%s) + %s)" % (lb, sa, sb), "MultiTransform", light=a == "MatrixTransform" and b in ("MatrixTransform", "Reflection"))
    suite("MultiTransform of three", "MultiTransform([Translation(t),MatrixTransform(M,o),Translation(t2)])", "M",
          "(M@(t-o)+o+t2)", "MultiTransform")
    suite("nested MultiTransform", "MultiTransform([MultiTransform([Translation(t),MatrixTransform(M,o)]),Translation(t2)])", "M",
          "(M@(t-o)+o+t2)", "MultiTransform")
    seq3 = "(M2@(M@(t-o)+o-o2)+o2)"
    for how, mk in (("four in a list", "MultiTransform([Translation(t),MatrixTransform(M,o),MatrixTransform(M2,o2),Translation(t2)])"),
                    ("four added in turn", "MultiTransform()\nT.add_transform(Translation(t))\nT.add_transform(MatrixTransform(M,o))\nT.add_transform(MatrixTransform(M2,o2))\nT.add_transform(Translation(t2))"),
                    ("two lists added", "MultiTransform([Translation(t),MatrixTransform(M,o)])\nT.add_transform([MatrixTransform(M2,o2),Translation(t2)])"),
                    ("a list added to three", "MultiTransform([Translation(t),MatrixTransform(M,o),MatrixTransform(M2,o2)])\nT.add_transform([Translation(t2)])"),
                    ("a tuple added", "MultiTransform((Translation(t),MatrixTransform(M,o)))\nT.add_transform((MatrixTransform(M2,o2),Translation(t2)))"),
                    ("lists and single ones added", "MultiTransform()\nT.add_transform([Translation(t)])\nT.add_transform(MatrixTransform(M,o))\nT.add_transform([MatrixTransform(M2,o2),Translation(t2)])")):
        suite("MultiTransform, " + how, mk, "(M2@M)", "(%s+t2)" % seq3, "MultiTransform", light=True)
    suite("MultiTransform with the same parts twice", "MultiTransform([MatrixTransform(M,o),Translation(t),MatrixTransform(M,o),Translation(t)])", "(M@M)",
          "(M@(M@(-o)+o+t-o)+o+t)", "MultiTransform", light=True)
    ob("empty MultiTransform", "T=MultiTransform()\nreturn T.applyTransformation(P), T.applyTransformation_bases(Bs)",
       "return P, Bs", "MultiTransform.applyTransformation")
