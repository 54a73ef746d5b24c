"""Abstract interpretation of snap_plane_near_point on generators with symbolic
bases, scale and homogeneous strain: the normal is compared with the reciprocal
lattice vector of the strained bases, the point with the query point's lattice
coordinates rounded per axis to multiples of the intercepts."""
from sa.check import arrty as A

ENV = dict(P=A(3), Bs=A(3, 3), bd=A(3), sd=A(3), bd2=A(3), go=A(3), h3=A(3), H=A(3, 3), t=A(3), so=A(3), k="float", M=A(3, 3))
POS = {"bd": "pos", "sd": "pos", "bd2": "pos", "h3": "pos"}
MILLER = [(1, 1, 1), (1, 0, 0), (0, 1, 0), (0, 0, 1), (1, 1, 0), (0, 1, -1), (2, 1, 0), (-1, 2, 3), (1, -1, 0), (3, 0, -2), (-1, 0, 0), (0, 0, -2)]
G = "g=Generator(origin=go)\ng.voxel.bases=%s\n"
OUT = "return np.asarray(p.normal).reshape(3),np.asarray(p.point).reshape(3)"
AT = ["snap_plane_near_point"]
ROUND = {"nearest": "np.round(x)", "floor": "np.sign(x)*np.floor(np.abs(x))", "ceil": "np.sign(x)*np.ceil(np.abs(x))"}


def spec(B, m, mode):
    lines = ["B=%s" % B, "f=np.linalg.inv(B)@P", "R=lambda x: " + ROUND[mode], "q=np.zeros(3)"]
    for i, h in enumerate(m):
        lines.append("q[%d]=%s" % (i, "f[%d]" % i if h == 0 else "R(f[%d]*(%d))/(%d)" % (i, h, h)))
    lines += ["n=np.linalg.inv(B).T@np.array([%d,%d,%d])" % m, "return n/np.linalg.norm(n),B@q"]
    return "\n".join(lines)


def run(c):
    def ob(name, drv, sp, rule="normal is the reciprocal lattice vector; lattice coordinates rounded per axis to multiples of the intercepts"):
        c.eq(name, drv, sp, ENV, POS, at=AT, rule=rule)
    D = "np.diag(bd)"
    for m in MILLER:
        for mode in ROUND:
            ob("(%d %d %d), %s" % (m + (mode,)), (G % D) + "p=snap_plane_near_point(P,g,%r,%r)\n" % (m, mode) + OUT, spec(D, m, mode))
    for m in MILLER[:5] + [(0, 1, -1), (3, 0, -2)]:
        ob("(%d %d %d), default mode" % m, (G % D) + "p=snap_plane_near_point(P,g,%r)\n" % (m,) + OUT, spec(D, m, "nearest"))
        for mode in ("nearest", "floor", "ceil"):
            ob("(%d %d %d), general cell, %s" % (m + (mode,)), (G % "Bs") + "p=snap_plane_near_point(P,g,%r,mode=%r)\n" % (m, mode) + OUT, spec("Bs", m, mode))
    m = (1, -2, 0)
    for nm, m_ in (("list", [1, -2, 0]), ("array", None)):
        arg = "np.array([1,-2,0])" if m_ is None else repr(m_)
        ob("indices as " + nm, (G % D) + "p=snap_plane_near_point(P,g,%s)\n" % arg + OUT, spec(D, m, "nearest"))
    ob("scaled lattice", (G % D) + "g.voxel.scale=k\np=snap_plane_near_point(P,g,(1,2,0))\n" + OUT, spec("np.diag(bd)*k", (1, 2, 0), "nearest"))
    for mode in ROUND:
        for nm, h, hm in (("3 values", "h3", "np.diag(h3)"), ("3x3 matrix", "H", "H")):
            ob("crystal strain, %s, %s" % (nm, mode), (G % D) + "g.strain_field=HStrain(%s)\np=snap_plane_near_point(P,g,(1,1,0),%r)\n" % (h, mode) + OUT,
               spec("np.diag(bd)@(%s).T" % hm, (1, 1, 0), mode))
            ob("standard strain, %s, %s" % (nm, mode),
               (G % D) + "g.strain_field=HStrain(%s,mode='standard')\np=snap_plane_near_point(P,g,(1,1,0),%r)\n" % (h, mode) + OUT,
               spec("(%s).T@np.diag(bd)" % hm, (1, 1, 0), mode))
    ob("crystal strain, general cell", (G % "Bs") + "g.strain_field=HStrain(h3)\np=snap_plane_near_point(P,g,(0,1,2))\n" + OUT, spec("Bs@np.diag(h3)", (0, 1, 2), "nearest"))
    ob("standard strain, general cell", (G % "Bs") + "g.strain_field=HStrain(h3,mode='standard')\np=snap_plane_near_point(P,g,(0,1,2))\n" + OUT,
       spec("np.diag(h3)@Bs", (0, 1, 2), "nearest"))
    ob("strain mode replaced", (G % D) + "g.strain_field=HStrain(H)\ng.strain_field.mode='standard'\np=snap_plane_near_point(P,g,(1,0,2))\n" + OUT,
       spec("H.T@np.diag(bd)", (1, 0, 2), "nearest"))
    ob("bases replaced after an earlier query", (G % D) + "snap_plane_near_point(P,g,(1,1,1))\ng.voxel.bases=np.diag(bd2)\n"
       "p=snap_plane_near_point(P,g,(1,1,1))\n" + OUT, spec("np.diag(bd2)", (1, 1, 1), "nearest"))
    ob("generator transformed by a matrix", (G % D) + "g.transform(MatrixTransform(M))\np=snap_plane_near_point(P,g,(1,1,0))\n" + OUT,
       spec("M@np.diag(bd)", (1, 1, 0), "nearest"))
    ob("strain removed", (G % D) + "g.strain_field=HStrain(H)\nsnap_plane_near_point(P,g,(1,1,1))\ng2=Generator(origin=go)\ng2.voxel.bases=np.diag(bd)\n"
       "p=snap_plane_near_point(P,g2,(1,1,1))\n" + OUT, spec(D, (1, 1, 1), "nearest"))
    ob("query point untouched", (G % D) + "p=snap_plane_near_point(P,g,(1,1,0))\nreturn P+0,np.asarray(p.point).reshape(3)*0", "return P,np.zeros(3)")
    for nm, x in (("positive", "0.4"), ("negative", "-0.4"), ("large", "7.3"), ("exact", "3.0"), ("zero", "0.0")):
        c.eq("rounding away from zero, %s" % nm, "return round_away(%s)" % x,
             "x=%s\nreturn np.sign(x)*np.ceil(np.abs(x))" % x, {}, at=["round_away"], rule="away from zero to the next integer")
    c.eq("rounding away from zero, any value", "return round_away(k)", "return np.sign(k)*np.ceil(np.abs(k))", ENV, at=["round_away"],
         rule="away from zero to the next integer")
