"""Abstract interpretation of HStrain and IStrain, attached to generators with
symbolic bases, scale and origin, in both modes, with the origin taken from the
generator or given, and with generators moved, rescaled or replaced before and
after the strain was attached: strained positions are compared with
origin + strain(position - origin) in the frame of the generator's bases at
that time."""
from sa.check import arrty as A
from . import common as cm

ENV = dict(P=A(2, 3), Bs=A(3, 3), Bs2=A(3, 3), bd=A(3), bd2=A(3), go=A(3), go2=A(3), so=A(3), h3=A(3), h6=A(6), h9=A(9), H=A(3, 3), t=A(3),
           a="float", b="float", q=A(3), bx=A(2, 3), sd=A(3), M=A(3, 3), mo=A(3))
POS = {"bd": "pos", "bd2": "pos", "sd": "pos"}
MATS = {"3 values": ("h3", "np.diag(h3)"), "9 values": ("h9", "h9.reshape(3,3)"), "3x3 array": ("H", "H"),
        "6 values": ("h6", "np.array([[h6[0],h6[5],h6[4]],[h6[5],h6[1],h6[3]],[h6[4],h6[3],h6[2]]])"),
        "list of 3": ("[h3[0],h3[1],h3[2]]", "np.diag(h3)"),
        "list of 9": ("[h9[i] for i in range(9)]", "h9.reshape(3,3)"),
        "nested list": ("[[H[0,0],H[0,1],H[0,2]],[H[1,0],H[1,1],H[1,2]],[H[2,0],H[2,1],H[2,2]]]", "H"),
        "nothing": ("None", "np.eye(3)")}
CR = "C=lambda x,o,B,Hm: (x-o)@np.linalg.inv(B).T@Hm@B.T+o\nSt=lambda x,o,Hm: (x-o)@Hm+o\n"
G = "g=Generator(origin=go)\ng.voxel.bases=%s\n"
FUN = {"affine": "lambda x,**k: x*a+b", "quadratic": "lambda x,**k: x*x*a+x", "mixing": "lambda x,**k: x@H", "shear": "lambda x,**k: x+a*x[:,[1,2,0]]"}
FSP = {"affine": "fn=lambda x: x*a+b\n", "quadratic": "fn=lambda x: x*x*a+x\n", "mixing": "fn=lambda x: x@H\n",
       "shear": "fn=lambda x: x+a*x[:,[1,2,0]]\n"}
IC = "CI=lambda x,o,B: fn((x-o)@np.linalg.inv(B).T)@B.T+o\nSI=lambda x,o: fn(x-o)+o\n"


def run(c):
    def ob(name, drv, spec, at, rule="origin + strain(position - origin) in the chosen frame", env=None, setup=None):
        c.eq(name, drv, spec, dict(ENV, **(env or {})), POS, at=at, rule=rule, setup=setup)
    ha = ["HStrain.apply_strain", "BaseStrain.scrape_params"]
    B = "np.diag(bd)"
    full = "Bs"
    senv, ssetup = cm.structure("S", 2)
    for nm, (m, hm) in MATS.items():
        ob("homogeneous, %s, standard mode" % nm, (G % B) + "s=HStrain(%s,mode='standard')\ns.scrape_params(g)\nreturn s.apply_strain(P)" % m,
           CR + "return St(P,go,%s)" % hm, ha)
        ob("homogeneous, %s, crystal mode" % nm, (G % B) + "s=HStrain(%s)\ns.scrape_params(g)\nreturn s.apply_strain(P)" % m,
           CR + "return C(P,go,%s,%s)" % (B, hm), ha)
    ob("homogeneous, crystal mode, general cell", (G % full) + "s=HStrain(h3)\ns.scrape_params(g)\nreturn s.apply_strain(P)",
       CR + "return C(P,go,Bs,np.diag(h3))", ha)
    ob("homogeneous, given origin, standard mode", (G % B) + "s=HStrain(H,origin=so,mode='standard')\ns.scrape_params(g)\nreturn s.apply_strain(P)",
       CR + "return St(P,so,H)", ha)
    ob("homogeneous, given origin, crystal mode", (G % B) + "s=HStrain(H,origin=so)\ns.scrape_params(g)\nreturn s.apply_strain(P)",
       CR + "return C(P,so,%s,H)" % B, ha)
    ob("matrix replaced", (G % B) + "s=HStrain(h3)\ns.matrix=H\ns.scrape_params(g)\nreturn s.apply_strain(P)", CR + "return C(P,go,%s,H)" % B, ha)
    ob("mode replaced", (G % B) + "s=HStrain(H)\ns.mode='standard'\ns.scrape_params(g)\nreturn s.apply_strain(P)", CR + "return St(P,go,H)", ha)
    ob("mode replaced the other way", (G % B) + "s=HStrain(H,mode='standard')\ns.scrape_params(g)\ns.mode='crystal'\ns.scrape_params(g)\n"
       "return s.apply_strain(P)", CR + "return C(P,go,%s,H)" % B, ha)
    ob("scaled lattice", (G % B) + "g.voxel.scale=sd\ns=HStrain(H)\ns.scrape_params(g)\nreturn s.apply_strain(P)",
       CR + "return C(P,go,np.diag(bd)*sd,H)", ha)
    ob("fixed point", (G % B) + "s=HStrain(H)\ns.scrape_params(g)\nreturn s.apply_strain(np.array([go,go]))", "return np.array([go,go])", ha)
    ob("fixed point of a given origin", (G % B) + "s=HStrain(H,origin=so)\ns.scrape_params(g)\nreturn s.apply_strain(np.array([so,so]))",
       "return np.array([so,so])", ha)
    # in generation: the strained positions are those of the crystal the generator supplies without strain, in the same order
    for sn, sc in (("", ""), ("scaled ", "g.voxel.scale=1.5\n"), ("shrunk ", "g.voxel.scale=0.5\n"), ("unevenly scaled ", "g.voxel.scale=np.array([1.5,0.5,2.0])\n")):
        GG = "g=Generator(structure=S,origin=go)\n" + sc + "box=np.array([[0.25,0.25,0.25],[0.75,0.75,0.5]])@g.voxel.sbases.T+go\n"
        for mn, mk, want in (("crystal mode", "HStrain(H)", "C(u,go,S_m.T*sc,H)"), ("standard mode", "HStrain(H,mode='standard')", "St(u,go,H)"), ("given origin", "HStrain(H,origin=so)", "C(u,so,S_m.T*sc,H)")):
            c.eq("atoms of a %sstrained generator, %s" % (sn, mn), GG + "g.strain_field=%s\nreturn g.supply_atoms(box)" % mk,
                 CR + GG + "sc=g.voxel.scale\nu,us=g.supply_atoms(box)\nreturn %s,us" % want, dict(ENV, **senv), POS, at="Generator.supply_atoms",
                 rule="strained position = origin + strain of the relative position", setup=ssetup)
    # histories
    ob("generator moved after the strain was used", (G % B) + "s=HStrain(H)\ns.scrape_params(g)\ns.apply_strain(P)\ng.transform(Translation(t))\n"
       "s.scrape_params(g)\nreturn s.apply_strain(P)", CR + "return C(P,go+t,%s,H)" % B, ha)
    ob("generator rotated after the strain was used", (G % B) + "s=HStrain(H,mode='standard')\ns.scrape_params(g)\ns.apply_strain(P)\n"
       "g.transform(MatrixTransform(M,mo))\ns.scrape_params(g)\nreturn s.apply_strain(P)", CR + "return St(P,M@(go-mo)+mo,H)", ha)
    ob("bases replaced after the strain was used", (G % B) + "s=HStrain(H)\ns.scrape_params(g)\ns.apply_strain(P)\n"
       "g.voxel.bases=np.diag(bd2)\ns.scrape_params(g)\nreturn s.apply_strain(P)", CR + "return C(P,go,np.diag(bd2),H)", ha)
    ob("given origin survives a moved generator", (G % B) + "s=HStrain(H,origin=so)\ng.transform(Translation(t))\ns.scrape_params(g)\n"
       "return s.apply_strain(P)", CR + "return C(P,so,%s,H)" % B, ha)
    ob("strain shared by two generators", (G % B) + "g2=Generator(origin=go2)\ng2.voxel.bases=np.diag(bd2)\ns=HStrain(H)\n"
       "s.scrape_params(g)\nx=s.apply_strain(P)\ns.scrape_params(g2)\nreturn x,s.apply_strain(P)",
       CR + "return C(P,go,%s,H),C(P,go2,np.diag(bd2),H)" % B, ha)
    # inhomogeneous
    ia = ["IStrain.apply_strain", "BaseStrain.scrape_params"]
    for nm, f in FUN.items():
        ob("inhomogeneous %s, standard mode" % nm, (G % B) + "s=IStrain(%s,mode='standard')\ns.scrape_params(g)\nreturn s.apply_strain(P)" % f,
           FSP[nm] + IC + "return SI(P,go)", ia)
        ob("inhomogeneous %s, crystal mode" % nm, (G % B) + "s=IStrain(%s)\ns.scrape_params(g)\nreturn s.apply_strain(P)" % f,
           FSP[nm] + IC + "return CI(P,go,%s)" % B, ia)
        ob("inhomogeneous %s, given origin, crystal mode" % nm, (G % B) + "s=IStrain(%s,origin=so)\ns.scrape_params(g)\nreturn s.apply_strain(P)" % f,
           FSP[nm] + IC + "return CI(P,so,%s)" % B, ia)
        ob("inhomogeneous %s, given origin, standard mode" % nm, (G % B) + "s=IStrain(%s,origin=so,mode='standard')\ns.scrape_params(g)\n"
           "return s.apply_strain(P)" % f, FSP[nm] + IC + "return SI(P,so)", ia)
    ob("inhomogeneous with options", (G % B) + "s=IStrain(lambda x,u=0,w=0,**k: x*u+w,u=a,w=b,mode='standard')\ns.scrape_params(g)\nreturn s.apply_strain(P)",
       FSP["affine"] + IC + "return SI(P,go)", ia)
    ob("inhomogeneous with options, crystal mode", (G % B) + "s=IStrain(lambda x,basis,u=0,w=0: x*u+w,u=a,w=b)\ns.scrape_params(g)\nreturn s.apply_strain(P)",
       FSP["affine"] + IC + "return CI(P,go,%s)" % B, ia)
    ob("inhomogeneous using the bases", (G % B) + "s=IStrain(lambda x,basis: x+a*basis[0])\ns.scrape_params(g)\nreturn s.apply_strain(P)",
       "B=%s\nreturn ((P-go)@np.linalg.inv(B).T+a*B[0])@B.T+go" % B, ia)
    ob("inhomogeneous without function", (G % B) + "s=IStrain()\ns.scrape_params(g)\nreturn s.apply_strain(P)", "return P", ia)
    ob("inhomogeneous, options replaced", (G % B) + "s=IStrain(lambda x,u=0,w=0,**k: x*u+w,u=1.0,mode='standard')\n"
       "s.fun_kwargs={'u':a,'w':b}\ns.scrape_params(g)\nreturn s.apply_strain(P)", FSP["affine"] + IC + "return SI(P,go)", ia)
    ob("inhomogeneous, function replaced", (G % B) + "s=IStrain(lambda x,**k: x)\ns.strain_fun=%s\ns.scrape_params(g)\nreturn s.apply_strain(P)" % FUN["affine"],
       FSP["affine"] + IC + "return CI(P,go,%s)" % B, ia)
    ob("inhomogeneous, generator moved", (G % B) + "s=IStrain(%s)\ns.scrape_params(g)\ns.apply_strain(P)\ng.transform(Translation(t))\n"
       "s.scrape_params(g)\nreturn s.apply_strain(P)" % FUN["shear"], FSP["shear"] + IC + "return CI(P,go+t,%s)" % B, ia)
    # supplied atoms
    senv, ssetup = cm.structure("S", 1)
    box = "B=S_m.T\nbox=np.array([[0.25,0.25,0.25],[0.75,0.75,0.5]])@B.T+go\n"
    SG = box + "g=Generator(structure=S,origin=go)\nu,us=g.supply_atoms(box)\n"
    sa = ["Generator.supply_atoms"] + ha
    for nm, cons, sp in (("homogeneous, standard mode", "HStrain(H,mode='standard')", "St(u,go,H)"),
                         ("homogeneous, standard mode, given origin", "HStrain(H,mode='standard',origin=so)", "St(u,so,H)")):
        ob("supplied atoms, " + nm, SG + "g.strain_field=%s\nx,xs=g.supply_atoms(box)\nreturn x,xs" % cons,
           SG + CR + "return %s,us" % sp, sa, env=senv, setup=ssetup)
    SD = box.replace("S_m.T", "np.diag(bd)") + "g=Generator(structure=S,origin=go)\ng.voxel.bases=B\n%su,us=g.supply_atoms(box)\n"
    for nm, cons, sp in (("homogeneous, crystal mode", "HStrain(H)", "C(u,go,B,H)"),
                         ("homogeneous, crystal mode, given origin", "HStrain(H,origin=so)", "C(u,so,B,H)")):
        ob("supplied atoms, " + nm, (SD % "") + "g.strain_field=%s\nreturn g.supply_atoms(box)" % cons,
           (SD % "") + CR + "return %s,us" % sp, sa, env=senv, setup=ssetup)
    ob("supplied atoms, inhomogeneous", (SD % "") + "g.strain_field=IStrain(%s)\nreturn g.supply_atoms(box)" % FUN["shear"],
       (SD % "") + FSP["shear"] + IC + "return CI(u,go,B),us", sa, env=senv, setup=ssetup)
    ob("supplied atoms, strain given to the constructor", box.replace("S_m.T", "np.diag(bd)") +
       "g=Generator(structure=S,origin=go,strain_field=HStrain(H))\ng.voxel.bases=B\nreturn g.supply_atoms(box)",
       (SD % "") + CR + "return C(u,go,B,H),us", sa, env=senv, setup=ssetup)
    ob("supplied atoms, generator copied after the strain was attached", box.replace("S_m.T", "np.diag(bd)") +
       "g=Generator(structure=S,origin=go-t,strain_field=HStrain(H))\ng.voxel.bases=B\n"
       "g=g.from_generator(transformation=[Translation(t)])\nreturn g.supply_atoms(box)",
       (SD % "") + CR + "return C(u,go,B,H),us", sa, env=senv, setup=ssetup)
    ob("supplied atoms twice, moved in between", box.replace("S_m.T", "np.diag(bd)") +
       "g=Generator(structure=S,origin=go-t,strain_field=HStrain(H))\ng.voxel.bases=B\ng.supply_atoms(box-t)\n"
       "g.transform(Translation(t))\nreturn g.supply_atoms(box)",
       (SD % "") + CR + "return C(u,go,B,H),us", sa, env=senv, setup=ssetup)
