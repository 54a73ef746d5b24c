"""Abstract interpretation of molecules holding symbolic positions and species
through sequences of updates, removals, origin changes and transforms, including
rejected calls; positions, species and the tracked origin are compared with the
list of atoms the calls describe."""
import itertools

from sa.check import arrty as A

ENV = dict(ps=A(4, 3), sp=A(4), ps2=A(4, 3), sp2=A(4), ps5=A(5, 3), sp5=A(5), sp3=A(3), ps3=A(3, 3), o=A(3), o2=A(3), M=A(3, 3), mo=A(3), t=A(3),
           f12=A(12), sp41=A(4, 1))
OUT = "return m.atoms,m.species,m.origin"
FL = "f=0\ntry:\n    %s\n    f=1\nexcept Exception:\n    f=2\n"


def run(c):
    def ob(name, drv, spec, at, rule):
        c.eq(name, drv, spec, ENV, {"sp": "int", "sp2": "int", "sp3": "int", "sp5": "int", "sp41": "int"}, at=["BaseMolecule." + a for a in at.split()], rule=rule)
    keep = "one species per position, in order"
    org = "the origin follows its atom"
    at = "set_atoms update_positions update_species"
    for nm, d in (("", "ps,sp"), ("flat positions", "f12,sp"), ("column of species", "ps,sp41"), ("nested lists", "[list(ps[i]) for i in range(4)],[sp[i] for i in range(4)]")):
        p, s = d.split(",", 1) if not d.startswith("[") else ("[list(ps[i]) for i in range(4)]", "[sp[i] for i in range(4)]")
        P = {"f12": "f12.reshape(4,3)"}.get(p, "ps")
        S = {"sp41": "sp41[:,0]"}.get(s, "sp")
        ob("constructed " + nm, "m=Molecule(%s,%s,origin=o)\n" % (s, p) + OUT, "return %s,%s,o" % (P, S), "__init__ set_atoms", keep)
        ob("set to other atoms " + nm, "m=Molecule(sp2,ps2,origin=o)\nm.set_atoms(%s,%s)\n" % (s, p) + OUT, "return %s,%s,o" % (P, S), at, keep)
        ob("positions updated " + nm, "m=Molecule(sp2,ps2,origin=o)\nm.update_positions(%s)\n" % p + OUT, "return %s,sp2,o" % P, at, keep)
        ob("species updated " + nm, "m=Molecule(sp2,ps2,origin=o)\nm.update_species(%s)\n" % s + OUT, "return ps2,%s,o" % S, at, keep)
    for nm, w in (("a list", "[[0,0,0],[1,0,0],[0,2,0],[0,0,3]]"), ("an array", "np.array([[0,0,0],[1,0,0],[0,2,0],[0,0,3]])")):
        for k, og in (("o", "o"), ("[0,0,0]", "np.zeros(3)"), ("1", None)):
            m = "m=Molecule([6,7,8,1],%s,origin=%s)\n" % (w, k)
            ob("whole-numbered positions in %s, updated, origin %s" % (nm, k), m + "m.update_positions(ps)\n" + OUT, "return ps,np.array([6,7,8,1]),%s" % (og or "ps[1]"), at, keep)
            ob("whole-numbered positions in %s, set, origin %s" % (nm, k), m + "m.set_atoms(sp,ps)\n" + OUT, "return ps,sp,%s" % (og or "ps[1]"), at, keep)
            ob("whole-numbered positions in %s, moved, origin %s" % (nm, k), m + "m.transform(Translation(t))\n" + OUT,
               "return np.array([[0,0,0],[1,0,0],[0,2,0],[0,0,3]])+t,np.array([6,7,8,1]),%s" % (og + "+t" if og else "np.array([1,0,0])+t"), at + " transform", keep)
    ob("set to more atoms", "m=Molecule(sp,ps,origin=o)\nm.set_atoms(sp5,ps5)\n" + OUT, "return ps5,sp5,o", at, keep)
    ob("default origin", "m=Molecule(sp,ps)\n" + OUT, "return ps,sp,np.zeros(3)", "__init__", "origin at zero by default")
    for call in ("m.set_atoms(sp5,ps)", "m.set_atoms(sp,ps5)", "m.set_atoms(sp3,ps)", "m.update_positions(ps5)", "m.update_positions(ps3)", "m.update_species(sp3)",
                 "m.update_species(sp5)"):
        for k in ("o", "1"):
            ob("%s rejected, origin %s" % (call, k), "m=Molecule(sp,ps,origin=%s)\n" % k + FL % call + OUT + ",f", "return ps,sp,%s,2" % ("o" if k == "o" else "ps[1]"),
               at, "a call with the wrong number of atoms fails and changes nothing")
    # tracked origin
    for k in range(4):
        ob("origin on atom %d" % k, "m=Molecule(sp,ps,origin=%d)\n" % k + OUT, "return ps,sp,ps[%d]" % k, "__init__ set_origin origin", org)
        ob("origin set on atom %d" % k, "m=Molecule(sp,ps,origin=o)\nm.set_origin(idx=%d)\n" % k + OUT, "return ps,sp,ps[%d]" % k, "set_origin origin", org)
        ob("origin on atom %d, positions updated" % k, "m=Molecule(sp,ps,origin=%d)\nm.update_positions(ps2)\n" % k + OUT, "return ps2,sp,ps2[%d]" % k,
           "update_positions origin", org)
        ob("origin on atom %d, transformed" % k, "m=Molecule(sp,ps,origin=%d)\nm.transform(MatrixTransform(M,mo))\nm.transform(Translation(t))\n" % k + OUT,
           "F=lambda x:(x-mo)@M.T+mo+t\nreturn F(ps),sp,F(ps[%d])" % k, "transform origin", org)
        ob("origin on atom %d, transformed keeping the origin flag" % k, "m=Molecule(sp,ps,origin=%d)\nm.transform(Translation(t),transform_origin=False)\n" % k + OUT,
           "return ps+t,sp,ps[%d]+t" % k, "transform origin", org)
    ob("origin set to a point", "m=Molecule(sp,ps,origin=2)\nm.set_origin(point=o)\n" + OUT, "return ps,sp,o", "set_origin origin", "requested origin")
    ob("origin set to a point, then transformed", "m=Molecule(sp,ps,origin=2)\nm.set_origin(point=o)\nm.transform(Translation(t))\n" + OUT, "return ps+t,sp,o+t",
       "set_origin origin", "requested origin")
    ob("origin on the last atom by negative index", "m=Molecule(sp,ps)\nm.set_origin(idx=-1)\n" + OUT, "return ps,sp,ps[3]", "set_origin origin", org)
    for call in ("m.set_origin(idx=4)", "m.set_origin(idx=17)", "m.set_origin(idx=1.5)", "m.set_origin(idx='1')", "m.set_origin(point=[1.0,2.0])", "m.set_origin(point=ps)"):
        for k in ("o", "2"):
            ob("%s rejected, origin %s" % (call, k), "m=Molecule(sp,ps,origin=%s)\n" % k + FL % call + "m.update_positions(ps2)\n" + OUT + ",f",
               "return ps2,sp,%s,2" % ("o" if k == "o" else "ps2[2]"), "set_origin origin", "an invalid origin is refused and changes nothing")
    # removal
    def kept(idx):
        return [i for i in range(4) if i not in [j % 4 for j in idx]]
    subsets = [(0,), (1,), (3,), (0, 1), (1, 2), (0, 3), (3, 0), (2, 1), (0, 1, 2), (3, 1, 0), (-1,), (-4,), (-1, 0), (1, -2), (1, 1), (0, -4)]
    for idx in subsets:
        kp = kept(idx)
        P = "return ps[%r],sp[%r]," % (kp, kp)
        a = "remove_atoms"
        ob("removing %s" % (idx,), "m=Molecule(sp,ps,origin=o)\nm.remove_atoms(%r)\n" % (list(idx),) + OUT, P + "o", a, keep)
        ob("removing %s as tuple" % (idx,), "m=Molecule(sp,ps,origin=o)\nm.remove_atoms(%r)\n" % (tuple(idx),) + OUT, P + "o", a, keep)
        if len(set(j % 4 for j in idx)) == len(idx):
            ob("removing %s as array" % (idx,), "m=Molecule(sp,ps,origin=o)\nm.remove_atoms(np.array(%r))\n" % (list(idx),) + OUT, P + "o", a, keep)
        for k in range(4):
            if k in kp:
                ob("removing %s, origin on atom %d" % (idx, k), "m=Molecule(sp,ps,origin=%d)\nm.remove_atoms(%r)\n" % (k, list(idx)) + OUT, P + "ps[%d]" % k, a, org)
                ob("removing %s, origin on atom %d, then transformed" % (idx, k),
                   "m=Molecule(sp,ps,origin=%d)\nm.remove_atoms(%r)\nm.transform(Translation(t))\n" % (k, list(idx)) + OUT,
                   "return ps[%r]+t,sp[%r],ps[%d]+t" % (kp, kp, k), a, org)
                for j in kp:
                    ob("removing %s, origin moved from atom %d to %d" % (idx, k, j),
                       "m=Molecule(sp,ps,origin=%d)\nm.remove_atoms(%r,new_origin_idx=%d)\n" % (k, list(idx), j) + OUT, P + "ps[%d]" % j, a, "the requested atom becomes the origin")
            else:
                ob("removing %s, origin on removed atom %d" % (idx, k), "m=Molecule(sp,ps,origin=%d)\n" % k + FL % ("m.remove_atoms(%r)" % (list(idx),)) + OUT + ",f",
                   "return ps,sp,ps[%d],2" % k, a, "refused, nothing changes")
                ob("removing %s with removed atom %d as new origin" % (idx, k),
                   "m=Molecule(sp,ps,origin=o)\n" + FL % ("m.remove_atoms(%r,new_origin_idx=%d)" % (list(idx), k)) + OUT + ",f", "return ps,sp,o,2", a, "refused, nothing changes")
        for j in kp[1:]:
            ob("removing %s, point origin replaced by atom %d" % (idx, j - 4), "m=Molecule(sp,ps,origin=o)\nm.remove_atoms(%r,new_origin_idx=%d)\n" % (list(idx), j - 4) + OUT,
               P + "ps[%d]" % j, a, "the requested atom becomes the origin") if j else None
        for j in kp:
            ob("removing %s, point origin replaced by atom %d" % (idx, j), "m=Molecule(sp,ps,origin=o)\nm.remove_atoms(%r,new_origin_idx=%d)\n" % (list(idx), j) + OUT,
               P + "ps[%d]" % j, a, "the requested atom becomes the origin")
    for call in ("m.remove_atoms([4])", "m.remove_atoms([0,9])", "m.remove_atoms([0],new_origin_idx=4)", "m.remove_atoms([0],new_origin_idx=1.5)", "m.remove_atoms([-5])"):
        for k in ("o", "2"):
            ob("%s rejected, origin %s" % (call, k), "m=Molecule(sp,ps,origin=%s)\n" % k + FL % call + OUT + ",f", "return ps,sp,%s,2" % ("o" if k == "o" else "ps[2]"),
               "remove_atoms", "refused, nothing changes")
    for i, j, k in itertools.permutations(range(3)):
        # remove original atom i, then the one that is first afterwards, tracking another
        rest = [x for x in range(4) if x != i]
        first = rest[0]
        tr = [x for x in rest if x != first][-1]
        left = [x for x in rest if x != first]
        ob("two removals %d %d %d" % (i, j, k), "m=Molecule(sp,ps,origin=%d)\nm.remove_atoms([%d])\nm.remove_atoms([0])\nm.update_positions(m.atoms+t)\n" % (tr, i) + OUT,
           "return ps[%r]+t,sp[%r],ps[%d]+t" % (left, left, tr), "remove_atoms", org)
    ob("origin on the last atom by negative index, others removed", "m=Molecule(sp,ps)\nm.set_origin(idx=-1)\nm.remove_atoms([0,2])\n" + OUT,
       "return ps[[1,3]],sp[[1,3]],ps[3]", "remove_atoms", org)
    ob("origin on atom -2, first removed", "m=Molecule(sp,ps)\nm.set_origin(idx=-2)\nm.remove_atoms([0])\n" + OUT, "return ps[1:],sp[1:],ps[2]", "remove_atoms", org)
    ob("nothing removed", "m=Molecule(sp,ps,origin=2)\nm.remove_atoms([])\n" + OUT, "return ps,sp,ps[2]", "remove_atoms", org)
    ob("copy tracks its own atoms", "m=Molecule(sp,ps,origin=2)\nw=m.from_molecule(transformation=[Translation(t)])\nw.remove_atoms([0])\n"
       "return m.atoms,m.species,m.origin,w.atoms,w.species,w.origin", "return ps,sp,ps[2],ps[1:]+t,sp[1:],ps[2]+t", "remove_atoms from_molecule", org)
