"""Abstract interpretation of the squared-distance functions on symbolic points
and cell lengths, for every combination of periodic axes and several batch
shapes; each separation is compared with the smaller of the direct one and the
cell length minus it on periodic axes, and with the direct one elsewhere."""
import itertools

from sa.check import arrty as A

ENV = dict(X=A(2, 3, 1), Y=A(1, 3, 3), X1=A(1, 3, 1), Y1=A(1, 3, 1), X3=A(3, 3, 1), Y2=A(1, 3, 2), L=A(3), P=A(3, 3), p1=A(1, 3), q=A(3),
           Q=A(2, 3), C=A(2, 3, 3), md="float", D=A(2, 3), E=A(2, 3), L2=A(3))
POS = {"L": "pos", "md": "pos", "L2": "pos"}
RULE = "sum of squared minimum-image separations"


def sep(d, i, per, L="L"):
    return "np.minimum(np.abs(%s),%s[%d]-np.abs(%s))" % (d, L, i, d) if per else "np.abs(%s)" % d


def run(c):
    def ob(name, drv, spec, at, rule=RULE):
        c.eq(name, drv, spec, ENV, POS, at=[at], rule=rule)
    at = "get_sdist_fun"
    for f in itertools.product((False, True), repeat=3):
        nm = "".join(x for x, y in zip("xyz", f) if y) or "no axis"
        for a, b in (("X", "Y"), ("X1", "Y1"), ("X3", "Y2"), ("Y2", "X3")):
            s = "+".join("(%s)**2" % sep("%s[:,%d,:]-%s[:,%d,:]" % (a, i, b, i), i, f[i]) for i in range(3))
            ob("periodic in %s, %s against %s" % (nm, a, b), "f=get_sdist_fun(L,%r,%r,%r)\nreturn f(%s,%s)" % (f + (a, b)), "return " + s, at)
        s = "+".join("(%s)**2" % sep("X[:,%d,:]-Y[:,%d,:]" % (i, i), i, f[i]) for i in range(3))
        kw = ",".join("%s=True" % k for k, y in zip(("pz", "py", "px"), f[::-1]) if y)
        ob("periodic in %s, by keyword" % nm, "f=get_sdist_fun(%s)\nreturn f(X,Y)" % ",".join(x for x in (kw, "dims=[L[0],L[1],L[2]]") if x), "return " + s, at)
        ob("periodic in %s, points unchanged" % nm, "f=get_sdist_fun(L,%r,%r,%r)\nf(X,Y)\nreturn X,Y,L" % f, "return X,Y,L", at, "arguments unchanged")
        ob("periodic in %s, symmetric" % nm, "f=get_sdist_fun(L,%r,%r,%r)\nreturn f(X1,Y1)-f(Y1,X1)" % f, "return np.zeros((1,1))", at)
        ob("periodic in %s, evaluated twice" % nm, "f=get_sdist_fun(L,%r,%r,%r)\nf(X3,Y2)\nreturn f(X,Y)" % f, "return " + s, at)
    ob("two cells", "f=get_sdist_fun(L,True,True,False)\ng=get_sdist_fun(L2,False,True,True)\ng(X1,Y1)\nreturn f(X1,Y1)",
       "return " + "+".join("(%s)**2" % sep("X1[:,%d,:]-Y1[:,%d,:]" % (i, i), i, i < 2) for i in range(3)), at)
    ob("two-dimensional batches, no axis", "f=get_sdist_fun()\nreturn f(D,E)", "return ((D-E)**2).sum(axis=1)", at)
    # distances of the packing algorithms: periodic in x and y only
    at = "get_p_dist"
    for nm, a, b in (("3 points", "P", "p1"), ("1 point", "p1", "P[:1]"), ("vector", "P", "q")):
        bb = "%s[i]" % b if b == "q" else "%s[0,i]" % b
        s = "+".join("(%s)**2" % sep("%s[:,%d]-%s" % (a, i, bb.replace("i]", "%d]" % i)), i, i < 2) for i in range(3))
        ob("packing distance, " + nm, "return get_p_dist(%s,%s,L)" % (a, b), "return " + s, at)
    ob("packing distance, points unchanged", "get_p_dist(P,p1,L)\nreturn P,p1,L", "return P,p1,L", at, "arguments unchanged")
    at = "get_p_dist_batch"
    s = "r=[]\nfor k in range(2):\n    d=" + "+".join("(%s)**2" % sep("C[k,:,%d]-Q[k,%d]" % (i, i), i, i < 2) for i in range(3)) + \
        "\n    r.append(d[0]>md and d[1]>md and d[2]>md)\nreturn np.array(r)"
    ob("batched packing distance", "return get_p_dist_batch(C,Q,L,md)", s, at, "every distance exceeds the minimum")
    ob("batched packing distance, points unchanged", "get_p_dist_batch(C,Q,L,md)\nreturn C,Q,L", "return C,Q,L", at, "arguments unchanged")
