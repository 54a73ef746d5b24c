"""Interpretation of value-flow nodes in the exact-algebra domain (sa.dom).

`Ev.ev(node)` folds a gated value node into an abstract value: arrays of exact
expressions gated by decision diagrams.  Loop summaries (map / fold / exists /
first / last) are folded over iterables whose length is fixed by the obligation.
Library functions are interpreted by the table in sa.npsem; anything not in the
table becomes an uninterpreted application.
"""
import itertools
from fractions import Fraction as Fr

from . import alg, dom, npsem
from .alg import R0, R1, TooBig, atom, ratom, rconst
from .dom import (DD, ELLIPSIS, G, INF, NAN, NINF, Op, Ref, Seq, Sl, Special, T, Unk, arr, band, bnot, bor, bvar, cint, dapply,
                  fatom, fp, getitem, ite, leafeq, length, rows, setitem, truth, unwrap)
from .program import ClassInfo
from .vfg import K, N, Node, kids, sure_key, walk

BINDERS = {"map", "fold", "exists", "first", "last", "flatmap"}


def fnum(v):
    if isinstance(v, bool):
        return v
    if isinstance(v, int):
        return rconst(v)
    if v != v:
        return NAN
    if v == float("inf"):
        return INF
    if v == float("-inf"):
        return NINF
    return rconst(Fr(repr(v)))


class RowRef:
    __slots__ = ("i", "guards", "n", "uid")
    ctr = [0]

    def __init__(self, i, guards):
        self.i, self.guards = i, guards
        RowRef.ctr[0] += 1
        self.uid = RowRef.ctr[0]


class Bound:
    __slots__ = ("v", "uid")

    def __init__(self, v):
        self.v = v
        RowRef.ctr[0] += 1
        self.uid = RowRef.ctr[0]


def norm(v):
    """canonical form of guarded rows"""
    if isinstance(v, G):
        if all(isinstance(g, bool) for g in v.guards) or any(g is False for g in v.guards):
            keep = [i for i, g in enumerate(v.guards) if g is not False]
            n = dom.prod(v.t.shape[1:])
            t = T((len(keep),) + v.t.shape[1:], [d for i in keep for d in v.t.data[i * n:(i + 1) * n]])
            gs = [v.guards[i] for i in keep]
            return t if all(g is True for g in gs) else G(gs, t)
    return v


def class_is(ref, base, cls):
    """the class of an unknown object of class base, as an unknown index into base's subclasses (0: some other class)"""
    subs = sorted((c for c in base.module.program.classes() if c is not base and c.issub(base)), key=lambda c: c.name)
    n = len(subs) + 1
    key = "class|%s|%s" % (base.name, ref.node.args[0])
    which = dom.fatom("class", (key,), lambda s: int(alg.hfloat("%s|%s" % (key, s.seed), 0, n)), isint=True, sign="nonneg")
    out = False
    for i, c in enumerate(subs):
        if c.issub(cls):
            out = bor(out, dom.scmp("==", which, dom.rconst(i + 1)))
    return out


def const_key(v):
    if isinstance(v, Rat_):
        return v.const()
    if isinstance(v, (str, bool)):
        return v
    if isinstance(v, dom.T) and v.shape == ():
        return const_key(v.data[0])
    if isinstance(v, Seq) and v.kind == "tuple":
        ks = tuple(const_key(x) for x in v.items)
        return None if any(k is None for k in ks) else ("tuple",) + ks
    if isinstance(v, Op) and not v.args:
        return ("op", v.head)
    return None


def whole(n, depth=0):
    """is this an array of integers for certain (what is stored in it loses its fraction)?"""
    if depth > 12 or not isinstance(n, Node):
        return False
    if n.op == "store":
        return whole(n.args[0], depth + 1)
    if n.op in ("copy", "shallow"):
        return whole(n.args[0], depth + 1)
    if n.op == "call" and n.args[0].op == "ext" and n.args[0].args[0].startswith("numpy."):
        f, a, kw = n.args[0].args[0][6:], n.args[1], dict(n.args[2])
        if "dtype" in kw:
            return False
        if f in ("array", "asarray") and len(a) == 1:
            return ints(a[0]) or whole(a[0], depth + 1)
        if f in ("reshape", "copy", "ravel", "atleast_2d", "transpose", "squeeze", "vstack", "expand_dims") and a:
            return whole(a[0], depth + 1)
    return False


def ints(n):
    if n.op in ("listc", "tup"):
        return bool(n.args) and all(isinstance(x, Node) and ints(x) for x in n.args)
    return n.op == "k" and type(n.args[0]) is int


class Ev:
    MAXW = 200

    def __init__(self, engine, assume=None, heap=None):
        self.e = engine
        self.assume = assume or {}
        self.heap = heap
        self.memo = {}
        self.bind = {}
        self.methods = {}      # (method name) -> model(ev, objvalue, args, kw)
        self.functions = {}    # external name -> model(ev, args, kw)
        self.attrs = {}        # attribute name -> model(ev, objvalue)
        self.foldmemo = {}
        self.steps = 0

    # ---- free loop variables ------------------------------------------------
    def fv(self, n):
        r = n._fv
        if r is not None:
            return r
        stack = [(n, False)]
        while stack:
            x, done = stack.pop()
            if x._fv is not None:
                continue
            ks = list(kids(x))
            if x.op == "val":
                x._fv = frozenset()
                continue
            if x.op == "fold":
                info = self.e.loopinfo.get(x.args[0])
                if info:
                    for mu, (i0, nx) in info["mus"].items():
                        ks += [i0, nx]
                    ks.append(info["brk"])
            if not done:
                if x.op in ("lv",):
                    x._fv = frozenset([x])
                    continue
                if x.op == "mu":
                    x._fv = frozenset([x])
                    continue
                stack.append((x, True))
                x._fv = None
                for k in ks:
                    if k._fv is None and not (k.op == "fold" and any(s[0] is k for s in stack)):
                        stack.append((k, False))
            else:
                s = frozenset().union(*[k._fv or frozenset() for k in ks]) if ks else frozenset()
                if x.op in BINDERS:
                    lv = x.args[0]
                    s = frozenset(y for y in s if y is not lv and not (y.op == "mu" and y.args[0] is lv))
                x._fv = s
        return n._fv

    # ---- entry --------------------------------------------------------------
    def ev(self, n):
        f = self.fv(n)
        if f:
            key = (n.nid,) + tuple(sorted((x.nid, self.bind[x].uid if x in self.bind else 0) for x in f))
        else:
            key = n.nid
        r = self.memo.get(key, self)
        if r is not self:
            return r
        self.steps += 1
        if self.steps > 300000:
            raise TooBig()
        m = getattr(self, "o_" + n.op, None)
        r = norm(m(n)) if m is not None else Unk("node " + n.op)
        self.memo[key] = r
        return r

    def evs(self, ns):
        return [self.ev(x) for x in ns]

    # ---- leaves -------------------------------------------------------------
    def o_val(self, n):
        return n.args[0]

    def o_k(self, n):
        v = n.args[0]
        if isinstance(v, (int, float)):
            return fnum(v)
        return v

    def o_sym(self, n):
        name, ty = n.args
        fl = self.assume.get(name, "")
        sign = next((s for s in ("pos", "nonneg", "nonzero") if s in fl), None)
        if isinstance(ty, tuple) and ty[0] == "arr" and all(isinstance(x, int) for x in ty[1]):
            isi = "int" in fl

            if "bool" in fl:
                return T(ty[1], [bvar(("sym", name, i), "%s[%d]" % (name, i)) for i in range(dom.prod(ty[1]))])
            if "ref" in fl:
                return T(ty[1], [Op("item", (Ref(n), rconst(i))) for i in range(dom.prod(ty[1]))])
            names = [""]
            for d in ty[1]:
                names = [a + ("," if a else "") + str(i) for a in names for i in range(d)]
            return T(ty[1], [ratom(atom(("sym", name, a, sign, isi), "%s[%s]" % (name, a), sign=sign, isint=isi)) for a in names])
        if ty in ("int", "float", "num"):
            return ratom(atom(("sym", name, sign, ty == "int"), name, sign=sign, isint=(ty == "int")))
        if ty == "bool":
            return bvar(("sym", name), name)
        return Ref(n)

    def o_ext(self, n):
        f = n.args[0]
        c = npsem.CONST.get(f)
        if c is not None:
            return c
        return Ref(n)

    def o_ellipsis(self, n):
        return ELLIPSIS

    def o_obj(self, n):
        if self.heap is None:
            return Unk("mutable object") if not isinstance(n.args[1], ClassInfo) else Ref(n)
        c = self.heap.get((n, "#c"))
        if c is not None and not isinstance(n.args[1], ClassInfo):
            return self.ev(c)
        return Ref(n)

    def o_cls(self, n):
        return Ref(n)

    o_func = o_bm = o_bmo = o_mod = o_super = o_cls

    def o_unbound(self, n):
        return Unk("unbound")

    def o_lv(self, n):
        b = self.bind.get(n)
        if b is None:
            return Unk("loop variable")
        if isinstance(b, RowRef):
            if b.guards is None:
                return rconst(b.i)
            return dom.ssum([ite(g, R1, R0) for g in b.guards[:b.i]])
        return b.v

    def o_mu(self, n):
        b = self.bind.get(n)
        return Unk("loop value") if b is None else b.v

    # ---- logic --------------------------------------------------------------
    def o_phi(self, n):
        c = truth(self.ev(n.args[0]))
        if c is True:
            return self.ev(n.args[1])
        if c is False:
            return self.ev(n.args[2])
        return ite(c, self.ev(n.args[1]), self.ev(n.args[2]))

    def o_not(self, n):
        return bnot(truth(self.ev(n.args[0])))

    def o_and(self, n):
        r = True
        for x in n.args:
            r = band(r, truth(self.ev(x)))
            if r is False:
                return False
        return r

    def o_or(self, n):
        r = False
        for x in n.args:
            r = bor(r, truth(self.ev(x)))
            if r is True:
                return True
        return r

    def o_cmp(self, n):
        op, a, b = n.args
        x, y = self.ev(a), self.ev(b)
        return npsem.compare(op, x, y)

    def o_nonempty(self, n):
        c = n.args[0]
        if c.op == "while":
            return truth(self.ev(c.args[0]))
        return npsem.nonempty(self.ev(c))

    def o_len(self, n):
        return length(self.ev(n.args[0]))

    def o_isinst(self, n):
        v = self.ev(n.args[0])
        c = n.args[1]
        cs = c.args if isinstance(c, Node) and c.op in ("tup", "listc") else (c,)
        out = False
        for k in cs:
            if isinstance(k, Node) and k.op == "cls" and isinstance(v, Ref) and v.node.op == "sym":
                t = v.node.args[1]
                if isinstance(t, tuple) and t[0] == "opq":
                    out = bor(out, class_is(v, t[1], k.args[0]))
                    if out is True:
                        return True
                    continue
            nm = k.args[0] if isinstance(k, Node) and k.op == "ext" else None
            if isinstance(k, Node) and k.op == "cls":
                if isinstance(v, (Rat_, bool, str, T, Seq, type(None), G)):
                    continue
            if nm in ("builtins.int", "builtins.float") and isinstance(v, (T, G, Seq, str, type(None))):
                continue
            if nm == "builtins.str" and isinstance(v, str):
                return True
            if nm in ("builtins.str", "builtins.list", "builtins.tuple", "builtins.dict") and isinstance(v, (Rat_, bool, type(None), T, G)):
                continue
            if nm in ("builtins.list", "builtins.tuple", "builtins.dict") and isinstance(v, Seq):
                if v.kind == nm.split(".")[1]:
                    return True
                continue
            if nm == "numpy.ndarray":
                if isinstance(v, (T, G)):
                    return True
                if isinstance(v, (Rat_, bool, str, Seq, type(None))):
                    continue
            if nm == "builtins.bool" and isinstance(v, bool):
                return True
            out = None
        if out is None:
            return bvar(("isinst", n.nid), "isinstance#%d" % n.nid)
        return out

    def o_hasattr(self, n):
        return bvar(("hasattr", n.nid), "hasattr#%d" % n.nid)

    # ---- data ---------------------------------------------------------------
    def o_tup(self, n):
        return Seq("tuple", self.evs(n.args))

    def o_listc(self, n):
        return Seq("list", self.evs(n.args))

    def distinct_keys(self, ks):
        """True when no two keys can be equal, False when two are, None"""
        if len(ks) < 2 or all(sure_key(k) for k in ks):
            return True
        vs = [const_key(self.ev(k)) for k in ks]
        if any(v is None for v in vs):
            return None
        return len(set(vs)) == len(vs)

    def o_dictc(self, n):
        d = self.distinct_keys([k for k, v in n.args])
        if d is None:
            return Unk("dictionary keys")
        items = [(self.ev(k), self.ev(v)) for k, v in n.args]
        if d is False:
            last = {}
            for k, v in items:
                last[const_key(k)] = (k, v)
            items = list(last.values())
        return Seq("dict", items)

    def o_distinct(self, n):
        return self.ev(n.args[1]) if self.distinct_keys(n.args[0].args) else Unk("dictionary keys")

    def o_dictmerge(self, n):
        a, b = self.ev(n.args[0]), self.ev(n.args[1])
        if isinstance(a, Seq) and isinstance(b, Seq) and a.kind == b.kind == "dict":
            r = a
            for k, v in b.items:
                r = setitem(r, k, v)
            return r
        return Op("dictmerge", (a, b))

    def o_slice(self, n):
        vs = [None if (x.op == "k" and x.args[0] is None) else self.ev(x) for x in n.args]
        cs = [None if v is None else cint(v) for v in vs]
        if any(v is not None and c is None for v, c in zip(vs, cs)):
            if cs[2] in (None, 1) and all(v is None or c is not None or isinstance(v, DD) for v, c in zip(vs[:2], cs)):
                return dom.SymSl(vs[0], vs[1])
            return Unk("symbolic slice")
        return Sl(*cs)

    def index(self, i):
        if i.op == "tup":
            return tuple(self.index(x) for x in i.args)
        if i.op == "slice":
            return self.o_slice(i)
        v = self.ev(i)
        if isinstance(v, Seq) and v.kind == "tuple":
            return tuple(v.items)
        return v

    def o_idx(self, n):
        b, i = n.args
        if i.op == "lv" and isinstance(self.bind.get(i), RowRef):
            rr = self.bind[i]
            v = self.ev(b)
            if isinstance(v, DD):
                return dapply(lambda x: self.pick(x, rr), v)
            return self.pick(v, rr)
        v = self.ev(b)
        j = self.index(i)
        if isinstance(v, Seq) and v.kind == "dict" and isinstance(j, tuple):
            j = Seq("tuple", j)
        return npsem.subscript(v, j)

    def pick(self, v, rr):
        rs = rows(v)
        if rs is None:
            return getitem(v, rconst(rr.i))
        if rr.guards is None:
            if rr.i < len(rs) and all(g is True for g, _ in rs[:rr.i + 1]):
                return rs[rr.i][1]
            return getitem(v, rconst(rr.i))
        if len(rs) == len(rr.guards) and all(leafeq(a, b) for (a, _), b in zip(rs, rr.guards)):
            return rs[rr.i][1]
        return Unk("row of other selection")

    def o_store(self, n):
        b, i, v = n.args
        x = self.ev(v)
        if whole(b) and isinstance(x, (T, Rat_)) and not dom.has_unk(x):
            x = npsem.FUN["trunc"]([x], {})
        return setitem(self.ev(b), self.index(i), x)

    def o_removed(self, n):
        b = self.ev(n.args[0])
        i = self.ev(n.args[1]) if len(n.args) > 1 else None
        if isinstance(b, Seq) and b.kind == "dict":
            return Seq("dict", [(k, v) for k, v in b.items if fp(k) != fp(i)])
        return Unk("removed")

    def o_app(self, n):
        a, x = self.ev(n.args[0]), self.ev(n.args[1])
        return npsem.lcat(a, Seq("list", [x]))

    def o_cat(self, n):
        return npsem.lcat(self.ev(n.args[0]), self.ev(n.args[1]))

    def o_copy(self, n):
        return self.ev(n.args[0])

    o_shallow = o_copy

    def o_rev(self, n):
        v = self.ev(n.args[0])
        if isinstance(v, Seq) and v.kind in ("list", "tuple"):
            return Seq(v.kind, list(reversed(v.items)))
        if isinstance(v, T):
            return getitem(v, Sl(None, None, -1))
        return Unk("reversed")

    def o_setof(self, n):
        v = self.ev(n.args[0])
        rs = rows(v)
        if rs is not None and all(g is True for g, _ in rs):
            out = []
            for _, x in rs:
                if all(fp(x) != fp(y) for y in out):
                    out.append(x)
            if all(isinstance(x, (str, bool)) or (isinstance(x, Rat_) and x.const() is not None) for x in out):
                return Seq("list", out)
        return Op("set", (v,))

    def o_sorted(self, n):
        v = self.ev(n.args[0])
        kf = n.args[1]
        rev = truth(self.ev(n.args[2]))
        rs = rows(v)
        if rs is None or not all(g is True for g, _ in rs) or not isinstance(rev, bool):
            return Op("sorted", (v,))
        keys = []
        for i, (_, x) in enumerate(rs):
            if isinstance(kf, Node) and kf.op == "keyfn":
                with self.binding({kf.args[0]: RowRef(i, None)}):
                    k = self.ev(kf.args[1])
            else:
                k = x
            keys.append(k)
        return npsem.sort_by([x for _, x in rs], keys, rev)

    # ---- loops --------------------------------------------------------------
    class _B:
        def __init__(self, ev, mp):
            self.ev, self.mp = ev, mp

        def __enter__(self):
            self.old = {k: self.ev.bind.get(k) for k in self.mp}
            self.ev.bind.update(self.mp)

        def __exit__(self, *a):
            for k, v in self.old.items():
                if v is None:
                    self.ev.bind.pop(k, None)
                else:
                    self.ev.bind[k] = v

    def binding(self, mp):
        return Ev._B(self, mp)

    def iterrows(self, it):
        """[(guard, RowRef)] or a DD-free reason"""
        if it.op == "call" and it.args[0].op == "ext":
            f = it.args[0].args[0]
            if f == "builtins.enumerate":
                return self.iterrows(it.args[1][0])
            if f == "builtins.zip":
                rs = [self.iterrows(x) for x in it.args[1]]
                rs = [r for r in rs if r is not None]
                if len(rs) != len(it.args[1]) or not rs:
                    return None
                n = min(len(r) for r in rs)
                if all(all(g is True for g, _ in r) for r in rs):
                    return rs[0][:n]
                if all(len(r) == n for r in rs) and all(leafeq(a[0], b[0]) for r in rs for a, b in zip(r, rs[0])):
                    return rs[0]
                return None
            if f == "builtins.range":
                a = self.evs(it.args[1])
                if len(a) == 1:
                    r = self.countrows(a[0])
                    if r is not None:
                        return r
                if all(cint(x) is not None for x in a):
                    n = len(range(*[cint(x) for x in a]))
                    st = range(*[cint(x) for x in a])
                    return [(True, Bound(rconst(i))) for i in st] if n <= 400 else None
                return None
        v = self.ev(it)
        rs = rows(v)
        if rs is None:
            return None
        gs = [g for g, _ in rs]
        plain = all(g is True for g in gs)
        return [(g, RowRef(i, None if plain else gs)) for i, g in enumerate(gs)]

    def countrows(self, a):
        c = cint(a)
        if c is not None:
            return [(True, RowRef(i, None)) for i in range(c)] if c <= 400 else None
        if isinstance(a, DD):
            # range(symbolic small count): iteration i is live when i < count
            mx = [0]
            ok = [True]

            def lf(x):
                k = cint(x)
                if k is None:
                    ok[0] = False
                else:
                    mx[0] = max(mx[0], k)
                return x
            dapply(lf, a)
            if ok[0] and mx[0] <= 64:
                return [(dom.scmp("<", rconst(i), a), Bound(rconst(i))) for i in range(mx[0])]
        return None

    def o_map(self, n):
        lv, it, el, cond = n.args
        rs = self.iterrows(it)
        if rs is None:
            return Unk("map over unknown collection")
        out = []
        for g, rr in rs:
            with self.binding({lv: rr}):
                c = band(g, truth(self.ev(cond)))
                if c is False:
                    continue
                if isinstance(c, Unk):
                    return c
                out.append((c, self.ev(el)))
        if all(c is True for c, _ in out):
            return Seq("list", [x for _, x in out])
        return Seq("glist", out)

    def o_flatmap(self, n):
        lv, it, el = n.args[:3]
        rs = self.iterrows(it)
        if rs is None:
            return Unk("flatmap")
        r = Seq("list", [])
        for g, rr in rs:
            with self.binding({lv: rr}):
                x = self.ev(el)
                q = rows(x)
                if q is None:
                    return Unk("flatmap item")
                r = npsem.lcat(r, Seq("glist", [(band(g, h), y) for h, y in q]))
        return r

    def o_exists(self, n):
        lv, it, c = n.args
        if it.op == "while":
            return Unk("exists in while")
        rs = self.iterrows(it)
        if rs is None:
            return Unk("exists over unknown collection")
        r = False
        for g, rr in rs:
            with self.binding({lv: rr}):
                r = bor(r, band(g, truth(self.ev(c))))
            if r is True:
                return True
        return r

    def o_first(self, n):
        lv, it, c, v = n.args
        if it.op == "while":
            return Unk("first in while")
        rs = self.iterrows(it)
        if rs is None:
            return Unk("first over unknown collection")
        r = Unk("first of none")
        out = []
        for g, rr in rs:
            with self.binding({lv: rr}):
                cc = band(g, truth(self.ev(c)))
                if cc is False:
                    continue
                out.append((cc, self.ev(v)))
                if cc is True:
                    break
        for cc, x in reversed(out):
            r = ite(cc, x, r)
        return r

    def o_last(self, n):
        lv, it, v = n.args
        if it.op == "while":
            return Unk("last in while")
        rs = self.iterrows(it)
        if not rs:
            return Unk("last")
        r = Unk("last of none")
        for g, rr in rs:
            with self.binding({lv: rr}):
                r = ite(g, self.ev(v), r)
        return r

    def o_fold(self, n):
        lv, it, mu, nxt, init, brk = n.args
        info = self.e.loopinfo.get(lv)
        mus = {mu: (init, nxt)}
        if info:
            mus.update(info["mus"])
            mus[mu] = (init, nxt)
        # closure of loop-carried values needed
        need, todo = [], [mu]
        brkn = brk
        if isinstance(brkn, Node):
            todo += [x for x in self.fv(brkn) if x.op == "mu" and x.args[0] is lv]
        if it.op == "while":
            todo += [x for x in self.fv(it.args[0]) if x.op == "mu" and x.args[0] is lv]
        while todo:
            m = todo.pop()
            if m in need:
                continue
            if m not in mus:
                return Unk("loop value")
            need.append(m)
            todo += [x for x in self.fv(mus[m][1]) if x.op == "mu" and x.args[0] is lv]
        need.sort()
        outer = set()
        for m in need:
            outer |= set(self.fv(mus[m][0])) | {x for x in self.fv(mus[m][1])
                                                if x is not lv and not (x.op == "mu" and x.args[0] is lv)}
        outer |= set(self.fv(it)) if it.op != "while" else set()
        key = (n.args[0].nid, it.nid, tuple(m.nid for m in need), tuple(mus[m][1].nid for m in need),
               tuple(sorted((x.nid, self.bind[x].uid if x in self.bind else 0) for x in outer)))
        st = self.foldmemo.get(key)
        if st is None:
            st = self._fold(lv, it, need, mus, brkn)
            self.foldmemo[key] = st
        return st[mu] if isinstance(st, dict) else st

    def _fold(self, lv, it, need, mus, brk):
        st = {m: self.ev(mus[m][0]) for m in need}
        if it.op == "while":
            live = True
            for k in range(self.MAXW):
                b = {m: Bound(v) for m, v in st.items()}
                b[lv] = Bound(rconst(k))
                with self.binding(b):
                    live = band(live, truth(self.ev(it.args[0])))
                    if live is False:
                        return st
                    if isinstance(live, Unk) or (live is not True and k > 12):
                        return Unk("while loop with unresolved condition")
                    nx = {m: self.ev(mus[m][1]) for m in need}
                    bk = truth(self.ev(brk)) if isinstance(brk, Node) else False
                st = {m: ite(live, nx[m], st[m]) for m in need}
                live = band(live, bnot(bk))
            return Unk("while loop too long")
        rs = self.iterrows(it)
        if rs is None:
            return Unk("loop over unknown collection")
        broken = False
        for g, rr in rs:
            act = band(g, bnot(broken))
            if act is False:
                continue
            b = {m: Bound(v) for m, v in st.items()}
            b[lv] = rr
            with self.binding(b):
                nx = {m: self.ev(mus[m][1]) for m in need}
                bk = truth(self.ev(brk)) if isinstance(brk, Node) else False
            st = {m: gite(act, nx[m], st[m]) for m in need}
            broken = bor(broken, band(act, bk))
        return st

    # ---- operators ----------------------------------------------------------
    def o_bin(self, n):
        op, a, b = n.args
        return npsem.binop(op, self.ev(a), self.ev(b))

    def o_un(self, n):
        op, a = n.args
        v = self.ev(a)
        if op == "-":
            return npsem.E(dom.sneg, v)
        if op == "+":
            return v
        if op == "~":
            return npsem.E(npsem.inv1, v)
        return Unk("unary " + op)

    def o_attr(self, n):
        b, name = n.args
        v = self.ev(b)
        f = self.attrs.get(name)
        if f is not None:
            r = f(self, v)
            if r is not NotImplemented:
                return r
        return npsem.attribute(v, name)

    def o_call(self, n):
        f, a, k = n.args
        if any(x.op == "star" for x in a):
            return Op("call*", tuple(self.evs([x for x in a])))
        av = self.evs(a)
        kv = {x: self.ev(v) for x, v in k}
        if f.op == "ext":
            m = self.functions.get(f.args[0])
            if m is not None:
                r = m(self, av, kv)
                if r is not NotImplemented:
                    return r
            return npsem.call(f.args[0], av, kv)
        fv = self.ev(f)
        return Op("apply", (fv,) + tuple(av) + tuple(sorted(((x, v) for x, v in kv.items()), key=lambda t: t[0])))

    def o_star(self, n):
        return Op("*", (self.ev(n.args[0]),))

    def o_mc(self, n):
        o, name, a, k = n.args
        v = self.ev(o)
        av = self.evs(a)
        kv = {x: self.ev(w) for x, w in k}
        m = self.methods.get(name)
        if m is not None:
            r = m(self, v, av, kv)
            if r is not NotImplemented:
                return r
        return npsem.method(v, name, av, kv)

    def o_mutated(self, n):
        return Unk("mutated")


def gite(c, a, b):
    """ite that also merges growing lists"""
    if c is True:
        return a
    if c is False:
        return b
    if isinstance(a, Seq) and isinstance(b, Seq) and a.kind in ("list", "glist") and b.kind in ("list", "glist"):
        ra, rb = rows(a), rows(b)
        if len(ra) >= len(rb) and all(leafeq(g, h) and leafeq(x, y) for (g, x), (h, y) in zip(ra, rb)):
            if len(ra) == len(rb):
                return b
            return Seq("glist", rb + [(band(g, c), x) for g, x in ra[len(rb):]])
    return ite(c, a, b)


from .alg import Rat as Rat_  # noqa: E402


class Oracle:
    """constant folding for the value-flow engine"""

    def __init__(self, engine, assume=None):
        self.ev = Ev(engine, assume, None)
        self.bad = False
        self.limit = None           # size of the largest expression worth evaluating
        self.small = {}

    def value(self, n):
        if self.bad or self.ev.fv(n):
            return None
        if self.limit is not None:
            if n not in self.small:
                self.small[n] = sum(1 for _ in itertools.islice(walk(n), self.limit + 1)) <= self.limit
            if not self.small[n]:
                return None
        try:
            return self.ev.ev(n)
        except (TooBig, RecursionError):
            return None

    def truth(self, n, st):
        v = self.value(n)
        if isinstance(v, Op) or isinstance(v, Ref) or isinstance(v, Seq) or v is None:
            return None
        t = truth(v)
        return t if isinstance(t, bool) else None

    def const(self, n, st):
        v = self.value(n)
        if isinstance(v, T) and len(v.data) == 1 and not v.shape:
            v = v.data[0]
        if isinstance(v, (bool, str)):
            return v
        if isinstance(v, Rat_):
            c = v.const()
            if c is not None:
                return int(c) if c.denominator == 1 else c
        if isinstance(v, Seq) and v.kind == "tuple":
            out = []
            for x in v.items:
                if isinstance(x, Rat_) and x.const() is not None:
                    c = x.const()
                    out.append(int(c) if c.denominator == 1 else c)
                elif isinstance(x, str):
                    out.append(x)
                else:
                    return None
            return tuple(out)
        return None

    def length(self, n):
        v = self.value(n)
        return len(v.items) if isinstance(v, Seq) and v.kind in ("list", "tuple") else None

    def ints(self, n, st):
        """items of a list of whole numbers"""
        v = self.value(n)
        if isinstance(v, Seq) and v.kind in ("list", "tuple"):
            out = []
            for x in v.items:
                c = x.const() if isinstance(x, Rat_) else None
                if c is None or c.denominator != 1:
                    return None
                out.append(int(c))
            return out
        return None

    def rows(self, n, st):
        v = self.value(n)
        if isinstance(v, T) and v.shape:
            return v.shape[0]
        return None
