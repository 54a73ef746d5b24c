"""May-alias analysis over value nodes: which pieces of mutable storage a value may be, or be a view of."""
from .vfg import Node

VIEW_CALLS = {"numpy." + x for x in (
    "asarray asanyarray ascontiguousarray reshape ravel squeeze transpose expand_dims atleast_1d atleast_2d atleast_3d "
    "swapaxes moveaxis broadcast_to flip fliplr flipud diagonal real rollaxis").split()}
VIEW_METHODS = {"reshape", "ravel", "squeeze", "transpose", "swapaxes", "view", "diagonal"}
VIEW_ATTRS = {"T", "flat", "real", "imag"}


def basic(i):
    """an index that makes a view: integers, slices, Ellipsis, None and tuples of them"""
    if i.op == "k":
        return i.args[0] is None or isinstance(i.args[0], int) and not isinstance(i.args[0], bool)
    if i.op == "tup":
        return all(basic(x) for x in i.args)
    if i.op in ("slice", "ellipsis", "lv"):
        return True
    return i.op == "sym" and i.args[1] == "int"


def roots(v, memo=None):
    """set of nodes naming the storage v may lie in; empty for a value made anew"""
    memo = {} if memo is None else memo
    if v in memo:
        return memo[v]
    memo[v] = frozenset()
    memo[v] = r = _roots(v, memo)
    return r


def _roots(v, memo):
    o = v.op
    if o == "sym":
        return frozenset([v])
    if o == "call":
        kw = dict(v.args[2])
        f = v.args[0]
        if "#id" in kw:
            return frozenset([v])
        if f.op == "ext":
            n, a = f.args[0], v.args[1]
            if n in VIEW_CALLS and a:
                return roots(a[0], memo)
            if n == "numpy.array" and a and kw.get("copy") is not None and kw["copy"].op == "k" and not kw["copy"].args[0]:
                return roots(a[0], memo)
            if n.startswith("builtins.") or n.startswith("numpy.") or n.startswith("scipy.") or n.startswith("copy."):
                return frozenset()
            return frozenset([v])       # an object of another library
        return frozenset()
    if o == "mc":
        if v.args[1] in VIEW_METHODS:
            return roots(v.args[0], memo)
        if v.args[1] == "astype":
            kw = dict(v.args[3])
            if kw.get("copy") is not None and kw["copy"].op == "k" and not kw["copy"].args[0]:
                return roots(v.args[0], memo)
        return frozenset()
    if o == "attr":
        if v.args[1] in VIEW_ATTRS:
            return roots(v.args[0], memo)
        return frozenset([v])
    if o in ("idx", "elem"):
        if o == "idx" and basic(v.args[1]):
            return roots(v.args[0], memo)
        return frozenset()
    if o == "phi":
        return roots(v.args[1], memo) | roots(v.args[2], memo)
    if o in ("store", "mutated"):
        return roots(v.args[0], memo)
    if o == "mu":
        return roots(v.args[2], memo)
    if o == "fold":
        return roots(v.args[3], memo) | roots(v.args[4], memo)
    if o in ("copy", "shallow"):
        # the copy of an expression that was never given an identity has none either
        return frozenset([v]) if roots(v.args[0], memo) else frozenset()
    return frozenset()


def guarded(v, conds=(), limit=64):
    """[(root, ((condition, value), ...))]: the storage v may lie in, with the choices that select it"""
    if v.op == "phi" and limit > 1:
        return guarded(v.args[1], conds + ((v.args[0], True),), limit // 2) + guarded(v.args[2], conds + ((v.args[0], False),), limit // 2)
    if v.op in ("store", "mutated") or v.op == "idx" and basic(v.args[1]):
        return guarded(v.args[0], conds, limit)
    return [(r, conds) for r in roots(v)]


def reach(v, heap, immutable=(), path="", out=None, seen=None):
    """storage reachable from a value: {node: access path}"""
    out = {} if out is None else out
    seen = set() if seen is None else seen
    if v in seen:
        return out
    seen.add(v)
    o = v.op
    if o in ("k", "func", "cls", "ext", "bm", "cmp", "not", "lv"):
        return out
    if o in ("tup", "listc"):
        for i, x in enumerate(v.args):
            reach(x, heap, immutable, "%s[%d]" % (path, i), out, seen)
        return out
    if o == "dictc":
        for k, x in v.args:
            reach(x, heap, immutable, "%s[%s]" % (path, k), out, seen)
        return out
    if o == "phi":
        for x in v.args[1:]:
            reach(x, heap, immutable, path, out, seen)
        return out
    if o == "obj":
        if immutable and immutable(v):
            return out
        out.setdefault(v, path or "itself")
        for (b, f), x in heap.items():
            if b is v and (not f.startswith("#") or f == "#c") and isinstance(x, Node):
                reach(x, heap, immutable, path + ("" if f == "#c" else "." + f), out, seen)
        return out
    for r in roots(v):
        if r.op == "sym" and (isinstance(r.args[1], str) or r.args[1] is None) and r.args[1] in ("int", "float", "bool", "str", "num", "fn"):
            continue
        out.setdefault(r, path or "itself")
        # fields of an object of another library
        for (b, f), x in heap.items():
            if b is r and not f.startswith("#") and isinstance(x, Node):
                reach(x, heap, immutable, path + "." + f, out, seen)
    return out
