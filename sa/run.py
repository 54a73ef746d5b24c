"""Obligations: a driver (a caller of the public API) against a specification.

Both are small array programs; neither is executed.  The driver is analysed
together with the package source it reaches; the specification is analysed the
same way, and the two abstract values are compared (sa.compare).
"""
import sys
import threading
import time

from . import compare, dom
from .alg import TooBig
from .ev import Ev, Oracle
from .program import AnalysisBroken, Program
from .vfg import SYM, Bailout, Engine, State


class Result:
    def __init__(self, name, status, detail="", where=None, rule="", extra=None):
        self.name, self.status, self.detail, self.where, self.rule = name, status, detail, where or [], rule
        self.extra = extra or {}

    def __repr__(self):
        return "%-10s %s %s" % (self.status, self.name, self.detail)


def arrty(*shape):
    return ("arr", tuple(shape))


class Ctx:
    """one analysis run"""

    def __init__(self, program):
        self.p = program
        self.functions = set()
        self.sites = 0
        self.results = []

    def symbol(self, name, ty):
        return SYM(name, ty)

    def analyse(self, src, env=None, assume=None, setup=None, hooks=None):
        e = Engine(self.p)
        e.oracle = Oracle(e, assume)
        if hooks:
            hooks(e)
        st0 = {}
        envn = {}
        for k, t in (env or {}).items():
            envn[k] = t if hasattr(t, "op") else SYM(k, t)
        val, st = e.run_driver(src, envn, heap=setup(e, envn) if setup else None)
        ev = Ev(e, assume, st.heap if st is not None else {})
        self.functions |= set(e.analysed)
        self.sites += sum(len(v) if hasattr(v, "__len__") else 1 for v in e.analysed.values())
        return Run(e, ev, val, st)


class Run:
    def __init__(self, e, ev, val, st):
        self.e, self.ev, self.val, self.st = e, ev, val, st

    def value(self):
        if self.val is None:
            return dom.Unk("no normal completion")
        return self.ev.ev(self.val)

    def raises(self):
        return [x for x in self.e.events if x.kind == "raise"]
