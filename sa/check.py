"""Runs the static obligations of one property against /repo's current source.

    python3 /verif/sa/check.py C04

An obligation is decided from the source: HOLDS, VIOLATION, or UNDECIDED (the
analysis could not follow the code; reported in the evidence, never an alarm).
"""
import importlib
import json
import os
import pickle
import resource
import signal
import struct
import sys
import tempfile
import time
import traceback

HERE = os.path.dirname(os.path.abspath(__file__))
ROOT = os.path.dirname(HERE)
sys.path.insert(0, ROOT)

from sa import alg, compare, dom, npsem  # noqa: E402
from sa.alg import Atom, Poly, Rat, TooBig  # noqa: E402
from sa.program import AnalysisBroken, Program  # noqa: E402
from sa.run import Ctx, arrty  # noqa: E402
from sa.vfg import SYM, Bailout, Engine, K, State, is_k, land, lnot, show  # noqa: E402

HOLDS, VIOLATION, UNDECIDED = "holds", "violation", "undecided"
ERRORS = ("bad_call", "missing_attr", "unset_attr", "unbound", "undefined", "none_attr", "no_setter", "bad_unpack",
          "opq_missing_attr", "call_noncallable")


class OutOfTime(BaseException):
    pass


class Ob:
    def __init__(self, name, status, detail="", where=None, rule="", key=None, analysed=None):
        self.name, self.status, self.detail, self.where, self.rule = name, status, detail, where or [], rule
        self.key = key or name
        self.analysed = analysed or []


class Check:
    """the obligations of one property"""

    def __init__(self, pid, tier="quick", program=None, only=None):
        self.pid, self.tier = pid, tier
        self.p = program or Program(os.environ.get("SA_REPO", "/repo"))
        self.ctx = Ctx(self.p)
        self.obs = []
        self.notes = []
        self.limit = 60 if tier == "quick" else 180
        self.deadline = time.time() + (600 if tier == "quick" else 780)
        self.only = only
        self.rules = set()
        self.assumptions = []
        self.explanation = ""
        self.take = None        # take(i): is the i-th obligation this process's to decide
        self.index = -1

    @property
    def thorough(self):
        return self.tier == "thorough"

    # ---- recording -----------------------------------------------------------
    def add(self, ob):
        self.obs.append(ob)
        if ob.rule:
            self.rules.add(ob.rule)
        if os.environ.get("SA_VERBOSE"):
            print("%6.2f %-10s %-50s %s" % (getattr(ob, "secs", 0), ob.status, ob.name, ob.detail[:int(os.environ.get("SA_W", "200"))]), flush=True)

    def anchor(self, at):
        """file:line of public constructs, for reports"""
        out = []
        for a in ([at] if isinstance(at, str) else (at or [])):
            try:
                if "." in a:
                    c, m = a.split(".")
                    info = self.p.cls(c)
                    mm = info.lookup(m)[0]
                    mi = mm if hasattr(mm, "node") else getattr(mm, "getter", None)
                    if mi is None:
                        mi = info
                    out.append("%s:%d %s" % (mi.module.path, mi.node.lineno, a))
                else:
                    try:
                        f = self.p.func(a)
                    except AnalysisBroken:
                        f = self.p.cls(a)
                    out.append("%s:%d %s" % (f.module.path, f.node.lineno, a))
            except Exception:
                out.append(a)
        return out

    def run(self, name, fn, rule="", at=None, key=None):
        """fn() -> (status, detail) or (status, detail, where); guarded and timed"""
        if self.only and self.only not in name:
            return
        self.index += 1
        del alg.DIVISORS[:]
        if self.take and not self.take(self.index):
            return
        if time.time() > self.deadline:
            ob = Ob(name, UNDECIDED, "out of time", rule=rule)
            ob.index = self.index
            self.add(ob)
            return

        def fire(*_):
            raise OutOfTime()
        old = signal.signal(signal.SIGALRM, fire)
        signal.setitimer(signal.ITIMER_REAL, self.limit)
        t0 = time.time()
        where = self.anchor(at)
        try:
            r = fn()
            st, detail = r[0], r[1]
            if len(r) > 2 and r[2]:
                where = where + [w for w in r[2] if w not in where]
            if len(r) > 3:
                key = r[3]          # what was found, for the list of known findings
        except OutOfTime:
            st, detail = UNDECIDED, "time limit of %d s" % self.limit
        except (TooBig, Bailout, RecursionError, dom.Undecided) as e:
            st, detail = UNDECIDED, "%s %s" % (type(e).__name__, e)
        except AnalysisBroken as e:
            st, detail = UNDECIDED, "nothing to analyse: %s" % e
        except Exception as e:
            if os.environ.get("SA_DEBUG"):
                traceback.print_exc()
            st, detail = UNDECIDED, "analysis error: %s: %s @ %s" % (
                type(e).__name__, e, traceback.extract_tb(e.__traceback__)[-1])
        finally:
            signal.setitimer(signal.ITIMER_REAL, 0)
            signal.signal(signal.SIGALRM, old)
        ob = Ob(name, st, detail, where, rule, key)
        ob.secs = time.time() - t0
        ob.index = self.index
        self.add(ob)

    # ---- analysis ------------------------------------------------------------
    def analyse(self, src, env=None, assume=None, setup=None, hooks=None, models=None):
        def hk(e):
            if models:
                install(e.oracle.ev, models)
            if hooks:
                hooks(e)
        r = self.ctx.analyse(src, env, assume, setup, hk)
        if models:
            install(r.ev, models)
        return r

    def spec(self, spec, env, assume, models, run, setup=None):
        if callable(spec):
            return spec(run)
        return self.analyse(spec, env, assume, setup, models=models).value()

    def failures(self, run, zero=False, errors=True, quiet_locs=()):
        """exceptions of a driver that must complete: [(loc, why)] with satisfiable conditions"""
        out = []
        for x in run.e.events:
            if x.caught or not (x.kind == "raise" or errors and x.kind in ERRORS):
                continue
            if any(q in (x.loc or "") for q in quiet_locs):
                continue
            if x.ctx:
                continue
            s = self.satisfiable(run, x.path, zero)
            if s:
                out.append((x.loc, "%s %s%s" % (x.kind, x.data if not isinstance(x.data, tuple) else x.data[0],
                                               "" if s is True else " when " + s)))
        return out

    def pathval(self, run, path):
        """abstract condition of a path"""
        r = True
        for c, v in path:
            t = dom.truth(run.ev.ev(c))
            r = dom.band(r, t if v else dom.bnot(t))
            if r is False:
                return False
        return r

    def satisfiable(self, run, path, zero=False):
        try:
            r = self.pathval(run, path)
        except (TooBig, RecursionError):
            return None
        if r is True:
            return True
        if r is False or dom.has_unk(r) or not trusted(r):
            return None
        v, d = compare.verdict(r, False, zero, thresholds=False)
        return d if v == compare.DIFFERS else None

    def eq(self, name, drv, spec, env, assume=None, at=None, rule="same value as the definition", zero=False,
           setup=None, hooks=None, models=None, raises=False, samples=None, quiet_locs=(), post=None, key=None, angles=None):
        """the driver returns the specified value for every input, and completes"""
        def go():
            if angles:
                old = list(alg.ANGLES)
                alg.ANGLES[:] = angles
                try:
                    return go2()
                finally:
                    alg.ANGLES[:] = old
            return go2()

        def go2():
            r = self.analyse(drv, env, assume, setup, hooks, models)
            where = analysed(r)
            if not raises:
                f = self.failures(r, zero, quiet_locs=quiet_locs)
                if f:
                    return VIOLATION, "does not complete: " + f[0][1], [f[0][0]] + where
            v = r.value()
            if post:
                v = post(r, v)
            s = self.spec(spec, env, assume, models, r, setup)
            res, d = compare.verdict(v, s, zero, samples=samples or (24 if not self.thorough else 96))
            st = {compare.HOLDS: HOLDS, compare.DIFFERS: VIOLATION}.get(res, UNDECIDED)
            if st == VIOLATION:
                extra = opaque_parts(v) - opaque_parts(s)
                if extra:
                    st, d = UNDECIDED, "depends on uninterpreted %s" % (sorted(map(str, extra))[0][:200])
            if st == UNDECIDED and os.environ.get("SA_DEBUG"):
                print("   found   ", repr(v)[:1500])
                print("   required", repr(s)[:1500])
                for x in r.e.events:
                    if x.kind in ("unsupported", "depth") or x.kind in ERRORS:
                        print("   event", x)
            return st, d, where
        self.run(name, go, rule, at, key)


MODELLED = {"facet", "in", "inhull", "sym", "sample", "simplex", "align", "u01", "class"}


def opaque_parts(x):
    """names of uninterpreted (external, unmodelled) quantities a value depends on"""
    out, seen = set(), set()

    def atom_(i):
        a = Atom.lst[i]
        if ("a", i) in seen:
            return
        seen.add(("a", i))
        if a.kind == "sym":
            return
        if a.evalf is None and a.kind not in MODELLED:
            out.add(("a", a.key))
            return
        for y in a.args:
            go(y)

    def go(x):
        if isinstance(x, (list, tuple)):
            for y in x:
                go(y)
        elif isinstance(x, dom.DD):
            if ("d", id(x)) in seen:
                return
            seen.add(("d", id(x)))
            v = x.var
            if v.kind == "b":
                k = v.key[0] if isinstance(v.key, tuple) else v.key
                if k not in MODELLED:
                    out.add(("b", v.key))
            elif v.info is not None:
                go(v.info)
            for k in x.kids:
                go(k)
        elif isinstance(x, Poly):
            for i in x.atoms():
                atom_(i)
        elif isinstance(x, Rat):
            go(x.n)
            for p, _ in x.d:
                go(p)
        elif isinstance(x, dom.T):
            go(x.data)
        elif isinstance(x, dom.G):
            go(x.guards)
            go(x.t)
        elif isinstance(x, dom.Seq):
            go(x.items)
    go(x)
    return out


def trusted(c):
    return not opaque_parts(c)


def install(ev, models):
    for k, t in (("methods", ev.methods), ("functions", ev.functions), ("attrs", ev.attrs)):
        t.update(models.get(k, {}))


def analysed(r):
    return sorted("%s %s" % (p, q) for p, q in r.e.analysed if "<driver>" not in p)


# ---- findings -----------------------------------------------------------------
def known_findings():
    out = []
    try:
        for line in open(os.path.join(ROOT, "known_findings.txt")):
            line = line.rstrip("\n")
            if line.startswith("known: "):
                # known: property=<id> key=<obligation key> :: text
                head, _, text = line[7:].partition(" :: ")
                pid = head.split("property=")[1].split()[0]
                key = head.split(" key=")[1].strip()
                out.append((pid, key, text))
    except FileNotFoundError:
        pass
    return out


def finish(c, t0, seed, level="other"):
    known = {k: t for p, k, t in known_findings() if p == c.pid}
    viol, kn = [], []
    for o in c.obs:
        if o.status == VIOLATION:
            if o.key in known:
                kn.append(o)
            else:
                viol.append(o)
    seenk = set()
    for o in kn:
        if o.key in seenk:
            continue
        seenk.add(o.key)
        print("KNOWN-FINDING: property=%s %s" % (c.pid, known[o.key]))
    os.makedirs(os.path.join(ROOT, "evidence", "replay"), exist_ok=True)
    replay = os.path.join(ROOT, "evidence", "replay", "%s.txt" % c.pid)
    if viol:
        with open(replay, "w") as f:
            for o in viol:
                f.write("obligation: %s\nrule: %s\nfound: %s\nat:\n%s\n\n" % (
                    o.name, o.rule, o.detail, "\n".join("  " + str(w) for w in o.where[:40])))
        for o in viol[:12]:
            print("%s: %s [%s] at %s" % (c.pid, o.name, o.detail[:400], "; ".join(str(w) for w in o.where[:3])))
        print("VIOLATION property=%s replay=%s" % (c.pid, replay))
    n = len(c.obs)
    held = sum(o.status == HOLDS for o in c.obs)
    und = [o for o in c.obs if o.status == UNDECIDED]
    ev = {
        "property": c.pid, "tier": c.tier, "seed": seed, "level": level,
        "coverage": {
            "explanation": c.explanation,
            "obligations": n, "held": held,
            "undecided": [{"obligation": o.name, "why": o.detail[:300]} for o in und],
            "violated": [{"obligation": o.name, "rule": o.rule, "what": o.detail[:600],
                          "where": [str(w) for w in o.where[:12]]} for o in viol],
            "known_findings": sorted(seenk),
            "functions_analysed": len(c.ctx.functions),
            "functions": sorted("%s %s" % f for f in c.ctx.functions if "<driver>" not in f[0]),
            "call_sites_analysed": c.ctx.sites,
            "rules": sorted(c.rules),
            "samples": [{"obligation": o.name, "status": o.status, "rule": o.rule,
                         "where": [str(w) for w in o.where[:4]]} for o in c.obs[:400]],
        },
        "assumptions": c.assumptions,
        "wall_s": round(time.time() - t0, 3),
        "violations": len(viol),
    }
    with open(os.path.join(ROOT, "evidence", c.pid + ".json"), "w") as f:
        json.dump(ev, f, indent=1)
    print("%s: %d obligations, %d hold, %d undecided, %d violated (%d known), %d functions, %.1f s" % (
        c.pid, n, held, len(und), len(viol) + len(kn), len(kn), len(c.ctx.functions), time.time() - t0))
    return 1 if viol else 0


def share(c, go, jobs):
    """decide the obligations in several processes; each takes the next free one"""
    if jobs <= 1:
        return go(c)
    rd, wr = os.pipe()
    os.set_blocking(wr, False)
    n = 0
    try:
        while n < 16000:
            os.write(wr, struct.pack("<i", n))
            n += 1
    except BlockingIOError:
        pass
    os.close(wr)
    outs, pids = [], []
    sys.stdout.flush()
    for _ in range(jobs):
        f = tempfile.TemporaryFile()
        pid = os.fork()
        if pid == 0:
            rc = 1
            try:
                cur = [-1]

                def take(i):
                    while 0 <= cur[0] < i or cur[0] == -1:
                        b = os.read(rd, 4)
                        cur[0] = struct.unpack("<i", b)[0] if len(b) == 4 else -2
                    return cur[0] == i or cur[0] == -2 and i >= n
                c.take = take
                err = None
                try:
                    go(c)
                except AnalysisBroken as e:
                    err = str(e)
                for o in c.obs:
                    o.where = [str(w) for w in o.where]
                pickle.dump((c.obs, c.ctx.functions, c.ctx.sites, c.rules, c.assumptions, err, c.index), f)
                f.flush()
                sys.stdout.flush()
                rc = 0
            except BaseException:
                traceback.print_exc()
            finally:
                os._exit(rc)
        outs.append(f)
        pids.append(pid)
    os.close(rd)
    broken, total, seen = None, 0, set()
    for pid, f in zip(pids, outs):
        os.waitpid(pid, 0)
        f.seek(0)
        try:
            obs, fs, sites, rules, assumptions, err, last = pickle.load(f)
        except Exception:
            continue
        broken = broken or err
        total = max(total, last + 1)
        for o in obs:
            i = getattr(o, "index", None)
            if i is None or i not in seen:
                seen.add(i)
                c.obs.append(o)
        c.ctx.functions |= fs
        c.ctx.sites += sites
        c.rules |= rules
        for a in assumptions:
            if a not in c.assumptions:
                c.assumptions.append(a)
    if broken:
        raise AnalysisBroken(broken)
    for i in range(total):
        if i not in seen:
            c.obs.append(Ob("obligation %d" % i, UNDECIDED, "the deciding process ended"))
            c.obs[-1].index = i
    c.obs.sort(key=lambda o: getattr(o, "index", 1 << 30))


def main(argv):
    pid = argv[1]
    tier = os.environ.get("VERIF_TIER", "quick")
    if "--thorough" in argv:
        tier = "thorough"
    only = None
    for a in argv[2:]:
        if a.startswith("--only="):
            only = a[7:]
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    t0 = time.time()
    try:
        c = Check(pid, tier, only=only)
        mod = importlib.import_module("sa.props." + pid.lower())
        c.explanation = " ".join((mod.__doc__ or "").split())
        share(c, mod.run, int(os.environ.get("SA_JOBS", 0)) or min(8, os.cpu_count() or 1))
    except AnalysisBroken as e:
        print("analysis broken: %s" % e)
        return 2
    if not c.obs or (not only and all(o.status == UNDECIDED for o in c.obs)):
        print("%s: nothing could be decided" % pid)
    return finish(c, t0, seed)


if __name__ == "__main__":
    sys.setrecursionlimit(20000)
    if resource.getrlimit(resource.RLIMIT_STACK)[0] != resource.RLIM_INFINITY:
        try:
            resource.setrlimit(resource.RLIMIT_STACK, (resource.RLIM_INFINITY, resource.getrlimit(resource.RLIMIT_STACK)[1]))
        except (ValueError, OSError):
            pass
    rc = main(sys.argv)
    sys.stdout.flush()
    os._exit(rc)
