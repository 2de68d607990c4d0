"""Path exploration by re-execution; the decision trail is aligned with a z3 push/pop stack."""
import time
try:
    import z3
except ImportError:          # the replay worker needs no solver
    z3 = None
from . import terms as t
from .terms import ISet, IVar, Cond

ENG = None  # the active engine (None: hooks are inert)


class Abort(BaseException):
    """Engine control flow: never caught by the code under test (not an Exception)."""


class PathEnd(Abort):
    pass


class StopJob(Abort):
    pass


class CheckFailed(Abort):
    def __init__(self, msg):
        self.msg = msg


class EngineError(Abort):
    pass


class Unsupported(Abort):
    """an operation the encoding does not model: the path is inconclusive"""


class Entry:
    __slots__ = ("kind", "cond", "val", "open", "other", "pushed", "aux")

    def __init__(self, kind, cond, val, open_, other, pushed, aux=None):
        self.kind, self.cond, self.val = kind, cond, val
        self.open, self.other, self.pushed, self.aux = open_, other, pushed, aux


class Engine:
    def __init__(self, deadline=None, query_timeout_ms=20000):
        self.solver = z3.SimpleSolver()
        self.solver.set("timeout", query_timeout_ms)
        self.deadline = deadline
        self.vars = {}          # name -> IVar (persist over paths)
        self.trail = []
        self.pos = 0
        self.model = {}
        self.known = {}
        self.pdom = {}
        self.incomplete = []    # reasons exploration is not exhaustive
        self.stats = dict(paths=0, infeasible=0, decisions=0, queries=0, solver_s=0.0,
                          checks=0, checks_folded=0, unknown=0)
        self.functions = set()
        self.samples_limit = 3
        self.concretised = set()

    # ------------------------------------------------------------ path handling
    def begin_path(self):
        self.pos = 0
        self.known = {}
        self.pdom = {}
        self.declared = []
        self.names = set()
        self.counters = {}

    def backtrack(self):
        tr = self.trail
        while tr:
            e = tr.pop()
            if e.pushed:
                self.solver.pop()
            if e.open:
                self.model = e.other
                z = e.cond.z()
                self.solver.push()
                self.solver.add(z if not e.val else z3.Not(z))
                tr.append(Entry(e.kind, e.cond, not e.val, False, None, True, e.aux))
                return True
        return False

    def tick(self):
        if self.deadline is not None and time.monotonic() > self.deadline:
            self.incomplete.append("time budget exhausted")
            raise StopJob()

    def query(self, zc):
        """sat / unsat / unknown of path condition and zc; returns (verdict, model dict)"""
        self.tick()
        s = self.solver
        t0 = time.perf_counter()
        s.push()
        s.add(zc)
        r = s.check()
        self.stats["queries"] += 1
        m = None
        if r == z3.sat:
            m = self._extract(s.model())
        s.pop()
        self.stats["solver_s"] += time.perf_counter() - t0
        if r == z3.unknown:
            self.stats["unknown"] += 1
            self.incomplete.append("solver returned unknown: " + s.reason_unknown())
            return "unknown", None
        return ("sat" if r == z3.sat else "unsat"), m

    def _extract(self, zm):
        m = {}
        for v in self.declared:
            x = zm[v.z()]
            m[v.name] = x.as_long() if x is not None else self.model.get(v.name, v.dom.lo)
            if m[v.name] not in v.dom:
                m[v.name] = v.dom.lo
        return m

    # ------------------------------------------------------------ declarations
    def var(self, name, dom, prefer=None):
        v = self.vars.get(name)
        if v is None:
            v = self.vars[name] = IVar(name, dom)
        elif v.dom is not dom:
            # same name, another domain (declared on another path): keep them apart
            name = "%s~%x" % (name, abs(hash(dom.iv)) & 0xFFFFFF)
            v = self.vars.get(name)
            if v is None:
                v = self.vars[name] = IVar(name, dom)
        if name in self.names:
            raise EngineError("variable declared twice on a path: " + name)
        self.names.add(name)
        self.declared.append(v)
        self.pdom[v] = dom
        if self.pos < len(self.trail):
            e = self.trail[self.pos]
            if e.kind != "v" or e.cond is not v:
                raise EngineError("non-deterministic re-execution at declaration of " + name)
            self.pos += 1
            if name not in self.model:
                self.model[name] = e.aux
        else:
            d = prefer if prefer is not None and prefer in dom else dom.lo
            self.model[name] = d
            self.solver.push()
            self.solver.add(Cond("in", v, dom).z())
            self.trail.append(Entry("v", v, True, False, None, True, d))
            self.pos += 1
        return v

    # ------------------------------------------------------------ decisions
    def fold(self, c):
        """value of c if implied by what this path already decided (unary facts), else None"""
        r = self.known.get(c)
        if r is not None:
            return r
        k = c.k
        if k == "in" and c.a.isvar:
            d = self.pdom.get(c.a)
            if d is not None:
                x = d & c.b
                if not x:
                    return False
                if x is d or x == d:
                    return True
            return None
        if k == "not":
            r = self.fold(c.a)
            return None if r is None else not r
        if k == "and":
            allt = True
            for x in c.a:
                r = self.fold(x)
                if r is False:
                    return False
                if r is None:
                    allt = False
            return True if allt else None
        if k == "or":
            allf = True
            for x in c.a:
                r = self.fold(x)
                if r is True:
                    return True
                if r is None:
                    allf = False
            return False if allf else None
        if k == "eq" and not isinstance(c.a, int) and not isinstance(c.b, int) and c.a.isvar and c.b.isvar:
            da, db = self.pdom.get(c.a), self.pdom.get(c.b)
            if da is not None and db is not None:
                x = da & db
                if not x:
                    return False
                if da.size() == 1 and db.size() == 1:
                    return True
        return None

    def learn(self, c, val):
        self.known[c] = val
        k = c.k
        if k == "in" and c.a.isvar:
            d = self.pdom.get(c.a)
            if d is not None:
                self.pdom[c.a] = (d & c.b) if val else (d - c.b)
        elif k == "not":
            self.learn(c.a, not val)
        elif k == "and" and val:
            for x in c.a:
                self.learn(x, True)
        elif k == "or" and not val:
            for x in c.a:
                self.learn(x, False)

    def decide(self, c, aux=None):
        if c is True or c is False:
            return c
        neg = False
        while c.k == "not":
            c = c.a
            neg = not neg
        r = self.fold(c)
        if r is not None:
            return r != neg
        if self.pos < len(self.trail):
            e = self.trail[self.pos]
            if e.kind != "d" or e.cond is not c:
                raise EngineError("non-deterministic re-execution at a decision: %r vs %r" % (e.cond, c))
            self.pos += 1
            val = e.val
        else:
            z = c.z()
            val = bool(c.ev(self.model))
            verdict, other = self.query(z3.Not(z) if val else z)
            self.stats["decisions"] += 1
            if verdict == "sat":
                self.solver.push()
                self.solver.add(z if val else z3.Not(z))
                self.trail.append(Entry("d", c, val, True, other, True, aux))
            else:
                self.trail.append(Entry("d", c, val, False, None, False, aux))
            self.pos += 1
        self.learn(c, val)
        return val != neg

    def assume(self, c):
        if c is True:
            return
        if c is False:
            raise PathEnd()
        r = self.fold(c)
        if r is True:
            return
        if r is False:
            raise PathEnd()
        if self.pos < len(self.trail):
            e = self.trail[self.pos]
            if e.kind != "a" or e.cond is not c:
                raise EngineError("non-deterministic re-execution at an assumption")
            self.pos += 1
        else:
            z = c.z()
            if not c.ev(self.model):
                verdict, m = self.query(z)
                if verdict != "sat":
                    raise PathEnd()
                self.model = m
            self.solver.push()
            self.solver.add(z)
            self.trail.append(Entry("a", c, True, False, None, True))
            self.pos += 1
        self.learn(c, True)

    def check(self, c):
        """None if c holds on every input of this path, else a model refuting it"""
        self.stats["checks"] += 1
        if c is True:
            self.stats["checks_folded"] += 1
            return None
        if c is False:
            return dict(self.model)
        r = self.fold(c)
        if r is True:
            self.stats["checks_folded"] += 1
            return None
        if self.pos < len(self.trail):
            e = self.trail[self.pos]
            if e.kind != "c" or e.cond is not c:
                raise EngineError("non-deterministic re-execution at a check")
            self.pos += 1
        else:
            if not c.ev(self.model):
                return dict(self.model)
            verdict, m = self.query(z3.Not(c.z()))
            if verdict == "sat":
                return m
            self.trail.append(Entry("c", c, True, False, None, False))
            self.pos += 1
        self.learn(c, True)
        return None

    # ------------------------------------------------------------ concretisation
    def value(self, e):
        """exhaustive: fork over every feasible value of the integer expression e"""
        if isinstance(e, int):
            return e
        n = 0
        while True:
            if e.isvar:
                d = self.pdom.get(e)
                if d is not None and d.size() == 1:
                    return d.lo
            kv = self.known.get(("val", e))
            if kv is not None:
                return kv
            if self.pos < len(self.trail):
                v = self.trail[self.pos].aux
            else:
                v = e.ev(self.model)
            c = t.c_eq(e, v)
            n += 1
            if n > 4096:
                self.incomplete.append("integer concretised over more than 4096 values")
                raise PathEnd()
            if self.decide(c, aux=v):
                self.known[("val", e)] = v
                return v

    def sample(self, exprs, why):
        """not exhaustive: fix the expressions to a few feasible valuations, note it"""
        self.concretised.add(why)
        self.incomplete.append("concretised: " + why) if ("concretised: " + why) not in self.incomplete else None
        k = self.samples_limit
        while True:
            if self.pos < len(self.trail):
                vals = self.trail[self.pos].aux
                if vals is None:
                    vals = tuple(t.ievl(e, self.model) for e in exprs)
            else:
                vals = tuple(t.ievl(e, self.model) for e in exprs)
            c = t.c_and([t.c_eq(e, v) for e, v in zip(exprs, vals)])
            if c is True:
                return vals
            if self.fold(c) is True:
                return vals
            if self.decide(c, aux=vals):
                return vals
            k -= 1
            if k <= 0:
                raise PathEnd()
