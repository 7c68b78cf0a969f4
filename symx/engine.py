"""Path exploration: depth-first search by re-execution, incremental z3."""
import time
import sys
import z3


class PathAbort(BaseException):
    """Raised to leave the current path (infeasible, assumption violated, budget)."""


class BudgetExceeded(BaseException):
    pass


class Decision:
    __slots__ = ("taken", "alts", "kind")

    def __init__(self, taken, alts, kind):
        self.taken = taken      # z3 constraint currently asserted (or None)
        self.alts = alts        # list of (value, constraint) still to explore
        self.kind = kind


class Stats:
    FIELDS = ("paths", "aborted", "branches", "forks", "queries", "sat", "unsat", "unknown",
              "solver_s", "requires", "require_queries", "concretized", "truncated")

    def __init__(self):
        for f in self.FIELDS:
            setattr(self, f, 0)

    def as_dict(self):
        return {f: getattr(self, f) for f in self.FIELDS}


class Violation:
    def __init__(self, label, inputs, detail):
        self.label = label
        self.inputs = inputs
        self.detail = detail


def mk_and(xs):
    out = []
    for x in xs:
        if x is True:
            continue
        if x is False:
            return False
        out.append(x)
    if not out:
        return True
    if len(out) == 1:
        return out[0]
    return z3.And(*out)


def mk_or(xs):
    out = []
    for x in xs:
        if x is False:
            continue
        if x is True:
            return True
        out.append(x)
    if not out:
        return False
    if len(out) == 1:
        return out[0]
    return z3.Or(*out)


def mk_not(x):
    if x is True:
        return False
    if x is False:
        return True
    return z3.Not(x)


class Engine:
    """One engine explores one case (one harness with fixed configuration)."""

    current = None

    def __init__(self, budget_s=60.0, max_paths=200000, query_timeout_ms=20000, conc_limit=3):
        self.solver = z3.Solver()
        self.solver.set("timeout", query_timeout_ms)
        self.trail = []          # list[Decision]
        self.pos = 0
        self.values = []         # value chosen at each trail position
        self.stats = Stats()
        self.deadline = time.time() + budget_s
        self.max_paths = max_paths
        self.conc_limit = conc_limit
        self.model = None        # model satisfying current pc (or None if unknown)
        self.base_level = []     # constraints asserted on the current path outside decisions
        self.dead = False
        self.fresh = 0
        self.cover = {}
        self.violations = []
        self.complete = True
        self.incomplete_reasons = {}
        self.inputs = {}
        self.conc_sites = {}
        self.scope_assumes = []
        self.notes = {}
        self.func_hits = set()

    # -- solver -----------------------------------------------------------
    def check(self, *extra):
        t = time.time()
        self.stats.queries += 1
        r = self.solver.check(*extra)
        self.stats.solver_s += time.time() - t
        if r == z3.sat:
            self.stats.sat += 1
        elif r == z3.unsat:
            self.stats.unsat += 1
        else:
            self.stats.unknown += 1
        return r

    def mark_incomplete(self, why):
        self.complete = False
        self.incomplete_reasons[why] = self.incomplete_reasons.get(why, 0) + 1

    def alive(self):
        if self.dead:
            raise PathAbort("dead")
        if time.time() > self.deadline:
            self.dead = True
            raise BudgetExceeded()

    def _model_true(self, c):
        """Value of c in the current model: True/False/None."""
        if self.model is None:
            return None
        v = self.model.eval(c, model_completion=True)
        if z3.is_true(v):
            return True
        if z3.is_false(v):
            return False
        return None

    def new_var(self, kind, name):
        n = f"{name}!{self.fresh}"
        self.fresh += 1
        return z3.Int(n) if kind == "int" else z3.Bool(n)

    # -- assertions -------------------------------------------------------
    def assume(self, c):
        """Add c to the path condition; abort the path when it is infeasible."""
        self.alive()
        if c is True:
            return
        if c is False:
            self.dead = True
            raise PathAbort("assume")
        # assumptions made while replaying a prefix are already in the solver
        if self.pos < len(self.trail):
            d = self.trail[self.pos]
            if d.kind == "assume":
                self.pos += 1
                return
        mt = self._model_true(c)
        self.solver.push()
        self.solver.add(c)
        self.trail.append(Decision(c, [], "assume"))
        self.pos += 1
        if mt is not True:
            r = self.check()
            if r == z3.unsat:
                self.dead = True
                raise PathAbort("assume")
            if r == z3.sat:
                self.model = self.solver.model()
            else:
                self.model = None
                self.mark_incomplete("unknown")

    def branch(self, c):
        """Decide a symbolic condition; returns a Python bool."""
        self.alive()
        if c is True or c is False:
            return c
        if z3.is_true(c):
            return True
        if z3.is_false(c):
            return False
        self.stats.branches += 1
        if self.pos < len(self.trail):
            d = self.trail[self.pos]
            assert d.kind == "branch", (d.kind, c)
            v = self.values[self.pos]
            self.pos += 1
            return v
        nc = z3.Not(c)
        mt = self._model_true(c)
        model_true = model_false = None
        if mt is True:
            can_t = True
            model_true = self.model
            r = self.check(nc)
            can_f = r != z3.unsat
            if r == z3.sat:
                model_false = self.solver.model()
            if r == z3.unknown:
                self.mark_incomplete("unknown")
        elif mt is False:
            can_f = True
            model_false = self.model
            r = self.check(c)
            can_t = r != z3.unsat
            if r == z3.sat:
                model_true = self.solver.model()
            if r == z3.unknown:
                self.mark_incomplete("unknown")
        else:
            r = self.check(c)
            can_t = r != z3.unsat
            if r == z3.sat:
                model_true = self.solver.model()
            if r == z3.unknown:
                self.mark_incomplete("unknown")
            r = self.check(nc)
            can_f = r != z3.unsat
            if r == z3.sat:
                model_false = self.solver.model()
            if r == z3.unknown:
                self.mark_incomplete("unknown")
        if can_t and can_f:
            self.stats.forks += 1
            # follow the side the current model takes, queue the other one
            if mt is False:
                v, con, alt = False, nc, (True, c)
                self.model = model_false
            else:
                v, con, alt = True, c, (False, nc)
                self.model = model_true
            self.solver.push()
            self.solver.add(con)
            self.trail.append(Decision(con, [alt], "branch"))
            self._set(len(self.trail) - 1, v)
            self.pos += 1
            return v
        if not can_t and not can_f:
            self.dead = True
            raise PathAbort("infeasible")
        v = can_t
        self.trail.append(Decision(None, [], "branch"))
        self._set(len(self.trail) - 1, v)
        self.solver.push()
        self.pos += 1
        return v

    def _set(self, i, v):
        while len(self.values) < i:
            self.values.append(None)
        if len(self.values) == i:
            self.values.append(v)
        else:
            self.values[i] = v

    def choose(self, options):
        """options: list of (value, constraint). Picks one feasible option per path."""
        self.alive()
        if self.pos < len(self.trail):
            d = self.trail[self.pos]
            assert d.kind == "choose"
            v = self.values[self.pos]
            self.pos += 1
            return v
        pend = list(options)
        v = self._take_next(pend)
        if v is None:
            self.dead = True
            raise PathAbort("no option")
        return v[0]

    def _take_next(self, pend):
        while pend:
            val, con = pend.pop(0)
            if con is False:
                continue
            self.solver.push()
            if con is not True and con is not None:
                mt = self._model_true(con)
                self.solver.add(con)
                if mt is not True:
                    r = self.check()
                    if r == z3.unsat:
                        self.solver.pop()
                        continue
                    self.model = self.solver.model() if r == z3.sat else None
                    if r == z3.unknown:
                        self.mark_incomplete("unknown")
            self.trail.append(Decision(con, pend, "choose"))
            self._set(len(self.trail) - 1, val)
            self.pos = len(self.trail)
            return (val,)
        return None

    def concretize(self, exprs, site):
        """Pick concrete values for expressions, at most conc_limit alternatives per site and path.
        The path is complete only if no other values remain (checked on backtracking)."""
        self.alive()
        if self.pos < len(self.trail):
            d = self.trail[self.pos]
            assert d.kind == "conc", d.kind
            v = self.values[self.pos]
            self.pos += 1
            return v
        if self.model is None:
            r = self.check()
            if r != z3.sat:
                self.dead = True
                raise PathAbort("conc")
            self.model = self.solver.model()
        vals = [self.model.eval(e, model_completion=True) for e in exprs]
        self.solver.push()
        self.solver.add(*[e == v for e, v in zip(exprs, vals)])
        self.stats.concretized += 1
        self.trail.append(Decision(None, [(exprs, [vals], site)], "conc"))
        self._set(len(self.trail) - 1, vals)
        self.pos += 1
        return vals

    # -- exploration ------------------------------------------------------
    def backtrack(self):
        """Moves to the next unexplored decision; returns False when done."""
        while self.trail:
            d = self.trail.pop()
            self.solver.pop()
            i = len(self.trail)
            if not d.alts:
                continue
            if d.kind == "branch":
                v, con = d.alts.pop()
                self.solver.push()
                self.solver.add(con)
                self.trail.append(Decision(con, [], "branch"))
                self._set(i, v)
                self.model = None
                r = self.check()
                if r == z3.sat:
                    self.model = self.solver.model()
                elif r == z3.unsat:
                    self.trail.pop()
                    self.solver.pop()
                    continue
                return True
            if d.kind == "choose":
                self.model = None
                pend = d.alts
                self.pos = i
                ok = None
                while pend:
                    val, con = pend.pop(0)
                    if con is False:
                        continue
                    self.solver.push()
                    if con is not True and con is not None:
                        self.solver.add(con)
                    r = self.check()
                    if r == z3.unsat:
                        self.solver.pop()
                        continue
                    self.model = self.solver.model() if r == z3.sat else None
                    self.trail.append(Decision(con, pend, "choose"))
                    self._set(i, val)
                    ok = True
                    break
                if ok:
                    return True
                continue
            if d.kind == "conc":
                exprs, seen, site = d.alts[0]
                self.solver.push()
                for vs in seen:
                    self.solver.add(mk_not(mk_and([e == v for e, v in zip(exprs, vs)])))
                r = self.check()
                if r == z3.unsat:
                    self.solver.pop()
                    continue
                if len(seen) >= self.conc_limit or r != z3.sat:
                    self.solver.pop()
                    self.mark_incomplete(f"concretized:{site}")
                    continue
                self.model = self.solver.model()
                vals = [self.model.eval(e, model_completion=True) for e in exprs]
                self.solver.add(*[e == v for e, v in zip(exprs, vals)])
                self.trail.append(Decision(None, [(exprs, seen + [vals], site)], "conc"))
                self._set(i, vals)
                return True
        return False

    def explore(self, fn, on_path=None):
        """fn() is run once per path."""
        Engine.current = self
        try:
            self.model = None
            if self.check() == z3.sat:
                self.model = self.solver.model()
            while True:
                self.pos = 0
                self.dead = False
                self.fresh = 0
                self.inputs = {}
                if on_path:
                    on_path()
                try:
                    fn()
                    if self.dead:
                        self.stats.aborted += 1
                    else:
                        self.stats.paths += 1
                except PathAbort:
                    self.stats.aborted += 1
                except BudgetExceeded:
                    self.stats.truncated += 1
                    self.mark_incomplete("time budget")
                    return
                if time.time() > self.deadline:
                    if self.backtrack():
                        self.stats.truncated += 1
                        self.mark_incomplete("time budget")
                    return
                if self.stats.paths + self.stats.aborted >= self.max_paths:
                    self.mark_incomplete("path budget")
                    self.stats.truncated += 1
                    return
                if not self.backtrack():
                    return
        finally:
            Engine.current = None
