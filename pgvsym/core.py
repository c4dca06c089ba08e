"""Path explorer: depth-first, re-execution based symbolic execution.

A harness is a Python callable run(ctx).  Everything nondeterministic goes
through ctx: fresh symbolic variables, structural choices (ctx.choose) and
branch decisions on symbolic conditions (ctx.decide).  The explorer re-runs the
harness once per feasible path, asking the solver which sides of each branch
are feasible; pruned branches are exactly the unsatisfiable ones.
"""
import time
import z3


class PathEnd(Exception):
    """This path is infeasible or deliberately cut."""


class Unsupported(Exception):
    """The encoder has no meaning for a construct on this path."""


class Budget(Exception):
    pass


class Stats:
    def __init__(self):
        self.paths = 0
        self.decisions = 0
        self.queries = 0
        self.solver_s = 0.0
        self.unknown = 0
        self.unsupported = {}
        self.steps = 0
        self.cut = 0
        self.functions = set()
        self.stubs = set()

    def merge(self, o):
        self.paths += o.paths
        self.decisions += o.decisions
        self.queries += o.queries
        self.solver_s += o.solver_s
        self.unknown += o.unknown
        self.steps += o.steps
        self.cut += o.cut
        for k, v in o.unsupported.items():
            self.unsupported[k] = self.unsupported.get(k, 0) + v
        self.functions |= o.functions
        self.stubs |= o.stubs


def is_sym(v):
    return isinstance(v, z3.ExprRef)


def conc_bool(b):
    """Python bool of a boolean that is syntactically constant, else None."""
    if isinstance(b, bool):
        return b
    if z3.is_true(b):
        return True
    if z3.is_false(b):
        return False
    return None


def Not(a):
    if isinstance(a, bool):
        return not a
    return z3.Not(a)


def And(*xs):
    xs = [x for x in (xs[0] if len(xs) == 1 and isinstance(xs[0], (list, tuple)) else xs)]
    out = []
    for x in xs:
        c = conc_bool(x)
        if c is False:
            return False
        if c is None:
            out.append(x)
    if not out:
        return True
    return out[0] if len(out) == 1 else z3.And(out)


def Or(*xs):
    xs = [x for x in (xs[0] if len(xs) == 1 and isinstance(xs[0], (list, tuple)) else xs)]
    out = []
    for x in xs:
        c = conc_bool(x)
        if c is True:
            return True
        if c is None:
            out.append(x)
    if not out:
        return False
    return out[0] if len(out) == 1 else z3.Or(out)


def Iff(a, b):
    ca, cb = conc_bool(a), conc_bool(b)
    if ca is not None:
        return b if ca else Not(b)
    if cb is not None:
        return a if cb else Not(a)
    return a == b


def tobool(a):
    return z3.BoolVal(a) if isinstance(a, bool) else a


def Ite(c, a, b):
    cc = conc_bool(c)
    if cc is True:
        return a
    if cc is False:
        return b
    return z3.If(c, a, b)


class Ctx:
    def __init__(self, timeout_ms=20000, deadline=None, max_paths=None):
        self.solver = z3.SolverFor('QF_AUFBV') if False else z3.Solver()
        self.solver.set('timeout', timeout_ms)
        self.stack = []      # entries: [kind, payload, taken, alternatives]
        self.pos = 0
        self.stats = Stats()
        self.deadline = deadline
        self.max_paths = max_paths
        self.names = {}
        self.exhausted = True
        self.trace = []
        self.max_decisions = 4000
        self.escape = None

    # ---- solver -----------------------------------------------------
    def check(self, *extra):
        t = time.time()
        self.stats.queries += 1
        r = self.solver.check(*extra)
        self.stats.solver_s += time.time() - t
        if r == z3.unknown:
            self.stats.unknown += 1
        return r

    def model(self):
        return self.solver.model()

    # ---- fresh values -----------------------------------------------
    def fresh(self, base):
        n = self.names.get(base, 0)
        self.names[base] = n + 1
        return base if n == 0 else '%s!%d' % (base, n)

    def bv(self, name, w):
        return z3.BitVec(self.fresh(name), w)

    def boolean(self, name):
        return z3.Bool(self.fresh(name))

    def fp(self, name, w):
        return z3.FP(self.fresh(name), z3.Float32() if w == 32 else z3.Float64())

    # ---- decisions --------------------------------------------------
    def _tick(self):
        if self.deadline is not None and time.time() > self.deadline:
            raise Budget('deadline')

    def choose(self, n, what=''):
        if n <= 1:
            return 0
        if self.pos < len(self.stack):
            e = self.stack[self.pos]
            self.pos += 1
            return e[1]
        self._tick()
        self.stack.append(['choice', 0, n])
        self.solver.push()
        self.pos += 1
        return 0

    def decide(self, cond):
        c = conc_bool(cond)
        if c is not None:
            return c
        cond = z3.simplify(cond)
        c = conc_bool(cond)
        if c is not None:
            return c
        if self.pos < len(self.stack):
            e = self.stack[self.pos]
            self.pos += 1
            return e[1]
        self._tick()
        self.stats.decisions += 1
        if self.pos > self.max_decisions:
            raise Unsupported('decision depth')
        nc = z3.Not(cond)
        t = self.check(cond)
        if t == z3.unsat:
            taken, alt = False, False
        else:
            f = self.check(nc)
            taken, alt = True, f != z3.unsat
        self.stack.append(['branch', taken, alt, cond])
        self.solver.push()
        self.solver.add(cond if taken else nc)
        self.pos += 1
        return taken

    def assume(self, cond):
        c = conc_bool(cond)
        if c is True:
            return
        if c is False:
            raise PathEnd()
        if self.pos < len(self.stack):
            self.pos += 1
            return
        self.stack.append(['assume', True])
        self.solver.push()
        self.solver.add(cond)
        self.pos += 1
        if self.check() == z3.unsat:
            raise PathEnd()

    def concretize(self, v, lo, hi):
        """Fork over the feasible concrete values of BV v within lo..hi."""
        if not is_sym(v):
            return v
        v = z3.simplify(v)
        if z3.is_bv_value(v):
            return v.as_long()
        for k in range(lo, hi):
            if self.decide(v == k):
                return k
        self.assume(v == hi)
        return hi

    # ---- exploration ------------------------------------------------
    def _backtrack(self):
        while self.stack:
            e = self.stack[-1]
            if e[0] == 'choice' and e[1] + 1 < e[2]:
                self.solver.pop()
                e[1] += 1
                self.solver.push()
                return True
            if e[0] == 'branch' and e[2]:
                self.solver.pop()
                e[1] = not e[1]
                e[2] = False
                self.solver.push()
                self.solver.add(e[3] if e[1] else z3.Not(e[3]))
                return True
            self.solver.pop()
            self.stack.pop()
        return False

    def explore(self, run, on_path=None):
        """Runs `run(ctx)` for every feasible path. Returns True if exhausted."""
        while True:
            self.pos = 0
            self.names = {}
            self.trace = []
            self.escape = None
            try:
                run(self)
                self.stats.paths += 1
            except PathEnd:
                self.stats.cut += 1
            except Budget:
                self.exhausted = False
                return False
            except Exception as ex:
                if not isinstance(ex, Unsupported) and (self.escape is None or isinstance(ex, MemoryError)):
                    raise
                k = '%s: %s' % (type(ex).__name__, str(ex)[:200]) if not isinstance(ex, Unsupported) else str(ex)[:200]
                self.stats.unsupported[k] = self.stats.unsupported.get(k, 0) + 1
                self.exhausted = False
                if self.escape is not None:
                    try:
                        self.escape()
                    except (Unsupported, PathEnd, Budget):
                        pass
            # Entries beyond pos (can't happen, runs are deterministic).
            while len(self.stack) > self.pos:
                self.stack.pop()
                self.solver.pop()
            if self.max_paths and self.stats.paths >= self.max_paths:
                self.exhausted = False
                return False
            if not self._backtrack():
                return self.exhausted
