"""Path-exploring symbolic execution core (z3).

A harness is an ordinary Python function that runs the code under test on
symbolic values.  Every truth test of a symbolic condition calls
Engine.branch(); the engine explores both outcomes by depth-first
re-execution, keeping one incremental solver whose push levels mirror the
decision stack.  Engine.check() asks the solver whether the negation of a
property is satisfiable under the current path condition.
"""
import math
import time
from fractions import Fraction
import z3


class EngineSignal(BaseException):
    """Base of everything the engine throws through the code under test."""


class Abort(EngineSignal):
    """Path infeasible or cut by an assumption."""


class Unsupported(EngineSignal):
    """The code did something the encoding does not model."""


class OutOfBudget(EngineSignal):
    pass


class PathEnd(EngineSignal):
    """Stop this path (a violation was recorded)."""


class Decision(object):
    __slots__ = ('taken', 'open', 'pushed', 'cond', 'payload', 'is_value')

    def __init__(self, taken, open_, pushed, cond, payload=None, is_value=False):
        self.taken, self.open, self.pushed = taken, open_, pushed
        self.cond, self.payload, self.is_value = cond, payload, is_value


ENGINE = None


def eng():
    return ENGINE


_real_cache = {}


PI = Fraction(repr(math.pi))


def ckey(e):
    """canonical text of a term: independent of the simplifier's term order"""
    e = z3.simplify(e, som=True)
    seen = {}

    def go(x):
        i = x.get_id()
        r = seen.get(i)
        if r is None:
            ch = [go(c) for c in x.children()]
            if not ch:
                r = x.sexpr()
            else:
                if x.decl().kind() in (z3.Z3_OP_ADD, z3.Z3_OP_MUL, z3.Z3_OP_AND, z3.Z3_OP_OR, z3.Z3_OP_EQ):
                    ch.sort()
                r = '(%s %s)' % (x.decl().name(), ' '.join(ch))
            seen[i] = r
        return r
    return go(e)


def frac_of(v):
    if isinstance(v, Fraction):
        return v
    if isinstance(v, bool):
        return Fraction(int(v))
    if isinstance(v, int):
        return Fraction(v)
    if isinstance(v, float):
        r = repr(v)
        if len(r) > 14 and v == v:
            # a multiple of pi/24 means exactly that
            k = v / math.pi * 24
            n = round(k)
            if n and abs(n) < 5000 and abs(k - n) < 4e-15 * max(1.0, abs(k)):
                return PI * Fraction(n, 24)
        return Fraction(r)
    raise Unsupported('not a number: %r' % (v,))


def realval(v):
    key = v if not isinstance(v, bool) else int(v)
    try:
        r = _real_cache.get((type(key), key))
    except TypeError:
        r = None
    if r is None:
        f = frac_of(v)
        r = z3.RealVal(f)
        _real_cache[(type(key), key)] = r
    return r


def relax_ints(cons):
    """the constraints with every integer constant read as a real one, None where
    integers are used in other ways than as numbers in real arithmetic"""
    subs, todo, done = {}, list(cons), set()
    while todo:
        t = todo.pop()
        if t.get_id() in done:
            continue
        done.add(t.get_id())
        if z3.is_app(t) and t.decl().kind() == z3.Z3_OP_TO_REAL:
            n = t.arg(0)
            if not (z3.is_const(n) and n.decl().kind() == z3.Z3_OP_UNINTERPRETED):
                return None
            subs[t.get_id()] = (t, z3.Real('relaxed!' + n.decl().name()))
            continue
        if z3.is_int(t) and not z3.is_int_value(t):
            return None
        if not (z3.is_bool(t) or z3.is_real(t) or z3.is_int_value(t)):
            return None
        todo += t.children()
    return [z3.substitute(c, *subs.values()) for c in cons] if subs else list(cons)


class Engine(object):
    def __init__(self, query_ms=8000, hard_ms=20000, deadline=None,
                 max_paths=200000):
        global ENGINE
        ENGINE = self
        self.query_ms, self.hard_ms = query_ms, hard_ms
        self.deadline = deadline
        self.max_paths = max_paths
        self.solver = z3.Solver()
        self.solver.set('timeout', query_ms)
        self.stack = []
        self.stats = dict(queries=0, solver_s=0.0, paths=0, checks=0,
                          check_queries=0, forks=0, unknown_branch=0,
                          unknown_check=0, unsupported=0, aborted=0,
                          hard_queries=0)
        self.labels = {}
        self.violations = []      # (label, inputs, how)
        self.concretise = []      # inputs of paths to run concretely
        self.validated = []       # sampled inputs of completed paths
        self.unsupported_reasons = {}
        self.seq = 0
        import random
        import os
        self.rnd = random.Random(int(os.environ.get('VERIF_SEED', '1') or 1))
        self.opts = {}
        self.max_violations = 6
        self.known_labels = set()
        self._const_memo = {}

    # ---- per path state -------------------------------------------------
    def reset_path(self):
        self.idx = 0
        self.nfresh = 0
        self.inputs = []          # (name, kind, z3 expr or value)
        self.memo = {}
        self.digit_vars = {}
        self.chars = {}
        self.model = None
        self.trig = []
        self.atans = []
        self.vfs = {}
        self.checked_here = 0
        self.dicts = {}

    def replaying(self):
        return self.idx < len(self.stack)

    def fresh(self, prefix, sort):
        self.nfresh += 1
        name = '%s!%d' % (prefix, self.nfresh)
        return z3.Const(name, sort)

    def fresh_real(self, p='r'):
        return self.fresh(p, z3.RealSort())

    def fresh_int(self, p='n'):
        return self.fresh(p, z3.IntSort())

    # ---- solver ----------------------------------------------------------
    def add(self, c):
        """Add an axiom / assumption to the current path."""
        if c is True:
            return
        if self.replaying():
            return
        self.solver.add(c)
        if self.model is not None:
            v = self.model.eval(c, model_completion=True)
            if not z3.is_true(v):
                self.model = None

    def _check(self, *extra):
        if self.deadline and time.time() > self.deadline:
            raise OutOfBudget()
        t = time.time()
        self.stats['queries'] += 1
        r = self.solver.check(*extra)
        if r == z3.unknown:
            r = self._hard(*extra)
        else:
            self._last_model = self.solver.model() if r == z3.sat else None
        dt = time.time() - t
        self.stats['solver_s'] += dt
        if dt > self.stats.get('slowest_s', 0):
            self.stats['slowest_s'] = dt
        return r

    def _hard(self, *extra):
        """Second opinion with other back ends."""
        self._last_model = None
        cons = list(self.solver.assertions()) + list(extra)
        if extra and self._relaxed_unsat(list(self.solver.assertions()), list(extra)):
            return z3.unsat
        for mk in (lambda: z3.Then('simplify', 'propagate-values', 'solve-eqs',
                                   'purify-arith', 'qfnra-nlsat').solver(),
                   lambda: z3.SolverFor('QF_NRA'),
                   lambda: z3.SolverFor('QF_NIRA')):
            if self.deadline and time.time() > self.deadline:
                raise OutOfBudget()
            self.stats['hard_queries'] += 1
            try:
                s = mk()
                s.set('timeout', self.hard_ms)
                s.add(*cons)
                r = s.check()
                if r == z3.sat:
                    self._last_model = s.model()
                if r != z3.unknown:
                    return r
            except z3.Z3Exception:
                continue
        return z3.unknown

    def _relaxed_unsat(self, base, extra):
        """Weaker problem that nlsat decides: only the constraints connected with the
        question, whole numbers taken as reals.  Unsatisfiable then means unsatisfiable."""
        seen = set()
        for e in extra:
            seen |= self._consts(e)
        left, use = [(c, self._consts(c)) for c in base], list(extra)
        while True:
            near = [(c, v) for c, v in left if v & seen]
            if not near:
                break
            left = [(c, v) for c, v in left if not v & seen]
            for c, v in near:
                use.append(c)
                seen |= v
        relaxed = relax_ints(use)
        if relaxed is None:
            return False
        try:
            self.stats['hard_queries'] += 1
            s = z3.Then('simplify', 'propagate-values', 'solve-eqs', 'purify-arith', 'qfnra-nlsat').solver()
            s.set('timeout', self.hard_ms)
            s.add(*relaxed)
            return s.check() == z3.unsat
        except z3.Z3Exception:
            return False

    def _consts(self, e):
        k = e.get_id()
        hit = self._const_memo.get(k)
        if hit is not None and hit[0].eq(e):
            return hit[1]
        out, todo, done = set(), [e], set()
        while todo:
            t = todo.pop()
            if t.get_id() in done:
                continue
            done.add(t.get_id())
            if z3.is_const(t) and t.decl().kind() == z3.Z3_OP_UNINTERPRETED:
                out.add(t.decl().name())
            todo += t.children()
        self._const_memo[k] = (e, out)
        return out

    def get_model(self):
        if self.model is None:
            r = self._check()
            if r == z3.unsat:
                raise Abort('infeasible')
            if r == z3.unknown:
                return None
            self.model = self._last_model
        return self.model

    def _model_truth(self, c):
        m = self.model
        if m is None:
            return None
        v = m.eval(c, model_completion=True)
        if z3.is_true(v):
            return True
        if z3.is_false(v):
            return False
        v = z3.simplify(v)
        if z3.is_true(v):
            return True
        if z3.is_false(v):
            return False
        return None

    def _same_cond(self, a, b):
        """the condition met on replay is the recorded one (terms may come out
        of the simplifier in another order)"""
        if a.eq(b):
            return True
        if z3.is_true(z3.simplify(a == b, som=True)):
            return True
        s = z3.Solver()
        s.set('timeout', 1000)
        s.add(a != b)
        return s.check() == z3.unsat

    def branch(self, cond, payload=None):
        """Decide a symbolic condition, forking when both sides are open."""
        if cond is True or cond is False:
            return cond
        s = z3.simplify(cond)
        if z3.is_true(s):
            return True
        if z3.is_false(s):
            return False
        if self.idx < len(self.stack):
            d = self.stack[self.idx]
            if d.is_value or not self._same_cond(d.cond, cond):
                raise Unsupported('non-deterministic replay')
            self.idx += 1
            if d.pushed and self.idx == len(self.stack):
                self.model = None
            return d.taken
        if self.deadline and time.time() > self.deadline:
            raise OutOfBudget()
        neg = z3.Not(cond)
        t = self._model_truth(s)
        mt = mf = None
        if t is True:
            rt, mt = z3.sat, self.model
        else:
            rt = self._check(cond)
            mt = self._last_model
        if t is False:
            rf, mf = z3.sat, self.model
        elif rt == z3.unsat:
            rf = z3.sat       # some side must be feasible
        else:
            rf = self._check(neg)
            mf = self._last_model
        if z3.unknown in (rt, rf):
            self.stats['unknown_branch'] += 1
        if rt == z3.unsat:
            d = Decision(False, False, False, cond)
            self.stack.append(d)
            self.idx += 1
            return False
        if rf == z3.unsat:
            d = Decision(True, False, False, cond)
            self.stack.append(d)
            self.idx += 1
            return True
        self.stats['forks'] += 1
        self.solver.push()
        self.solver.add(cond)
        self.stack.append(Decision(True, True, True, cond))
        self.idx += 1
        self.model = mt
        return True

    def entailed(self, cond):
        """Does the path condition imply cond?  (recorded, so that replays of
        the prefix take the same route)"""
        if self.idx < len(self.stack):
            d = self.stack[self.idx]
            self.idx += 1
            return d.taken
        r = self._check(z3.Not(cond)) == z3.unsat
        self.stack.append(Decision(r, False, False, cond, None, True))
        self.idx += 1
        return r

    def value_of(self, expr, kind):
        """Concrete value of expr on this path, forking over its values."""
        s = z3.simplify(expr)
        v = num_value(s)
        if v is not None:
            return v
        n = 0
        while True:
            n += 1
            if n > 400:
                raise Unsupported('too many values to enumerate')
            if self.idx < len(self.stack):
                d = self.stack[self.idx]
                v = d.payload
                self.idx += 1
                if d.pushed and self.idx == len(self.stack):
                    self.model = None
                if not d.is_value:
                    raise Unsupported('non-deterministic replay')
                if d.taken:
                    return v
                continue
            m = self.get_model()
            if m is None:
                raise Unsupported('no model to concretise with')
            v = num_value(m.eval(expr, model_completion=True))
            if v is None:
                raise Unsupported('irrational value to concretise')
            lit = z3.IntVal(v) if kind == 'int' else z3.RealVal(v)
            cond = expr == lit
            r = self._check(z3.Not(cond))
            if r == z3.unsat:
                self.stack.append(Decision(True, False, False, cond, v, True))
                self.idx += 1
                return v
            self.stats['forks'] += 1
            self.solver.push()
            self.solver.add(cond)
            self.stack.append(Decision(True, True, True, cond, v, True))
            self.idx += 1
            self.model = m
            return v

    # ---- assumptions and properties --------------------------------------
    def assume(self, cond):
        if cond is True:
            return
        if cond is False:
            raise Abort('assumption false')
        if self.replaying():
            return
        s = z3.simplify(cond)
        if z3.is_true(s):
            return
        if z3.is_false(s):
            raise Abort('assumption false')
        self.add(cond)
        if self.model is None:
            r = self._check()
            if r == z3.unsat:
                raise Abort('assumption infeasible')
            if r == z3.sat:
                self.model = self._last_model

    def prove(self, cond, label, loose=None):
        """Property check.  `loose`: weaker condition accepted when the exact
        one fails (floating point tolerance of the comparison)."""
        self.labels[label] = self.labels.get(label, 0) + 1
        self.checked_here += 1
        if self.replaying():
            return
        self.stats['checks'] += 1
        if cond is True:
            return
        if cond is not False:
            s = z3.simplify(cond)
            if z3.is_true(s):
                return
            if z3.is_false(s):
                cond = False
        if cond is False:
            self.model = self.get_model()
            if loose is None or loose is False:
                self.violate(label, self.model)
                return
            cond = loose
            loose = None
        self.stats['check_queries'] += 1
        neg = z3.Not(cond)
        if self._model_truth(cond) is False and loose is None:
            r, m = z3.sat, self.model
        else:
            r = self._check(neg)
            m = self._last_model
        if r == z3.unsat:
            return
        if loose is not None:
            neg = z3.Not(loose)
            self.stats['check_queries'] += 1
            r = self._check(neg)
            m = self._last_model
            if r == z3.unsat:
                return
        if r == z3.unknown:
            self.stats['unknown_check'] += 1
            self.concretise_path('unknown verdict for ' + label)
            return
        self.violate(label, m, neg)

    def violate(self, label, model, neg=None):
        ins = []
        if model is not None:
            ins.append(self.dump_inputs(model))
        for m in self.nice_models(neg):
            ins.insert(0, self.dump_inputs(m))
        self.violations.append(dict(label=label, inputs=ins))
        if label in self.known_labels and neg is not None:
            self.add(z3.Not(neg))
            self.assume(z3.BoolVal(True))
            if self._check() != z3.unsat:
                return
        raise PathEnd()

    def nice_models(self, neg):
        """Models whose real inputs lie on a coarse decimal grid (they replay
        without float noise); best effort."""
        reals = [e for (n, k, e) in self.inputs if k == 'real']
        if not reals:
            return []
        out = []
        for grid, lim in ((4, 1500), (1000, 2500)):
            self.solver.push()
            try:
                self.solver.set('timeout', lim)
                if neg is not None:
                    self.solver.add(neg)
                for i, r in enumerate(reals):
                    k = z3.Int('grid!%d' % i)
                    self.solver.add(r * grid == z3.ToReal(k))
                t = time.time()
                r = self.solver.check()
                self.stats['queries'] += 1
                self.stats['solver_s'] += time.time() - t
                if r == z3.sat:
                    out.append(self.solver.model())
                    break
            finally:
                self.solver.set('timeout', self.query_ms)
                self.solver.pop()
        return out

    def dump_inputs(self, model):
        vals = {}
        for name, kind, e in self.inputs:
            if kind == 'choice':
                vals[name] = e
            elif kind == 'chars':
                vals[name] = ''.join(
                    chr(num_value(model.eval(c, model_completion=True)))
                    for c in e)
            elif kind == 'bool':
                vals[name] = bool(z3.is_true(model.eval(e, model_completion=True)))
            elif kind == 'angle':
                a, c, s = [float(num_value(model.eval(x, model_completion=True), approx=True)) for x in e]
                d = math.degrees(math.atan2(s, c))
                d = round(d, 9) if abs(d - round(d, 9)) < 1e-10 else d
                vals[name] = d + 360.0 * round((a - d) / 360.0)
            else:
                v = num_value(model.eval(e, model_completion=True), approx=True)
                if kind == 'int':
                    vals[name] = int(v)
                else:
                    vals[name] = float(v)
        return vals

    def concretise_path(self, reason):
        """The encoding gave up on this path: remember one concrete input of
        it so that the real code is at least run there."""
        self.stats['unsupported'] += 1
        self.unsupported_reasons[reason] = self.unsupported_reasons.get(reason, 0) + 1
        try:
            m = self.get_model()
        except EngineSignal:
            m = None
        if m is not None and len(self.concretise) < 400:
            self.concretise.append(self.dump_inputs(m))

    # ---- exploration -------------------------------------------------------
    def explore(self, fn, sample=3):
        """Run fn() on every feasible path."""
        complete = True
        while True:
            self.reset_path()
            self.stats['paths'] += 1
            try:
                fn()
                if sample and len(self.validated) < sample:
                    self._sample()
                elif sample and (self.stats['paths'] & (self.stats['paths'] - 1)) == 0 \
                        and len(self.validated) < 3 * sample:
                    self._sample()
            except Abort:
                self.stats['aborted'] += 1
            except PathEnd:
                if len(self.violations) >= self.max_violations:
                    return False
            except Unsupported as e:
                self.concretise_path(str(e)[:160])
            except OutOfBudget:
                self.stats['out_of_budget'] = self.stats.get('out_of_budget', 0) + 1
                return False
            except RecursionError:
                self.concretise_path('recursion depth')
            except EngineSignal:
                raise
            except Exception as e:
                msg = '%s: %s' % (type(e).__name__, e)
                if any(t in msg for t in ('Sym', 'z3', 'ArithRef', 'BoolRef', 'Run(')):
                    self.concretise_path('engine type leak: ' + msg[:160])
                else:
                    import traceback
                    tb = traceback.extract_tb(e.__traceback__)
                    where = ''
                    for f in tb:
                        if '/gerber/' in f.filename:
                            where = '%s:%s' % (f.filename.split('/gerber/')[-1], f.name)
                    try:
                        m = self.get_model()
                    except EngineSignal:
                        m = None
                    ins = [] if m is None else [self.dump_inputs(m)]
                    try:
                        for nm in self.nice_models(None):
                            ins.insert(0, self.dump_inputs(nm))
                    except Exception:
                        pass
                    self.violations.append(dict(label='unexpected-exception',
                                                inputs=ins, detail=msg[:300] + ' @' + where))
                    if len(self.violations) >= self.max_violations:
                        return False
            # backtrack
            while self.stack and not self.stack[-1].open:
                d = self.stack.pop()
                if d.pushed:
                    self.solver.pop()
            if not self.stack:
                return complete
            d = self.stack[-1]
            self.solver.pop()
            self.solver.push()
            self.solver.add(z3.Not(d.cond))
            d.taken, d.open = False, False
            if self.stats['paths'] >= self.max_paths:
                self.stats['out_of_budget'] = self.stats.get('out_of_budget', 0) + 1
                return False
            if self.deadline and time.time() > self.deadline:
                self.stats['out_of_budget'] = self.stats.get('out_of_budget', 0) + 1
                return False

    def _sample(self):
        """Keep one concrete input of this (completed) path, moved away from
        the solver's default corner by random equalities that stay feasible."""
        rnd = self.rnd
        n = 0
        self.solver.set('timeout', 400)
        try:
            t = time.time()
            for name, kind, e in self.inputs:
                if time.time() - t > 1.0 or n > 24:
                    break
                if kind == 'real':
                    c = e == z3.RealVal(Fraction(rnd.randint(-800, 800), 16))
                elif kind == 'int':
                    c = e == rnd.randint(-9, 99)
                elif kind == 'chars' and e:
                    c = z3.And(*[z3.Or(x == rnd.randint(48, 57), x == rnd.randint(32, 126)) for x in e])
                else:
                    continue
                self.solver.push()
                self.solver.add(c)
                n += 1
                r = self.solver.check()
                self.stats['queries'] += 1
                if r != z3.sat:
                    self.solver.pop()
                    n -= 1
                    if kind == 'real':
                        self.solver.push()
                        self.solver.add(z3.And(e * 16 == z3.ToReal(z3.ToInt(e * 16)), e > rnd.randint(0, 3)))
                        n += 1
                        if self.solver.check() != z3.sat:
                            self.solver.pop()
                            n -= 1
            if self.solver.check() == z3.sat:
                self.validated.append(self.dump_inputs(self.solver.model()))
        except z3.Z3Exception:
            pass
        finally:
            for _ in range(n):
                self.solver.pop()
            self.solver.set('timeout', self.query_ms)


def num_value(e, approx=False):
    if z3.is_int_value(e):
        return e.as_long()
    if z3.is_rational_value(e):
        f = Fraction(e.numerator_as_long(), e.denominator_as_long())
        return f
    if approx:
        if z3.is_algebraic_value(e):
            a = e.approx(20)
            return Fraction(a.numerator_as_long(), a.denominator_as_long())
        s = z3.simplify(e)
        if not s.eq(e):
            return num_value(s, True)
        return Fraction(0)
    return None
