"""Verification state: path condition, decision trail, solver."""
import time
import z3

z3.set_param('smt.random_seed', 7)


class PathEnd(Exception):
    """Current path is infeasible (or finished)."""


class Unsupported(Exception):
    """The engine cannot interpret / decide this."""


class ObligationFailed(Exception):
    def __init__(self, msg, cond=None):
        super().__init__(msg)
        self.cond = cond


class Budget(Exception):
    pass


def is_sym(t):
    return isinstance(t, z3.ExprRef)


TRUE = z3.BoolVal(True)
FALSE = z3.BoolVal(False)

import os as _os
DEBUG = _os.environ.get('PYVC_CONC')
STATS = {'queries': 0, 'time': 0.0, 'unknown': 0, 'sat': 0, 'unsat': 0, 'cvc5': 0, 'cvc5_proved': 0}


QCACHE = {}


def quantified(f):
    k = f.get_id() if isinstance(f, z3.ExprRef) else None
    if k is None:
        return False
    e = QCACHE.get(k)
    if e is not None and e[0].eq(f):
        return e[1]
    todo, seen, r = [f], set(), False
    while todo:
        t = todo.pop()
        if z3.is_quantifier(t):
            r = True
            break
        if t.get_id() in seen:
            continue
        seen.add(t.get_id())
        todo.extend(t.children())
    if len(QCACHE) > 200000:
        QCACHE.clear()
    QCACHE[k] = (f, r)
    return r


class State:
    """One verification task.  Explores paths by re-execution along a decision trail."""
    last_diff = None
    hurry = False             # a quick answer will do (False when not known)

    def __init__(self, timeout_ms=4000, deadline=None, max_paths=20000):
        self.timeout_ms = timeout_ms
        self.deadline = deadline
        self.max_paths = max_paths
        self.trail = []
        self.pos = 0
        self.facts = []
        self.dec = set()
        self.guards = []
        self.n_asserted = 0
        self.solver = None
        self.counter = 0
        self.globals_axioms = {}
        self.scopes = []
        self.paths = 0
        self.registry = {}
        self.overlay = {}
        self.obligations = []       # (name, status, info)
        self.model_inputs = []

    # -- names
    def fresh(self, base='v'):
        self.counter += 1
        return f'{base}!{self.counter}'

    def fresh_int(self, base='v'):
        return z3.Int(self.fresh(base))

    def fresh_bool(self, base='b'):
        return z3.Bool(self.fresh(base))

    # -- facts
    def assume(self, c):
        if c is True:
            return
        if c is False or isinstance(c, z3.ExprRef) and z3.is_false(c):
            raise PathEnd()
        self.facts.append(c)

    def _decide(self, c):
        self.dec.add(len(self.facts))
        self.facts.append(c)

    def axiom_once(self, key, fn):
        """Ground facts instantiated at most once per path."""
        if key in self.registry:
            return
        self.registry[key] = True
        for c in fn():
            self.assume(c)

    def _sync(self):
        if self.solver is None:
            self.solver = z3.Solver()
            self.solver.set('timeout', self.timeout_ms)
            self.solver.set('smt.mbqi', False)   # E-matching only: an answer comes quickly
            self.n_asserted = 0
            self.solver.light = z3.Solver()      # the facts without quantifiers
            self.solver.light.set('timeout', 1000)
            self.solver.quantified = False
        while self.n_asserted < len(self.facts):
            f = self.facts[self.n_asserted]
            self.solver.add(f)
            if quantified(f):
                self.solver.quantified = True
            else:
                self.solver.light.add(f)
            self.n_asserted += 1

    def _light_check(self, c):
        """A quick answer from the facts without quantifiers: unsat, or don't know."""
        STATS['queries'] += 1
        t0 = time.time()
        self.solver.light.push()
        try:
            self.solver.light.add(c)
            r = self.solver.light.check()
            self.light_model = self.solver.light.model() if r == z3.sat else None
        except z3.Z3Exception:
            r = z3.unknown
        finally:
            self.solver.light.pop()
            STATS['time'] += time.time() - t0
        return r

    def _check(self, c, timeout=None):
        """z3 result for facts + c."""
        if self.deadline and time.time() > self.deadline:
            raise Budget('time budget exhausted')
        self._sync()
        if self.solver.quantified:
            if self._light_check(c) == z3.unsat:
                STATS['unsat'] += 1
                return z3.unsat
            timeout = timeout or (250 if self.hurry else 1000)
        t0 = time.time()
        STATS['queries'] += 1
        self.solver.push()
        try:
            if timeout:
                self.solver.set('timeout', timeout)
            self.solver.add(c)
            r = self.solver.check()
            self.last_model = self.solver.model() if r == z3.sat else None
        except z3.Z3Exception:
            r = z3.unknown
        finally:
            self.solver.pop()
            if timeout:
                self.solver.set('timeout', self.timeout_ms)
            STATS['time'] += time.time() - t0
        STATS[str(r)] += 1
        return r

    # -- recorded queries
    def _record(self, kind, compute):
        if self.pos < len(self.trail):
            e = self.trail[self.pos]
            assert e[0] == kind, (e, kind)
            self.pos += 1
            return e[1]
        v = compute()
        self.trail.append([kind, v, None])
        self.pos += 1
        return v

    def entails(self, c):
        """True iff provable from the path condition."""
        if isinstance(c, bool):
            return c
        c = z3.simplify(c)
        if z3.is_true(c):
            return True
        if z3.is_false(c):
            return self._record('e', lambda: self._check(TRUE) == z3.unsat) if False else False
        return self._record('e', lambda: self._check(z3.Not(c)) == z3.unsat)

    def try_prove(self, c, timeout=None):
        """Like entails but with more effort (portfolio)."""
        if isinstance(c, bool):
            return c
        c = z3.simplify(c)
        if z3.is_true(c):
            return True

        def go():
            r = self._check(z3.Not(c), timeout or (250 if self.hurry else 4 * self.timeout_ms))
            if r == z3.unsat:
                return True
            if self.hurry:
                return False
            self.fail_model = self.last_model if r == z3.sat else None
            if r == z3.sat:
                return False
            return self.portfolio(z3.Not(c))
        return self._record('e', go)

    def infeasible(self):
        return self._record('e', lambda: self._check(TRUE) == z3.unsat)

    def portfolio(self, c):
        """A fresh solver, then cvc5, on facts + c.  True iff unsat."""
        s = z3.SolverFor('ALL') if False else z3.Solver()
        s.set('timeout', 3 * self.timeout_ms)
        for f in self.facts:
            s.add(f)
        s.add(c)
        t0 = time.time()
        STATS['queries'] += 1
        r = s.check()
        STATS['time'] += time.time() - t0
        STATS[str(r)] += 1
        if r == z3.unsat:
            return True
        if r == z3.sat:
            self.fail_model = s.model()
            return False
        import subprocess
        import tempfile
        import os
        txt = s.to_smt2()
        fd, p = tempfile.mkstemp(suffix='.smt2')
        os.write(fd, ('(set-logic ALL)\n' + txt).encode())
        os.close(fd)
        t0 = time.time()
        STATS['cvc5'] += 1
        try:
            out = subprocess.run(['cvc5', '--tlimit=%d' % (5 * self.timeout_ms), '--nl-ext-tplanes', p],
                                 capture_output=True, text=True,
                                 timeout=self.timeout_ms * 6 / 1000 + 5).stdout
        except Exception:
            out = ''
        finally:
            os.unlink(p)
            STATS['time'] += time.time() - t0
        if out.strip().startswith('unsat'):
            STATS['cvc5_proved'] += 1
            return True
        return False

    def branch(self, c):
        """Truth of c on this path; forks when undetermined."""
        if isinstance(c, bool):
            return c
        c = z3.simplify(c)
        if z3.is_true(c):
            return True
        if z3.is_false(c):
            return False
        if self.pos < len(self.trail):
            e = self.trail[self.pos]
            assert e[0] == 'b', (e, 'b', c)
            self.pos += 1
            v = e[1]
            self._decide(c if v else z3.Not(c))
            return v
        hurry, self.hurry = self.hurry, True
        try:
            return self._branch(c)
        finally:
            self.hurry = hurry

    def _branch(self, c):
        rt = self._check(c)
        if rt == z3.unsat:
            # the path itself may be infeasible; then either answer is fine
            self.trail.append(['b', False, None])
            self.pos += 1
            self._decide(z3.Not(c))
            return False
        rf = self._check(z3.Not(c))
        if rf == z3.unsat:
            self.trail.append(['b', True, None])
            self.pos += 1
            self._decide(c)
            return True
        self.trail.append(['b', True, 'open'])
        self.pos += 1
        self._decide(c)
        return True

    def choose(self, n):
        """Nondeterministic choice 0..n-1 (all explored)."""
        if n == 1:
            return 0
        if self.pos < len(self.trail):
            e = self.trail[self.pos]
            assert e[0] == 'c', e
            self.pos += 1
            return e[1]
        self.trail.append(['c', 0, n])
        self.pos += 1
        return 0

    def concretize(self, t, limit=600):
        """Fork over all values of int term t (finite range required)."""
        if isinstance(t, int):
            return t
        s = z3.simplify(t)
        if z3.is_int_value(s):
            return s.as_long()
        if self.pos < len(self.trail):
            e = self.trail[self.pos]
            assert e[0] == 'v', (e, t)
            self.pos += 1
            v = e[1]
            self._decide(t == v)
            return v
        if DEBUG:
            import traceback
            print('CONC', t, ''.join(traceback.format_stack(limit=6)[:-1]))
        seen = []
        v = self._next_value(t, seen)
        if v is None:
            raise PathEnd()
        self.trail.append(['v', v, (t, [v], limit, len(self.facts))])
        self.pos += 1
        self._decide(t == v)
        return v

    def _next_value(self, t, seen):
        c = z3.And(*[t != x for x in seen]) if seen else TRUE
        r = self._check(c)
        if r == z3.unsat:
            return None
        if r == z3.unknown and self.solver.quantified and self._light_check(c) == z3.sat:
            # a value allowed by the other facts: exploring it is harmless
            self.last_model = self.light_model
            r = z3.sat
        if r == z3.unknown or self.last_model is None:
            raise Unsupported(f'cannot enumerate values of {t}')
        v = self.last_model.eval(t, model_completion=True)
        if not z3.is_int_value(v):
            raise Unsupported(f'cannot enumerate values of {t}')
        return v.as_long()

    def const_of(self, t):
        """The only value t can have on this path, or None."""
        if isinstance(t, int):
            return t
        t = z3.simplify(t)
        if z3.is_int_value(t):
            return t.as_long()

        def go():
            if self._check(TRUE) == z3.unsat:
                return None
            if self.last_model is None and self._light_check(TRUE) == z3.sat:
                self.last_model = self.light_model
            if self.last_model is None:
                return None
            v = self.last_model.eval(t, model_completion=True)
            if not z3.is_int_value(v):
                return None
            return v.as_long() if self._check(t != v) == z3.unsat else None
        return self._record('k', go)

    # -- exploration
    def _reset(self):
        self.pos = 0
        self.facts = []
        self.dec = set()
        self.guards = []
        self.solver = None
        self.n_asserted = 0
        self.registry = {}
        self.overlay = {}

    def _advance(self, base):
        """Backtrack to the next open decision above trail index base.  False if none."""
        while len(self.trail) > base:
            e = self.trail[-1]
            if e[0] == 'b' and e[2] == 'open':
                e[1] = False
                e[2] = None
                return True
            if e[0] == 'c' and e[1] + 1 < e[2]:
                e[1] += 1
                return True
            if e[0] == 'v' and e[2] is not None:
                t, seen, limit, nf = e[2]
                # facts before this decision are the first nf facts of the finished run
                s = z3.Solver()
                s.set('timeout', 4 * self.timeout_ms)
                for f in self.facts[:nf]:
                    s.add(f)
                s.add(z3.And(*[t != x for x in seen]))
                STATS['queries'] += 1
                r = s.check()
                STATS[str(r)] += 1
                if r == z3.unknown:
                    # a value allowed by the facts without quantifiers: exploring it is harmless
                    s = z3.Solver()
                    s.set('timeout', 4 * self.timeout_ms)
                    s.add([f for f in self.facts[:nf] if not quantified(f)])
                    s.add(z3.And(*[t != x for x in seen]))
                    r = s.check()
                if r == z3.unsat:
                    self.trail.pop()
                    continue
                if r == z3.unknown:
                    raise Unsupported(f'cannot enumerate values of {t}')
                v = s.model().eval(t, model_completion=True).as_long()
                seen.append(v)
                if len(seen) > limit:
                    raise Unsupported(f'more than {limit} values of {t}')
                e[1] = v
                return True
            self.trail.pop()
        return False

    def explore(self, fn):
        """Run fn on every path; yields results of complete paths."""
        self.trail = []
        results = []
        while True:
            self._reset()
            self.counter = 0
            self.paths += 1
            if self.paths > self.max_paths:
                raise Budget('path budget exhausted')
            try:
                results.append(fn())
            except PathEnd:
                pass
            except Budget:
                raise
            except Exception:
                if not self.infeasible():
                    raise
            if not self._advance(0):
                return results

    def sub_explore(self, fn):
        """Explore fn from the current point on all sub-paths, leaving the current path's facts
        unchanged.  Returns a list of Sub(dec, ass, r).  Recorded in the trail."""
        if self.pos < len(self.trail):
            e = self.trail[self.pos]
            assert e[0] == 's', e
            self.pos += 1
            self.counter = e[2]
            if isinstance(e[1], Exception):
                raise e[1]
            return e[1]
        saved = (self.trail, self.pos, self.facts, self.n_asserted, self.solver, self.registry,
                 self.overlay, self.dec)
        c0 = self.counter
        base_facts = list(self.facts)
        base_dec = set(self.dec)
        nb = len(base_facts)
        guards = list(self.guards)
        self.trail, out, maxc = [], [], c0
        failed = None
        try:
            while True:
                self.pos = 0
                self.facts = list(base_facts)
                self.dec = set(base_dec)
                self.guards = list(guards)
                self.solver = None
                self.n_asserted = 0
                self.registry = dict(saved[5])
                self.overlay = dict(saved[6])
                self.counter = c0
                self.paths += 1
                if self.paths > self.max_paths:
                    raise Budget('path budget exhausted')
                try:
                    r = fn()
                    out.append(SubPath([f for i, f in enumerate(self.facts) if i >= nb and i in self.dec],
                                       [f for i, f in enumerate(self.facts) if i >= nb and i not in self.dec],
                                       r))
                except PathEnd:
                    pass
                except Budget:
                    raise
                except Exception:
                    if not self.infeasible():
                        raise
                maxc = max(maxc, self.counter)
                if not self._advance(0):
                    break
        except Budget:
            raise
        except Exception as ex:
            failed = ex
        finally:
            (self.trail, self.pos, self.facts, self.n_asserted, self.solver, self.registry,
             self.overlay, self.dec) = saved
            self.guards = guards
            self.counter = maxc
        self.trail.append(['s', out if failed is None else failed, maxc])
        self.pos += 1
        if failed is not None:
            raise failed
        return out


class SubPath:
    __slots__ = ('dec', 'ass', 'r')

    def __init__(self, dec, ass, r):
        self.dec, self.ass, self.r = dec, ass, r


ST = None


def st():
    return ST


def set_state(s):
    global ST
    ST = s
