"""Path-wise symbolic execution of the real code (re-execution forking), and
the obligation ledger."""
import time
from . import terms as T
from . import solver
from .samples import Samples
from .terms import R, B, TRUE, FALSE, Unsupported


class PathInfeasible(Exception):
    pass


class Handed(Exception):
    """all continuations of this path were handed to other workers"""


class Engine:
    def __init__(self, decide_ms=250, prove_ms=8000, use_cvc5=True):
        self.decide_ms0 = decide_ms
        self.decide_ms, self.prove_ms = decide_ms, prove_ms
        self.use_cvc5 = use_cvc5
        self.policy = None         # decides named scenario conditions
        self.focus = None          # predicate on a variable set
        self.obligations = []      # (name, status, backend, seconds, detail)
        self.paths = 0
        self.pruned = 0
        self.forks = 0
        self.divs = {}
        self.unproved_divs = set()
        self.notes = []
        self.max_paths = 4000
        self.lemmas = []
        self._dcache = {}
        self.distribute = False    # hand sibling cases to other workers
        self.distributed = []
        self.max_secs = 1e9
        self.reach = []
        self.notes = {}           # meta facts about the proof itself
        self.policy_used = set()
        self.deadline = None
        self.reset([])

    # ------------------------------------------------------------ state
    def reset(self, prefix):
        self.samples = Samples()
        self.hints = []
        self.facts = []
        self.fact_ids = set()
        self.asign = {}
        self.prefix = prefix
        self.trace = []
        self.label = []
        self.choices = {}
        self.forked = False
        self.fver = 0
        self.kept = []
        self.decide_ms = self.decide_ms0
        self.lazy = False          # no solver calls for signs of terms
        self._qual = {}

    def activate(self):
        T.set_hook(self)

    # ------------------------------------------------------------ facts
    def assume(self, b):
        if isinstance(b, bool):
            b = TRUE if b else FALSE
        if b.op == 'const':
            if not b.args[0]:
                raise PathInfeasible()
            return
        if b.op == 'and':
            for x in b.args:
                self.assume(x)
            return
        if b.n in self.fact_ids:
            return
        if (~b).n in self.fact_ids:
            raise PathInfeasible()
        self.facts.append(b)
        self.fact_ids.add(b.n)
        self.samples.add_fact(b)
        self.fver += 1
        # sign of single atoms
        if b.op in ('gt', 'ge') and len(b.args[0].p) == 1:
            (m, c), = b.args[0].p.items()
            if len(m) == 1 and m[0][1] % 2:
                aid = m[0][0]
                if b.op == 'gt':
                    self.asign[aid] = 1 if c > 0 else -1

    # ------------------------------------------------------------ hook API
    def atom_sign(self, a):
        return self.asign.get(a.id, 0)

    def sign_quick(self, r):
        """sign by syntactic reasoning and a quick solver call"""
        b = T.cmp0(r, 'ge')
        if self.lazy:
            d = self.lookup(b)
            return 1 if d is True else -1 if d is False else None
        d = self.decide(b)
        if d is True:
            return 1
        if d is False:
            return -1
        d = self.decide(T.cmp0(-r, 'ge'))
        if d is True:
            return -1
        return None

    def sign(self, r):
        if not r.p:
            return 0
        if bool(T.cmp0(r, 'gt')):
            return 1
        if bool(T.cmp0(R.make({m: -c for m, c in r.p.items()}), 'gt')):
            return -1
        return 0

    def sqrt_hint(self, r):
        """a registered ghost term s with s*s == r (checked)"""
        for s in self.hints:
            if s.vars() <= r.vars() or True:
                d = r - s * s
                if not d.p or (self.samples.zero(d) and T.provably_zero(d)):
                    return s
        return None

    def divisor(self, r):
        if r.is_const():
            return
        k = r.key()
        if k not in self.divs:
            self.divs[k] = r

    def lookup(self, b):
        if b.op == 'const':
            return b.args[0]
        if b.n in self.fact_ids:
            return True
        if (~b).n in self.fact_ids:
            return False
        if b.op == 'gt' and T.cmp0(b.args[0], 'ge').n in self.fact_ids \
                and False:
            return None
        if b.op == 'and':
            vs = [self.lookup(x) for x in b.args]
            if any(v is False for v in vs):
                return False
            if all(v is True for v in vs):
                return True
        if b.op == 'or':
            vs = [self.lookup(x) for x in b.args]
            if any(v is True for v in vs):
                return True
            if all(v is False for v in vs):
                return False
        if b.op in ('gt', 'ge', 'eq'):
            # weaker/stronger versions
            r = b.args[0]
            if b.op == 'ge' and T.cmp0(r, 'gt').n in self.fact_ids:
                return True
            if b.op == 'eq':
                n = R.make({m: -c for m, c in r.p.items()})
                if T.cmp0(r, 'gt').n in self.fact_ids or \
                        T.cmp0(n, 'gt').n in self.fact_ids:
                    return False
            if b.op == 'gt':
                n = R.make({m: -c for m, c in r.p.items()})
                if T.cmp0(n, 'gt').n in self.fact_ids or \
                        T.cmp0(r, 'eq').n in self.fact_ids or \
                        T.cmp0(n, 'ge').n in self.fact_ids:
                    return False
        return None

    def decide(self, b):
        d = self.lookup(b)
        if d is not None:
            return d
        if self.decide_ms <= 0:
            return None
        vs = b.vars()
        if self.focus is not None and not self.focus(vs):
            return None
        key = (self.fver, b.n)
        # facts only grow on a path; positive answers stay valid
        c = self._qual.get(b.n)
        if c is not None and (c[1] is not None or c[0] == self.fver):
            return c[1]
        fs = solver.relevant(self.facts, vs)
        ck = (frozenset(f.n for f in fs), b.n)
        if ck in self._dcache:
            res = self._dcache[ck]
        else:
            res = None
            v = self.samples.verdict(b)
            try:
                if v in ('true', None):
                    r1, _ = solver.check(fs + [~b], self.decide_ms)
                    if r1 == 'unsat':
                        res = True
                if res is None and v in ('false', None):
                    r2, _ = solver.check(fs + [b], self.decide_ms)
                    if r2 == 'unsat':
                        res = False
            except Unsupported:
                res = None
            self._dcache[ck] = res
        self._qual[b.n] = (self.fver, res)
        return res

    def fork(self, b):
        d = self.decide(b)
        if d is not None:
            return d
        pol = self.policy(b) if self.policy else None
        if pol is not None:
            self.policy_used.add('batch scenario: no surface is empty at '
                                 'every timestep of the batch')
            self.assume(b if pol else ~b)
            return pol
        i = len(self.trace)
        if i < len(self.prefix):
            v = self.prefix[i]
        else:
            v = True
            self.forks += 1
            self.forked = True
            self.pending.append([t for t in self.trace] + [False])
        self.trace.append(v)
        self.assume(b if v else ~b)
        return v

    def _nway(self, n):
        i = len(self.trace)
        new = i >= len(self.prefix)
        if not new:
            v = self.prefix[i]
        else:
            v = 0
            out = self.distribute and not self.forked
            early = out and time.time() - self.path_t0 < 1.
            for k in range(n - 1, -1 if early else 0, -1):
                (self.distributed if out
                 else self.pending).append(list(self.trace) + [k])
            if early:
                raise Handed()
        self.trace.append(v)
        return v, new

    def choose(self, name, options):
        """finite choice of a configuration: every option is explored"""
        v, _ = self._nway(len(options))
        self.label.append('%s=%r' % (name, options[v]))
        self.choices[name] = v
        return options[v]

    def choose_case(self, name, cases):
        """case analysis; the completeness of the cases is an obligation"""
        conds = [c for _, c in cases]
        new = len(self.trace) >= len(self.prefix)
        if new:
            self.prove('cases of %s are complete' % name, T.or_(*conds))
        v, _ = self._nway(len(cases))
        self.label.append('%s:%s' % (name, cases[v][0]))
        d = self.decide(conds[v])
        if d is False:
            raise PathInfeasible()
        self.assume(conds[v])
        return v

    # ------------------------------------------------------------ driver
    def run(self, fn, prefix=()):
        """run fn over all feasible paths"""
        self.pending = [list(prefix)]
        self.deadline = time.time() + self.max_secs
        while self.pending:
            prefix = self.pending.pop()
            if self.paths >= self.max_paths:
                raise Unsupported('too many paths')
            self.reset(prefix)
            self.activate()
            self.path_t0 = time.time()
            try:
                n0 = len(self.obligations)
                fn()
                self.paths += 1
                k = int(self.samples.mask.sum())
                self.reach.append((' '.join(self.label),
                                   'sample' if k else self.feasible(),
                                   len(self.obligations) - n0))
            except Handed:
                pass
            except PathInfeasible:
                self.pruned += 1
        return self.paths

    def feasible(self, timeout=2000):
        r, _ = solver.check(self.facts, timeout)
        return r

    # ------------------------------------------------------------ proving
    def record(self, name, status, backend, secs, detail=None):
        self.obligations.append(dict(name=name, case=' '.join(self.label),
                                     status=status, choices=dict(self.choices),
                                     trace=None if status == 'proved'
                                     else list(self.trace),
                                     backend=backend, secs=secs,
                                     detail=detail))

    def prove(self, name, goal, extra=(), timeout=None, quiet=False):
        """discharge facts |= goal"""
        t0 = time.time()
        if self.deadline and t0 > self.deadline:
            raise Unsupported('time budget of the contract exhausted')
        if isinstance(goal, bool):
            goal = TRUE if goal else FALSE
        extra = [e for e in extra if e.op != 'const' or not e.args[0]]
        st, be, model = self._prove(goal, extra, timeout or self.prove_ms)
        if st != 'proved' and self.feasible() == 'unsat':
            raise PathInfeasible()
        if st != 'proved' and model is None:
            model = self.samples.counterexample(goal, None)
        if not quiet:
            self.record(name, st, be, time.time() - t0,
                        dict(goal=repr(goal)[:400],
                             model=model,
                             facts=[repr(f)[:160] for f in self.facts[-12:]])
                        if st != 'proved' else None)
        return st == 'proved', model

    def by_cases(self, goal, extra, timeout, limit=64):
        """case analysis over the conditions of the if-then-else terms of the
        goal that the facts leave open; each case is proved on the terms
        rebuilt with that condition decided"""
        saved = (self.decide_ms, self.focus, self.divs, self.use_cvc5)
        self.decide_ms, self.focus = 1500, None
        self.divs = dict(self.divs)
        self._budget = limit
        t_end = time.time() + max(4 * timeout / 1000., 8.)
        try:
            return self._cases(goal, list(extra), timeout, t_end)
        except Unsupported:
            return False
        finally:
            self.decide_ms, self.focus, self.divs, self.use_cvc5 = saved

    def _cases(self, goal, extra, timeout, t_end):
        self._budget -= 1
        if self._budget < 0 or time.time() > t_end:
            return False
        rb = T.Rebuilder()
        g = rb.bool(goal)
        ex = [rb.bool(e) for e in extra]
        if g.op == 'const' and g.args[0] or self.lookup(g) is True:
            return True
        if g.op == 'eq' and T.provably_zero(g.args[0]):
            return True
        opened = [c for c in rb.open if self.decide(c) is None]
        if not opened:
            fs = solver.relevant(self.facts, g.vars() | frozenset().union(
                *[e.vars() for e in ex]) if ex else g.vars())
            fs = [rb.bool(f) for f in fs]
            for ms in (1000, timeout):
                r, _ = solver.check(fs + ex + [~g], ms)
                if r != 'unknown':
                    return r == 'unsat'
            return False
        c = opened[0]
        for b in (c, ~c):
            st = (list(self.facts), set(self.fact_ids), dict(self.asign),
                  dict(self._qual), self.fver, self.samples.mask)
            try:
                self.assume(b)
                good = self._cases(g, ex, timeout, t_end)
            except PathInfeasible:
                good = True
            finally:
                (self.facts, self.fact_ids, self.asign, self._qual, _,
                 self.samples.mask) = st
                self.fver += 1
            if not good:
                return False
        return True

    def _prove(self, goal, extra, timeout):
        if goal.op == 'const':
            if goal.args[0]:
                return 'proved', 'normal-form', None
        d = self.lookup(goal)
        if d is True:
            return 'proved', 'path-fact', None
        if goal.op == 'and':
            be = 'normal-form'
            for g in goal.args:
                st, b, m = self._prove(g, extra, timeout)
                if st != 'proved':
                    return st, b, m
                be = b
            return 'proved', be, None
        if goal.op == 'eq' and T.provably_zero(goal.args[0]):
            return 'proved', 'normal-form', None
        fs = solver.relevant(self.facts, goal.vars() | frozenset().union(
            *[e.vars() for e in extra]) if extra else goal.vars())
        lem = list(extra)
        if self.kept:
            # callee contracts already proved on this path, terms opaque
            r, _ = solver.check(self.kept + lem + [~goal], 1000, opaque=True)
            if r == 'unsat':
                return 'proved', 'z3', None
        has_ite = T.bool_has_ite(goal)
        res, model = solver.check(fs + lem + [~goal],
                                  min(400, timeout / 4) if has_ite
                                  else timeout / 4, True)
        if res == 'unsat':
            return 'proved', 'z3', None
        if res == 'unknown' and has_ite:
            if self.by_cases(goal, extra, timeout):
                return 'proved', 'cases+z3', None
        if res == 'unknown':
            # clear denominators of comparison goals, then nlsat
            for tac in ('qfnra-nlsat', None):
                try:
                    r2, m2 = solver.check(fs + lem + [~goal], timeout, True,
                                          tactic=tac)
                except Exception:
                    r2, m2 = 'unknown', None
                if r2 == 'unsat':
                    return 'proved', 'z3', None
                if r2 == 'sat':
                    res, model = r2, m2
                    break
        if res == 'unknown' and self.use_cvc5:
            r3 = solver.check_cvc5(fs + lem + [~goal], timeout)
            if r3 == 'unsat':
                return 'proved', 'cvc5', None
            if r3 == 'sat':
                return 'refuted', 'cvc5', None
        if res == 'sat':
            return 'refuted', 'z3', model
        return 'unknown', 'z3+cvc5', None
