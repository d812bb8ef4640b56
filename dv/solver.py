"""SMT back ends: translation of terms to z3 and (as SMT-LIB text) to cvc5."""
import os
import subprocess
import tempfile
import time
from fractions import Fraction

import z3

from . import terms as T
from .terms import R, B

_atom_expr = {}
_bvar_expr = {}
STATS = {'z3_calls': 0, 'z3_time': 0.0, 'cvc5_calls': 0, 'cvc5_time': 0.0}


def q(c):
    return z3.RealVal('%d/%d' % (c.numerator, c.denominator)) \
        if c.denominator != 1 else z3.RealVal(c.numerator)


class Translator:
    """translates terms; collects the axioms of the atoms it meets"""

    def __init__(self, opaque=False):
        self.opaque = opaque       # terms below an atom are not looked at
        self.axioms = []
        self.seen = set()
        self.rcache = {}
        self.bcache = {}

    def atom(self, aid):
        e = _atom_expr.get(aid)
        a = T._ATOMS[aid]
        if e is None:
            e = z3.Real('a%d' % aid)
            _atom_expr[aid] = e
        if aid in self.seen:
            return self._val(a, e)
        self.seen.add(aid)
        if self.opaque:
            return e
        ax = self.axioms
        if a.pos:
            ax.append(e > 0)
        elif a.nonneg:
            ax.append(e >= 0)
        elif a.nonzero:
            ax.append(e != 0)
        k = a.kind
        if k == 'sqrt':
            x = self.real(a.args[0])
            if a.arg_sos:
                ax.append(e * e == x)
            else:
                ax.append(z3.Implies(x >= 0, e * e == x))
        elif k == 'inv':
            x = self.real(a.args[0])
            ax.append(z3.Implies(x != 0, e * x == 1))
        elif k == 'abs':
            x = self.real(a.args[0])
            ax.append(e == z3.If(x >= 0, x, -x))
        elif k in ('cos', 'sin'):
            o = T.atom('sin' if k == 'cos' else 'cos', a.args, '')
            oe = self.atom(o.id)
            if k == 'cos' or o.id not in self.seen:
                pass
            ax.append(e * e + oe * oe == 1)
        elif k == 'ite':
            ax.append(e == z3.If(self.bool(a.args[0]), self.real(a.args[1]),
                                 self.real(a.args[2])))
        elif k == 'mod':
            m = self.real(a.args[1])
            if a.args[1].is_const() and a.args[1].const() > 0:
                ax.append(e >= 0)
                ax.append(e < m)
                n = z3.Int('k%d' % aid)
                ax.append(self.real(a.args[0]) == e + m * z3.ToReal(n))
        elif k == 'pi':
            ax.append(e > q(Fraction(314159, 100000)))
            ax.append(e < q(Fraction(314160, 100000)))
        elif k == 'fn':
            nm = a.args[0]
            pi = self.atom(T._PI.id)
            if nm == 'atan2':
                ax.append(e <= pi)
                ax.append(e > -pi)
                y = self.real(a.args[1])
                ax.append(z3.Implies(y > 0, z3.And(e > 0, e < pi)))
                ax.append(z3.Implies(y < 0, z3.And(e < 0, e > -pi)))
            elif nm == 'acos':
                c = self.real(a.args[1])
                ax.append(e <= pi)
                ax.append(e >= 0)
                ax.append(z3.Implies(z3.And(c >= -1, c <= 1), z3.And(
                    (c == 1) == (e == 0), (c == -1) == (e == pi),
                    (c > 0) == (2 * e < pi), (c < 0) == (2 * e > pi))))
            elif nm == 'atan':
                t = self.real(a.args[1])
                ax.append(z3.And(2 * e < pi, 2 * e > -pi,
                                 (t > 0) == (e > 0), (t < 0) == (e < 0)))
        return e

    def _val(self, a, e):
        return e

    def real(self, r):
        k = r.key()
        e = self.rcache.get(k)
        if e is not None:
            return e
        ts = []
        for m, c in r.p.items():
            fs = []
            neg = []
            for aid, ex in m:
                x = self.atom(aid)
                if ex > 0:
                    fs.extend([x] * ex)
                else:
                    neg.extend([x] * (-ex))
            if neg:
                # inverse of a single atom: fresh real tied by an axiom
                for x in neg:
                    nm = 'i_' + x.decl().name()
                    iv = z3.Real(nm)
                    if nm not in self.seen:
                        self.seen.add(nm)
                        self.axioms.append(z3.Implies(x != 0, iv * x == 1))
                    fs.append(iv)
            if c != 1 or not fs:
                fs.insert(0, q(c))
            t = fs[0]
            for f in fs[1:]:
                t = t * f
            ts.append(t)
        if not ts:
            e = z3.RealVal(0)
        elif len(ts) == 1:
            e = ts[0]
        else:
            e = z3.Sum(ts)
        self.rcache[k] = e
        return e

    def bool(self, b):
        e = self.bcache.get(b.n)
        if e is not None:
            return e
        op = b.op
        if op == 'const':
            e = z3.BoolVal(b.args[0])
        elif op == 'gt':
            e = self.real(b.args[0]) > 0
        elif op == 'ge':
            e = self.real(b.args[0]) >= 0
        elif op == 'eq':
            e = self.real(b.args[0]) == 0
        elif op == 'bvar':
            e = z3.Bool(b.args[0])
        elif op == 'not':
            e = z3.Not(self.bool(b.args[0]))
        elif op == 'and':
            e = z3.And([self.bool(x) for x in b.args])
        elif op == 'or':
            e = z3.Or([self.bool(x) for x in b.args])
        else:
            raise T.Unsupported(op)
        self.bcache[b.n] = e
        return e


def relevant(facts, goal_vars, rounds=3):
    """facts sharing variables with the goal (transitively)"""
    vs = set(goal_vars)
    chosen = [False] * len(facts)
    for _ in range(rounds):
        ch = False
        for i, f in enumerate(facts):
            if not chosen[i] and (not f.vars() or f.vars() & vs):
                chosen[i] = True
                if not f.vars() <= vs:
                    vs |= f.vars()
                    ch = True
        if not ch:
            break
    return [f for f, c in zip(facts, chosen) if c]


def check(formulas, timeout_ms=1000, want_model=False, tactic=None,
          opaque=False):
    """satisfiability of a conjunction of B terms ->
    ('sat'|'unsat'|'unknown', model or None)"""
    tr = Translator(opaque)
    es = [tr.bool(f) for f in formulas]
    s = z3.Solver() if tactic is None else z3.Tactic(tactic).solver()
    s.set('timeout', int(timeout_ms))
    for e in es:
        s.add(e)
    for a in tr.axioms:
        s.add(a)
    t0 = time.time()
    try:
        r = s.check()
    except z3.Z3Exception:
        r = z3.unknown
    STATS['z3_calls'] += 1
    STATS['z3_time'] += time.time() - t0
    res = 'sat' if r == z3.sat else 'unsat' if r == z3.unsat else 'unknown'
    model = None
    if res == 'sat' and want_model:
        model = extract_model(s.model(), tr)
    return res, model


def smt2(formulas):
    tr = Translator()
    es = [tr.bool(f) for f in formulas]
    s = z3.Solver()
    for e in es + tr.axioms:
        s.add(e)
    txt = s.to_smt2()
    return '(set-logic QF_UFNIRA)\n' + txt if 'Int' in txt \
        else '(set-logic QF_NRA)\n' + txt


_CVC5 = None


def check_cvc5(formulas, timeout_ms=3000):
    txt = smt2(formulas)
    t0 = time.time()
    with tempfile.NamedTemporaryFile('w', suffix='.smt2', delete=False) as f:
        f.write(txt)
        path = f.name
    try:
        p = subprocess.run(['cvc5', '--tlimit=%d' % timeout_ms, path],
                           capture_output=True, text=True,
                           timeout=timeout_ms / 1000 + 5)
        out = p.stdout.strip().split('\n')[0]
    except (subprocess.TimeoutExpired, OSError):
        out = 'unknown'
    finally:
        os.unlink(path)
    STATS['cvc5_calls'] += 1
    STATS['cvc5_time'] += time.time() - t0
    return out if out in ('sat', 'unsat') else 'unknown'


def extract_model(m, tr):
    """values of atoms as floats"""
    vals = {}
    for aid in tr.seen:
        if not isinstance(aid, int):
            continue
        e = _atom_expr[aid]
        v = m.eval(e, model_completion=True)
        try:
            if z3.is_algebraic_value(v):
                v = v.approx(20)
            vals[aid] = float(v.as_fraction())
        except Exception:
            pass
    return vals
