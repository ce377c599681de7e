"""Harness runtime: symbolic values and claims, deciding claims with the solver, running cases in
parallel, replaying counterexamples against the real build, evidence."""
import hashlib
import importlib
import json
import math
import os
import pickle
import random
import signal
import sys
import time
import traceback
import warnings
from fractions import Fraction

warnings.simplefilter('ignore')
import numpy as np

from . import sym, npshim, world, cyrt
from .sym import (z3, R, C, B, NUMS, CTX, STATS, Lower, Unsupported, PathLimit, toR, bnot, band, bor, eq as seq,
                  explore)

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get('VERIF_REPO', '/repo')


class Skip(Exception):
    """The harness decided that this path / variant is outside the stated assumptions."""


# ------------------------------------------------------------------------------------------
# values and claims
# ------------------------------------------------------------------------------------------
class SymV:
    """Values are solver variables."""
    symbolic = True

    def __init__(self):
        self.claims = []
        self.bounds = {}
        self.ints = set()

    def index(self, name, n):
        """a solver integer in 0..n-1"""
        v = R.var(name)
        self.bounds[name] = (0, n-1)
        self.ints.add(name)
        CTX.assume(bor(*[v == i for i in range(n)]))
        return v

    def pick(self, name, n):
        """an integer in 0..n-1 on which the exploration forks (for values that drive control flow)"""
        v = self.index(name, n)
        for i in range(n-1):
            if v == i:
                return i
        return n-1

    def sel(self, tab, k):
        """tab[k] for a solver integer k"""
        if not isinstance(k, R):
            return tab[int(k)]
        r = tab[len(tab)-1]
        for i in range(len(tab)-2, -1, -1):
            r = tab[i] if r is tab[i] else sym.ite(k == i, tab[i], r)
        return r

    def land(self, *xs):
        return band(*xs)

    def lor(self, *xs):
        return bor(*xs)

    def lnot(self, x):
        return bnot(x)

    def same(self, a, b):
        return seq(a, b)

    def real(self, name, lo=None, hi=None):
        v = R.var(name)
        self.bounds[name] = (lo, hi)
        CTX.bound(name, lo, hi)
        if lo is not None:
            CTX.assume(v >= lo)
        if hi is not None:
            CTX.assume(v <= hi)
        return v

    def cplx(self, name, lo=None, hi=None):
        return C(self.real(name + '.r', lo, hi), self.real(name + '.i', lo, hi))

    def assume(self, cond):
        CTX.assume(cond)

    def eq(self, name, a, b, tol=0, scale=None):
        self.claims.append(('eq', name, a, b, tol))

    def le(self, name, a, b, tol=0):
        self.claims.append(('le', name, a, b, tol))

    def lt(self, name, a, b):
        self.claims.append(('lt', name, a, b, 0))

    def holds(self, name, cond):
        self.claims.append(('b', name, cond, None, 0))

    def eqs(self, name, a, b, tol=0):
        a, b = _arr(a), _arr(b)
        if a.shape != b.shape:
            self.holds(name + '.shape', False)
            return
        for ix in np.ndindex(*a.shape):
            self.eq('%s[%s]' % (name, ','.join(map(str, ix))), a[ix], b[ix], tol)

    def raises(self, name, fn, exc=Exception):
        try:
            fn()
        except exc:
            self.holds(name, True)
        else:
            self.holds(name, False)

    def zero(self, x):
        return not isinstance(x, (R, C)) and x == 0

    def ite(self, c, a, b):
        return sym.ite(c, a, b)

    def conj(self, x):
        return x.conjugate()


def _arr(a):
    if hasattr(a, '__mv__'):
        a = a.a
    if isinstance(a, np.ndarray):
        return np.asarray(a).view(np.ndarray)
    return npshim._objarr(a).view(np.ndarray)


class ConcV:
    """Values are floats from an assignment (a solver model) completed deterministically."""
    symbolic = False
    RTOL = 1e-7
    ATOL = 1e-9     # rounding noise of O(1) data; counterexamples are judged above it

    def __init__(self, assignment=None, variant=0):
        self.assign = assignment or {}
        self.variant = variant
        self.claims = []
        self.violated = []
        self.pend = []
        self.values = {}

    def real(self, name, lo=None, hi=None):
        if name in self.assign:
            v = self.assign[name]
        else:
            h = hashlib.sha256(('%s|%d' % (name, self.variant)).encode()).digest()
            u = int.from_bytes(h[:6], 'big') / float(1 << 48)
            a = -1.0 if lo is None else float(lo)
            b = (a + 2.0 if lo is not None else 1.0) if hi is None else float(hi)
            if lo is None and hi is not None:
                a = b - 2.0
            v = a + (b - a) * (0.05 + 0.9 * u)
        self.values[name] = v
        return float(v)

    def index(self, name, n):
        if name in self.assign:
            v = int(round(self.assign[name]))
        else:
            v = int.from_bytes(hashlib.sha256(('%s|%d' % (name, self.variant)).encode()).digest()[:6], 'big') % n
        self.values[name] = v
        return v

    pick = index

    def sel(self, tab, k):
        return tab[int(k)]

    def land(self, *xs):
        return all(xs)

    def lor(self, *xs):
        return any(xs)

    def lnot(self, x):
        return not x

    def same(self, a, b):
        return bool(a == b)

    def cplx(self, name, lo=None, hi=None):
        return complex(self.real(name + '.r', lo, hi), self.real(name + '.i', lo, hi))

    def assume(self, cond):
        if not cond:
            raise Skip('assumption not met')

    def _rec(self, name, ok, info=''):
        self.claims.append(name)
        if not ok:
            self.violated.append((name, info))

    def eq(self, name, a, b, tol=0, scale=None):
        try:
            a, b = complex(a), complex(b)
        except TypeError:
            return self._rec(name, bool(a == b), '%r != %r' % (a, b))
        if a != a or b != b:
            return self._rec(name, False, 'nan: %r vs %r' % (a, b))
        if a == b:
            return self._rec(name, True)
        self.pend.append((name, a, b, tol, self.ATOL if scale is None else float(scale) * self.RTOL))

    def flush(self):
        """relative comparisons need the magnitude of what was computed"""
        for name, a, b, tol, floor in self.pend:
            s = max(abs(a), abs(b), self.scale(name))
            lim = max(self.RTOL * s, float(tol), floor)
            self._rec(name, abs(a - b) <= lim, '%r != %r' % (a, b))
        self.pend = []

    def scale(self, name):
        grp = name.split('[')[0]
        g = [max(abs(a), abs(b)) for n, a, b, _, _ in self.pend if n.split('[')[0] == grp]
        return max(g) if g else 0.0

    def le(self, name, a, b, tol=0):
        self._rec(name, float(a) <= float(b) + max(float(tol), 1e-9 * max(1e-3, abs(a), abs(b))), '%r > %r' % (a, b))

    def lt(self, name, a, b):
        self._rec(name, float(a) < float(b), '%r >= %r' % (a, b))

    def holds(self, name, cond):
        self._rec(name, bool(cond))

    def eqs(self, name, a, b, tol=0):
        a, b = np.asarray(a), np.asarray(b)
        if a.shape != b.shape:
            return self._rec(name + '.shape', False, '%r vs %r' % (a.shape, b.shape))
        for ix in np.ndindex(*a.shape):
            self.eq('%s[%s]' % (name, ','.join(map(str, ix))), a[ix], b[ix], tol)

    def raises(self, name, fn, exc=Exception):
        try:
            fn()
        except exc:
            self._rec(name, True)
        else:
            self._rec(name, False, 'no exception')

    def zero(self, x):
        return x == 0

    def ite(self, c, a, b):
        return a if c else b

    def conj(self, x):
        return np.conjugate(x)


# ------------------------------------------------------------------------------------------
# deciding
# ------------------------------------------------------------------------------------------
class Decider:
    def __init__(self, pc, assumes, contracts, bounds, timeout_ms, ints=()):
        self.ints = ints
        self.pc, self.assumes, self.bounds = pc, assumes, bounds
        self.low = Lower(contracts)
        self.timeout = timeout_ms
        self.cong = []
        self.base = [self.low.term(b) for b in list(assumes) + list(pc)]
        self.rng = random.Random(int(os.environ.get('VERIF_SEED', '1')))

    def check(self, fs, timeout=None, logic=None):
        s = z3.SolverFor(logic) if logic else z3.Solver()
        s.set('timeout', int(timeout or self.timeout))
        s.add(*fs)
        t = time.time()
        try:
            r = s.check()
        except z3.Z3Exception:
            r = z3.unknown
        STATS.solver_s += time.time() - t
        STATS.queries += 1
        if r == z3.sat:
            STATS.sat += 1
            return 'sat', s.model()
        if r == z3.unsat:
            STATS.unsat += 1
            return 'unsat', None
        STATS.unknown += 1
        return 'unknown', None

    def env(self):
        return self.base + list(self.low.defs)

    def components(self, claim):
        """claim -> list of (real a, real b) equalities, or a single negated condition"""
        kind, name, a, b, tol = claim
        if kind == 'eq':
            out = []
            if isinstance(a, (C, complex, np.complexfloating)) or isinstance(b, (C, complex, np.complexfloating)):
                out.append((a.real, b.real))
                out.append((a.imag, b.imag))
            else:
                out.append((a, b))
            return out
        return None

    def neg(self, claim):
        """the solver formula of the negated claim (python bool when no symbolic value is involved)"""
        kind, name, a, b, tol = claim
        if kind == 'eq':
            ds = []
            for x, y in self.components(claim):
                if _isbad(x) or _isbad(y):
                    return True
                x, y = toR(x), toR(y)
                if x.op == 'c' and y.op == 'c':
                    ds.append(bool(abs(x.value - y.value) > tol))
                elif tol:
                    ds.append(self.low.term(bor(x - y > tol, x - y < -tol)) if not isinstance(
                        bor(x - y > tol, x - y < -tol), bool) else bor(x - y > tol, x - y < -tol))
                else:
                    ds.append(z3.Not(self.low.term(x) == self.low.term(y)))
            if any(d is True for d in ds):
                return True
            ds = [d for d in ds if d is not False]
            return z3.Or(*ds) if ds else False
        if kind == 'le':
            c = toR(a) > toR(b) + toR(tol)
        elif kind == 'lt':
            c = toR(a) >= toR(b)
        else:
            c = a
            if isinstance(c, (R, C)):
                c = c != 0
            c = bnot(c)
        return bool(c) if isinstance(c, (bool, np.bool_)) else self.low.term(c)

    def decide(self, claims):
        """-> list of (name, verdict, model or None)"""
        res = []
        todo = []
        for cl in claims:
            try:
                n = self.neg(cl)
            except Unsupported as e:
                res.append((cl[1], 'unknown', 'unsupported: %s' % e))
                continue
            # python bool: both sides are constants of this path
            z = z3.BoolVal(n) if isinstance(n, bool) else n
            todo.append((cl, n, z))
        if not todo:
            return res
        const = [t for t in todo if isinstance(t[1], bool)]
        if const:
            r, _ = self.check([z3.Or(*[t[2] for t in const])])
            if r == 'unsat':
                res += [(t[0][1], 'unsat', None) for t in const]
                todo = [t for t in todo if not isinstance(t[1], bool)]
        pend = []
        for cl, n, z in todo:
            v = self.normal(cl)
            if v:
                res.append((cl[1], 'unsat', None))
            else:
                pend.append((cl, n, z))
        if len(pend) > 3 and not any(z3.is_true(t[2]) for t in pend):
            r, _ = self.check(self.env() + [z3.Or(*[t[2] for t in pend])], min(self.timeout, 20000))
            if r == 'unsat':
                return res + [(t[0][1], 'unsat', None) for t in pend]
        nsat = 0
        for cl, n, z in pend:
            if nsat >= 12:              # enough counterexamples on this path
                res.append((cl[1], 'skipped', None))
                continue
            r, m = self.one(cl, z)
            nsat += r == 'sat'
            res.append((cl[1], r, m))
        return res

    def normal(self, cl):
        """difference in the solver's sum-of-monomials normal form; for tolerance claims a linear query
        over bounded monomials"""
        comps = self.components(cl)
        if comps is None:
            return False
        tol = cl[4]
        for x, y in comps:
            if _isbad(x) or _isbad(y):
                return False
            x, y = toR(x), toR(y)
            d = x - y
            if d.op == 'c' and abs(d.value) <= tol:
                continue
            t0 = time.time()
            try:
                g = z3.Goal()
                g.add(self.low.term(x) - self.low.term(y) != 0)
                s = z3.TryFor(z3.With('simplify', som=True, som_blowup=100000), 20000)(g)
                STATS.queries += 1
                STATS.solver_s += time.time() - t0
                ok = s[0].inconsistent() or (len(s[0]) == 1 and z3.is_false(s[0][0]))
            except z3.Z3Exception:
                ok = False
            if ok:
                STATS.unsat += 1
                continue
            if tol and self.linear(d, tol):
                continue
            return False
        return True

    def linear(self, d, tol):
        """|d| <= tol for every value within the variable bounds: monomials become bounded reals."""
        p = sym.poly(d)
        if len(p) > 20000:
            return False
        fs, terms = [], []
        byid = _byid(d)
        for i, (m, c) in enumerate(sorted(p.items(), key=lambda kv: repr(kv[0]))):
            bd = Fraction(1)
            for aid, e in m:
                lim = self.limit(byid.get(aid))
                if lim is None:
                    return False
                bd *= lim ** e
            v = z3.Real('mono!%d' % i)
            fs += [v <= z3.Q(bd.numerator, bd.denominator), v >= -z3.Q(bd.numerator, bd.denominator)]
            terms.append(z3.Q(c.numerator, c.denominator) * v)
        s = z3.Sum(terms) if terms else z3.RealVal(0)
        tq = Fraction(tol)
        tq = z3.Q(tq.numerator, tq.denominator)
        r, _ = self.check(fs + [z3.Or(s > tq, s < -tq)], 30000)
        return r == 'unsat'

    def limit(self, n):
        if n is None:
            return None
        if n.op == 'v':
            lo, hi = self.bounds.get(n.args[0], (None, None))
            if lo is None or hi is None:
                return None
            return max(abs(Fraction(lo)), abs(Fraction(hi)))
        if n.op == 'app':
            if n.args[0] == 'sqrt' and n.args[1].op == 'c':
                return Fraction(math.isqrt(int(n.args[1].value)) + 1)
            lo, hi = self.bounds.get('app:' + n.args[0], (None, None))
            if lo is None:
                return None
            return max(abs(Fraction(lo)), abs(Fraction(hi)))
        return None

    def pins(self):
        out = []
        for nm, v in self.low.atoms.items():
            if nm.startswith('app!') or nm in self.ints or not z3.is_real(v):
                continue
            lo, hi = self.bounds.get(nm, (None, None))
            a = Fraction(lo) if lo is not None else Fraction(-2)
            b = Fraction(hi) if hi is not None else a + 4
            if lo is None and hi is not None:
                a = b - 4
            k = self.rng.randint(1, 96)
            q = a + (b - a) * Fraction(k, 97)
            out.append(v == z3.Q(q.numerator, q.denominator))
        return out

    def one(self, cl, z):
        for _ in range(12):
            r, m = self.attempt(self.env() + self.cong + [z])
            if r != 'sat':
                return r, None
            new = self.incongruent(m)
            if not new:
                break
            self.cong += new            # the model does not interpret a function: exclude it and try again
        return r, self.model(m)

    def attempt(self, env):
        for _ in range(3):
            r, m = self.check(env + self.pins(), 4000)
            if r == 'sat':
                return r, m
        r, m = self.check(env)
        if r == 'unknown':
            r, m = self.check(env, logic='QF_NRA')
        return r, m

    def incongruent(self, m):
        """instances of functional congruence the model violates"""
        out = []
        for (name, n), apps in self.low.apps.items():
            if name in ('inv', 'sqrt') or len(apps) < 2:
                continue
            seen = {}
            for v, zargs in apps:
                key = tuple(str(m.eval(a, model_completion=True)) if z3.is_expr(a) else repr(a) for a in zargs)
                val = str(m.eval(v, model_completion=True))
                if key not in seen:
                    seen[key] = (v, zargs, val)
                elif seen[key][2] != val:
                    w, wargs, _ = seen[key]
                    eqs = [a == b for a, b in zip(zargs, wargs) if z3.is_expr(a) and z3.is_expr(b)]
                    out.append(z3.Implies(z3.And(*eqs), v == w))
        return out

    def model(self, m):
        out = {}
        for nm, v in self.low.atoms.items():
            x = m.eval(v, model_completion=True)
            try:
                if z3.is_algebraic_value(x):
                    x = x.approx(20)
                if z3.is_rational_value(x):
                    out[nm] = float(Fraction(x.numerator_as_long(), x.denominator_as_long()))
                elif z3.is_true(x) or z3.is_false(x):
                    out[nm] = bool(z3.is_true(x))
            except Exception:
                pass
        return out

    def witness(self):
        """Vacuity guard: the path condition and the assumptions must be satisfiable."""
        env = self.env()
        r, m = self.check(env, 5000)
        if r != 'unknown':
            return r, (self.model(m) if m is not None else None)
        for _ in range(4):
            r, m = self.check(env + self.pins(), 4000)
            if r == 'sat':
                return r, self.model(m)
        return 'unknown', None


def _isbad(x):
    if isinstance(x, (R,)):
        return False
    if isinstance(x, NUMS):
        x = float(x)
        return math.isnan(x) or math.isinf(x)
    return True


def _byid(d):
    out, stack = {}, [d]
    while stack:
        x = stack.pop()
        if x.id in out:
            continue
        out[x.id] = x
        if x.op in '+*':
            stack.extend(x.args)
    return out


# ------------------------------------------------------------------------------------------
# one case (in a child process)
# ------------------------------------------------------------------------------------------
class FnTrace:
    """Which functions of the tree under test were executed symbolically."""

    def __init__(self, root):
        self.root = root
        self.seen = set()
        self.m = sys.monitoring

    def __enter__(self):
        m = self.m
        try:
            m.use_tool_id(3, 'verif')
        except ValueError:
            return self
        m.register_callback(3, m.events.PY_START, self.cb)
        m.set_events(3, m.events.PY_START)
        return self

    def cb(self, code, off):
        f = code.co_filename
        if f.startswith(self.root):
            self.seen.add(f[len(self.root) + 1:].replace(' (translated)', '') + ':' + code.co_qualname)
        return self.m.DISABLE

    def __exit__(self, *a):
        self.m.set_events(3, 0)
        self.m.free_tool_id(3)


def load_prop(pid):
    return importlib.import_module('props.' + pid)


def run_case(pid, case, tier):
    """Symbolically execute the harness for one case and decide every claim."""
    P = load_prop(pid)
    t0 = time.time()
    out = {'case': case, 'status': 'ok', 'cands': [], 'incon': [], 'paths': 0, 'claims': 0, 'discharged': 0,
           'witness_sat': 0, 'witness_unsat': 0, 'witness_unknown': 0, 'functions': [], 'assumptions': [],
           'claim_samples': [], 'sample_model': None}
    W = None
    tr = FnTrace(REPO)
    try:
        with tr:
            stubs = P.stubs(case) if hasattr(P, 'stubs') else {}
            W = world.SymWorld(root=REPO, stubs=stubs)
            contracts = P.contracts(case) if hasattr(P, 'contracts') else {}
            CTX.contracts = contracts
            timeout = getattr(P, 'TIMEOUT_MS', 60000)
            maxp = getattr(P, 'MAX_PATHS', 400)

            def harness():
                V = SymV()
                if hasattr(P, 'BOUNDS_APP'):
                    V.bounds.update(P.BOUNDS_APP)
                cyrt.PR.races.clear()
                cyrt.PR.nt = case.get('nt')
                exc = None
                try:
                    P.run(W, V, case)
                except (Unsupported, PathLimit):
                    raise
                except Skip:
                    V.skip = True
                except Exception as e:
                    exc = (type(e).__name__, str(e)[:300], traceback.format_exc()[-2500:])
                races = list(cyrt.PR.races)
                return V, exc, races
            for pc, asm, (V, exc, races) in explore(harness, maxp):
                out['paths'] += 1
                D = Decider(pc, asm, contracts, V.bounds, timeout, V.ints)
                claims = V.claims
                res = []
                if not exc and not getattr(V, 'skip', False):
                    res = D.decide(claims)
                r, m = D.witness()
                out['witness_' + r] += 1
                if r == 'unsat':
                    continue                    # infeasible path (its branch query had been inconclusive)
                if m and out['sample_model'] is None:
                    out['sample_model'] = {k: v for k, v in list(m.items())[:12]}
                if exc:
                    out['cands'].append({'claim': 'no-exception', 'kind': exc[0], 'info': exc[1], 'tb': exc[2],
                                         'model': m or {}})
                    continue
                if getattr(V, 'skip', False):
                    continue
                if races and getattr(P, 'RACES', False):
                    out['cands'].append({'claim': 'race-free', 'kind': 'race', 'info': str(races[0])[:300],
                                         'model': m or {}})
                out['claims'] += len(claims)
                if len(out['claim_samples']) < 4:
                    out['claim_samples'] += [c[1] for c in claims[:4]]
                for name, verdict, mod in res:
                    if verdict == 'unsat':
                        out['discharged'] += 1
                    elif verdict == 'sat':
                        out['cands'].append({'claim': name, 'kind': 'sat', 'info': '', 'model': mod})
                    elif verdict == 'unknown':
                        out['incon'].append('%s: %s' % (name, mod or 'solver returned unknown'))
                if len(out['cands']) > 40:
                    break
    except (Unsupported, PathLimit) as e:
        out['incon'].append('%s: %s' % (type(e).__name__, e))
        out['tb'] = traceback.format_exc()[-2500:]
    except Exception as e:
        out['incon'].append('engine error %s: %s' % (type(e).__name__, e))
        out['tb'] = traceback.format_exc()[-2500:]
    out['functions'] = sorted(tr.seen)
    if W is not None:
        out['sources'] = sorted(W.mods)
    out['stats'] = dict(queries=STATS.queries, unsat=STATS.unsat, sat=STATS.sat, unknown=STATS.unknown,
                        solver_s=STATS.solver_s, branch=STATS.branch_queries)
    out['wall'] = time.time() - t0
    return out


# ------------------------------------------------------------------------------------------
# concrete run of the same harness (replay)
# ------------------------------------------------------------------------------------------
def run_concrete(P, W, case, assignment, variant):
    V = ConcV(assignment, variant)
    try:
        P.run(W, V, case)
    except Skip:
        return V, True
    except Exception as e:
        V._rec('no-exception', False, '%s: %s' % (type(e).__name__, str(e)[:300]))
        V.tb = traceback.format_exc()
    V.flush()
    return V, False


def clean_model(m):
    return {k: v for k, v in (m or {}).items() if not k.startswith('app!')}
