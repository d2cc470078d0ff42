"""Linear-inequality abstract domain (convex polyhedra over the integers, rational relaxation).

A linear form is a tuple (const, ((symbol, coef), ...)) with the terms sorted by symbol.
A Dom holds lower bounds, equalities (as an idempotent substitution), inequalities and
disequalities.  All queries are answered by interval evaluation first and by a small exact
simplex on the constraint set otherwise.  Nothing here calls an external prover.
"""
import ctypes
import os
from array import array
from fractions import Fraction
from math import gcd

_core = None
_query = None


def load_core(path):
    """use the compiled emptiness test (tool/polycore.cpp)"""
    global _core, _query
    l = ctypes.CDLL(path)
    l.poly_feasible.argtypes = [ctypes.c_int, ctypes.c_int, ctypes.c_void_p]
    l.poly_feasible.restype = ctypes.c_int
    _core = l.poly_feasible
    try:
        q = ctypes.PyDLL(path).poly_query
        q.argtypes = [ctypes.py_object] * 4
        q.restype = ctypes.c_int
        _query = q
    except AttributeError:
        pass


for _p in (os.environ.get("POLYCORE"), os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "build", "libpolycore.so")):
    if _p and os.path.exists(_p):
        load_core(_p)
        break

ZERO = (0, ())


def const(n):
    return (n, ())


def sym(s, k=1):
    return (0, ((s, k),))


def add(a, b, k=1):
    """a + k*b"""
    if not b[1]:
        return (a[0] + k * b[0], a[1]) if b[0] else a
    if not a[1] and k == 1:
        return (a[0] + b[0], b[1])
    d = dict(a[1])
    for s, c in b[1]:
        n = d.get(s, 0) + k * c
        if n:
            d[s] = n
        else:
            d.pop(s, None)
    return (a[0] + k * b[0], tuple(sorted(d.items())))


def sub(a, b):
    return add(a, b, -1)


def scale(a, k):
    if k == 1:
        return a
    if k == 0:
        return ZERO
    return (a[0] * k, tuple((s, c * k) for s, c in a[1]))


def neg(a):
    return scale(a, -1)


def is_const(a):
    return not a[1]


def tighten(a):
    """the integer form of a >= 0: divide by the common factor of the coefficients, round the constant down"""
    g = 0
    for _, c in a[1]:
        if c == 1 or c == -1:
            return a
        g = gcd(g, c)
        if g == 1:
            return a
    if g < 2:
        return a
    return (a[0] // g, tuple((s, c // g) for s, c in a[1]))


def show(a, names=None):
    if not a[1]:
        return str(a[0])
    out = ""
    for s, c in a[1]:
        nm = names.get(s, s) if names else s
        if c == 1:
            out += "+" + str(nm)
        elif c == -1:
            out += "-" + str(nm)
        else:
            out += "%+d*%s" % (c, nm)
    if a[0]:
        out += "%+d" % a[0]
    return out[1:] if out.startswith("+") else out


_feas_cache = {}


def _simplex_feasible(rows, lbs):
    """rows: list of linear forms that must be >= 0; lbs: {sym: lower bound} (absent = free).
    True when a rational solution exists."""
    key = (frozenset(rows), frozenset(lbs.items()))
    r = _feas_cache.get(key)
    if r is not None:
        return r
    r = _simplex(rows, lbs)
    if len(_feas_cache) > 400000:
        _feas_cache.clear()
    _feas_cache[key] = r
    return r


def _simplex(rows, lbs):
    # variables: shifted x' = x - lb >= 0 ; free x = xp - xn
    idx = {}

    def var(n):
        return idx.setdefault(n, len(idx))

    cons = []
    for c, ts in rows:
        co = {}
        k = c
        for s, a in ts:
            if s in lbs:
                k += a * lbs[s]
                j = var((s, 0))
                co[j] = co.get(j, 0) + a
            else:
                j = var((s, 0))
                co[j] = co.get(j, 0) + a
                j = var((s, 1))
                co[j] = co.get(j, 0) - a
        # sum co*x + k >= 0
        if not co:
            if k < 0:
                return False
            continue
        if k >= 0 and all(a >= 0 for a in co.values()):
            continue
        cons.append((co, k))
    if not cons:
        return True
    # feasible at x' = 0?
    if all(k >= 0 for _, k in cons):
        return True
    # dictionary form: slack_i = k_i + sum co*x ; all vars >= 0.
    # phase 1 with auxiliary x0: slack_i = k_i + sum co*x + x0, minimise x0
    n = len(idx)
    m = len(cons)
    if _core is not None:
        try:
            w = n + 1
            flat = array("q", bytes(8 * m * w))
            for i, (co, k) in enumerate(cons):
                o = i * w
                for j, a in co.items():
                    flat[o + j] = a
                flat[o + n] = k
            r = _core(m, n, flat.buffer_info()[0])
            if r >= 0:
                return bool(r)
        except OverflowError:
            pass
    # rows as dict: basic var -> (const, {nonbasic: coef})
    X0 = n + m
    D = {}
    for i, (co, k) in enumerate(cons):
        r = {j: Fraction(a) for j, a in co.items() if a}
        r[X0] = Fraction(1)
        D[n + i] = [Fraction(k), r]
    obj = [Fraction(0), {X0: Fraction(-1)}]  # maximise -x0

    def pivot(b, e):
        k, r = D.pop(b)
        a = r.pop(e)
        # b = k + a*e + rest  => e = (b - k - rest)/a
        nk = -k / a
        nr = {j: -c / a for j, c in r.items()}
        nr[b] = 1 / a
        for row in list(D.values()) + [obj]:
            c = row[1].pop(e, None)
            if c:
                row[0] += c * nk
                rr = row[1]
                for j, v in nr.items():
                    w = rr.get(j, 0) + c * v
                    if w:
                        rr[j] = w
                    else:
                        rr.pop(j, None)
        D[e] = [nk, nr]

    # first pivot: most negative const
    b = min(D, key=lambda x: (D[x][0], x))
    pivot(b, X0)
    for _ in range(2000):
        ent = [j for j, c in obj[1].items() if c > 0]
        if not ent:
            break
        e = min(ent)
        best = None
        for b, (k, r) in D.items():
            c = r.get(e)
            if c is not None and c < 0:
                t = k / -c
                if best is None or t < best[0] or (t == best[0] and b < best[1]):
                    best = (t, b)
        if best is None:
            break
        pivot(best[1], e)
        if X0 not in D:
            return True
    return obj[0] >= 0


class Dom:
    __slots__ = ("lb", "ineq", "sub", "neq", "bad", "quiet")

    def __init__(self):
        self.lb = {}
        self.ineq = ()
        self.sub = {}
        self.neq = frozenset()
        self.bad = False
        self.quiet = False      # projecting a feasible system: no emptiness tests needed

    def copy(self):
        d = Dom.__new__(Dom)
        d.lb = dict(self.lb)
        d.ineq = self.ineq
        d.sub = dict(self.sub)
        d.neq = self.neq
        d.bad = self.bad
        d.quiet = False
        return d

    # ---- normal form --------------------------------------------------------
    def norm(self, a):
        sb = self.sub
        for s, _ in a[1]:
            if s in sb:
                break
        else:
            return a
        out = (a[0], ())
        for s, c in a[1]:
            t = sb.get(s)
            out = add(out, t if t is not None else (0, ((s, 1),)), c)
        return out

    def _min(self, a):
        m = a[0]
        for s, c in a[1]:
            if c < 0:
                return None
            l = self.lb.get(s)
            if l is None:
                return None
            m += c * l
        return m

    def _relevant(self, a):
        """constraints connected to the symbols of a"""
        syms = {s for s, _ in a[1]}
        rest = list(self.ineq)
        out = []
        ch = True
        while ch and rest:
            ch = False
            nr = []
            for r in rest:
                if any(s in syms for s, _ in r[1]):
                    out.append(r)
                    for s, _ in r[1]:
                        if s not in syms:
                            syms.add(s)
                    ch = True
                else:
                    nr.append(r)
            rest = nr
        lbs = {s: self.lb[s] for s in syms if s in self.lb}
        return out, lbs

    def ge0(self, a):
        """is a >= 0 entailed?"""
        a = self.norm(a)
        if not a[1]:
            return a[0] >= 0
        m = self._min(a)
        if m is not None and m >= 0:
            return True
        n = self._min(neg(a))
        if n is not None and n >= 1:
            return False
        a = tighten(a)
        if not self.ineq:
            if m is None:
                pass
            if not self.ineq:
                # only bounds are known: entailed iff the minimum is >= 0
                return False
        n = tighten(add(const(-1), a, -1))
        if _query is not None:
            r = _query(tuple(self.ineq), [n], self.lb, a)
            if r >= 0:
                return not r
        rows, lbs = self._relevant(a)
        rows.append(n)
        return not _simplex_feasible(rows, lbs)

    def gt0(self, a):
        return self.ge0(add(a, const(-1)))

    def le0(self, a):
        return self.ge0(neg(a))

    def eq0(self, a):
        a = self.norm(a)
        if not a[1]:
            return a[0] == 0
        return self.ge0(a) and self.ge0(neg(a))

    def ne0(self, a):
        a = self.norm(a)
        if not a[1]:
            return a[0] != 0
        if a in self.neq or neg(a) in self.neq:
            return True
        return self.gt0(a) or self.gt0(neg(a))

    # ---- assertion ------------------------------------------------------------
    def set_lb(self, s, l):
        o = self.lb.get(s)
        if o is None or o < l:
            self.lb[s] = l

    def _check(self, a):
        if self.quiet:
            return
        if _query is not None:
            r = _query(tuple(self.ineq), [], self.lb, a)
            if r >= 0:
                if not r:
                    self.bad = True
                return
        rows, lbs = self._relevant(a)
        if rows and not _simplex_feasible(rows, lbs):
            self.bad = True

    def add_ge0(self, a):
        """assume a >= 0; False when that is contradictory"""
        if self.bad:
            return False
        a = self.norm(a)
        if not a[1]:
            if a[0] < 0:
                self.bad = True
            return not self.bad
        m = self._min(a)
        if m is not None and m >= 0:
            return True
        a = tighten(a)
        if len(a[1]) == 1 and a[1][0][1] == 1:
            s = a[1][0][0]
            self.set_lb(s, -a[0])
        else:
            if a in self.ineq:
                return True
            self.ineq = self.ineq + (a,)
        self._check(a)
        if self.bad:
            return False
        # an implied equality a == 0 is worth a substitution
        if not self.quiet and self.ge0(neg(a)):
            return self.add_eq0(a)
        return True

    def add_eq0(self, a):
        if self.bad:
            return False
        a = self.norm(a)
        if not a[1]:
            if a[0] != 0:
                self.bad = True
            return not self.bad
        # all-nonnegative sum equal to zero: every symbol is at its lower bound
        for b in (a, neg(a)):
            m = self._min(b)
            if m is not None:
                if m > 0:
                    self.bad = True
                    return False
                if m == 0 and len(b[1]) > 1:
                    for s, l in [(s, self.lb[s]) for s, c in b[1]]:
                        if not self.add_eq0((-l, ((s, 1),))):
                            return False
                    return True
        cand = [s for s, c in a[1] if c in (1, -1)]
        if not cand:
            if len(a[1]) == 1:
                s, c = a[1][0]
                if a[0] % c:
                    self.bad = True
                    return False
                return self._subst(s, const(-a[0] // c))
            t = tighten(a)
            if t is not a:
                g = a[1][0][1] // t[1][0][1]
                if a[0] % g:
                    self.bad = True
                    return False
                return self.add_eq0((a[0] // g, t[1]))
            self.ineq = self.ineq + (a, neg(a))
            self._check(a)
            return not self.bad
        # eliminate the youngest symbol (largest serial number)
        s = max(cand, key=_serial)
        c = dict(a[1])[s]
        rest = add(a, sym(s), -c)
        return self._subst(s, scale(rest, -c))

    def _subst(self, s, e):
        one = {s: e}

        def ap(a):
            for t, c in a[1]:
                if t == s:
                    return add(add(a, sym(s), -c), e, c)
            return a
        for k in list(self.sub):
            self.sub[k] = ap(self.sub[k])
        self.sub[s] = e
        old = self.ineq
        l = self.lb.pop(s, None)
        ne = []
        todo = []
        for r in old:
            q = ap(r)
            if q is r:
                ne.append(r)
            else:
                todo.append(q)
        self.ineq = tuple(ne)
        if l is not None:
            todo.append(add(e, const(-l)))
        nn = set()
        for r in self.neq:
            q = ap(r)
            if not q[1]:
                if q[0] == 0:
                    self.bad = True
                    return False
                continue
            nn.add(q)
        self.neq = frozenset(nn)
        for q in todo:
            if not self.add_ge0(q):
                return False
        if e[1]:
            self._check(e)
        return not self.bad

    def add_ne0(self, a):
        if self.bad:
            return False
        a = self.norm(a)
        if not a[1]:
            if a[0] == 0:
                self.bad = True
            return not self.bad
        if self.ge0(a):
            return self.add_ge0(add(a, const(-1)))
        if self.ge0(neg(a)):
            return self.add_ge0(add(neg(a), const(-1)))
        self.neq = self.neq | {a}
        return True


    def forget(self, s):
        """project the symbol s away (rational projection: an over-approximation)"""
        if s in self.sub:
            del self.sub[s]
            return
        piv = None
        for x, e in self.sub.items():
            for t, c in e[1]:
                if t == s:
                    if c in (1, -1):
                        if piv is None or _serial(x) > _serial(piv[0]):
                            piv = (x, e, c)
                    break
        if piv is not None:
            x, e, c = piv
            del self.sub[x]
            # x = c*s + rest  =>  s = c*(x - rest)
            rest = add(e, sym(s), -c)
            self._subst(s, scale(sub(sym(x), rest), c))
            self.sub.pop(s, None)
            return
        for x in [x for x, e in self.sub.items() if any(t == s for t, _ in e[1])]:
            del self.sub[x]
        self.neq = frozenset(a for a in self.neq if all(t != s for t, _ in a[1]))
        pos, negs, rest = [], [], []
        for r in self.ineq:
            c = dict(r[1]).get(s)
            if c is None:
                rest.append(r)
            else:
                (pos if c > 0 else negs).append((r, abs(c)))
        l = self.lb.pop(s, None)
        if l is not None:
            pos.append(((-l, ((s, 1),)), 1))
        self.ineq = tuple(rest)
        for r, c in pos:
            for q, d in negs:
                self.add_ge0(add(scale(r, d), q, c))

    def constraints(self):
        """everything that is known, as ('ge'|'eq'|'ne', linear form)"""
        out = [("ge", (-l, ((s, 1),))) for s, l in self.lb.items() if s not in self.sub]
        out += [("ge", r) for r in self.ineq]
        out += [("eq", sub(sym(s), e)) for s, e in self.sub.items()]
        out += [("ne", r) for r in self.neq]
        return out

    def holds(self, c):
        k, a = c
        return self.ge0(a) if k == "ge" else self.eq0(a) if k == "eq" else self.ne0(a)

    def assume(self, c):
        k, a = c
        return self.add_ge0(a) if k == "ge" else self.add_eq0(a) if k == "eq" else self.add_ne0(a)


def _serial(s):
    if s.startswith("*("):
        return -2       # products stay, so that their factors remain visible
    i = s.rfind("#")
    return int(s[i + 1:]) if i >= 0 and s[i + 1:].isdigit() else -1
