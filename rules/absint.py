"""Abstract interpreter over the control-flow graphs produced by tool/irx.

The abstract state is a relational one: integers are linear forms constrained by a polyhedron
(lin.Dom), pointers are (region, offset) pairs, memory is a map from regions to cells.  States
are partitioned by the branch decisions that are not already settled by the state; loops are
closed by the model's generalisation step (segment folding + affine acceleration) or reported
as not covered.  No code of the library is executed and no constraint is given to an external
solver.
"""
import os
import time
import lin
from lin import const, add, sub

PNULL = lin.ZERO


DEBUG = bool(os.environ.get("VERIF_DEBUG"))


class Fork(Exception):
    """raised by a transfer function that needs a case split; alts = [callable(state) -> bool]"""

    def __init__(self, alts):
        self.alts = alts


class Stop(Exception):
    """end of this abstract path; kind = 'dead' (infeasible), 'unknown' (not covered), 'throw', 'bug'"""

    def __init__(self, kind, why=""):
        self.kind = kind
        self.why = why


class State:
    __slots__ = ("env", "mem", "dom", "m", "loops", "errs", "trail", "facts", "peq")

    def copy(self):
        s = State.__new__(State)
        s.env = dict(self.env)
        s.mem = dict(self.mem)
        s.dom = self.dom.copy()
        s.m = self.m.copy() if self.m is not None else None
        s.loops = list(self.loops)
        s.errs = list(self.errs)
        s.trail = list(self.trail)
        s.facts = self.facts
        s.peq = self.peq
        return s


def new_state(model_state=None):
    s = State.__new__(State)
    s.env = {}
    s.mem = {}
    s.dom = lin.Dom()
    s.m = model_state
    s.loops = []
    s.errs = []
    s.trail = []
    s.facts = ()
    s.peq = {}
    return s


class Outcome:
    __slots__ = ("kind", "st", "ins", "val", "why")

    def __init__(self, kind, st, ins, val=None, why=""):
        self.kind, self.st, self.ins, self.val, self.why = kind, st, ins, val, why


def is_ptr(v):
    return v.__class__ is tuple and v[0] == "P"


def is_lin(v):
    return v.__class__ is tuple and v[0].__class__ is int


_serial = [0]


def fresh(name):
    _serial[0] += 1
    return "%s#%d" % (name, _serial[0])


NEG = {"eq": "ne", "ne": "eq", "ult": "uge", "uge": "ult", "ule": "ugt", "ugt": "ule",
       "slt": "sge", "sge": "slt", "sle": "sgt", "sgt": "sle"}


def dominators(f):
    """immediate-dominator sets as bit masks (functions are small enough)"""
    order = f.rpo()
    pos = {b: i for i, b in enumerate(order)}
    idom = {order[0]: order[0]}
    ch = True
    while ch:
        ch = False
        for b in order[1:]:
            new = None
            for p in f.blocks[b].preds:
                if p in idom:
                    if new is None:
                        new = p
                    else:
                        x, y = p, new
                        while x != y:
                            while pos[x] > pos[y]:
                                x = idom[x]
                            while pos[y] > pos[x]:
                                y = idom[y]
                        new = x
            if new is not None and idom.get(b) != new:
                idom[b] = new
                ch = True
    return order, pos, idom


def natural_loops(f):
    """{head: set of blocks}"""
    order, pos, idom = dominators(f)

    def dom(a, b):
        while True:
            if a == b:
                return True
            n = idom[b]
            if n == b:
                return False
            b = n
    loops = {}
    for b in order:
        for s in f.blocks[b].succ:
            if s in pos and dom(s, b):
                body = loops.setdefault(s, {s})
                st = [b]
                while st:
                    x = st.pop()
                    if x in body:
                        continue
                    body.add(x)
                    st.extend(p for p in f.blocks[x].preds if p in pos)
    return loops


def operands(i):
    op, a = i.op, i.a
    if op in ("call", "invoke"):
        out = list(a[2])
        if a[1].__class__ is list:
            out.append(a[1][0] if len(a[1]) == 1 else a[1])
        return out
    if op == "br":
        return [a[0]] if a[0] is not None else []
    if op == "switch":
        return [a[0]]
    if op == "gep":
        return [a[0]] + [x[0] for x in a[2]]
    if op == "load":
        return [a[1]]
    if op == "store":
        return [a[1], a[2]]
    if op == "alloca":
        return []
    if op == "ret":
        return [a[1]] if len(a) > 1 else []
    if op == "extractvalue":
        return [a[1]]
    if op == "insertvalue":
        return [a[0], a[1]]
    return [x for x in a if x.__class__ is int or (x.__class__ is list and x and x[0] in ("ce",))]


class Interp:
    def __init__(self, func, model, max_paths=200000, max_unroll=8, max_steps=30000000):
        self.f = func
        self.model = model
        model.I = self
        self.loops = natural_loops(func)
        self.max_paths = max_paths
        self.max_unroll = max_unroll
        self.max_steps = max_steps
        self.out = []
        self.steps = 0
        self.forks = 0
        self.covered = set()
        self.ufs = {}
        # phis and plain instructions of every block
        self.phis = {}
        for b in func.blocks:
            self.phis[b.id] = [i for i in b.ins if i.op == "phi"]
        self._ops = {n[4:]: getattr(self, n) for n in dir(self) if n.startswith("_op_")}

    # ---- values -----------------------------------------------------------
    def val(self, st, o):
        if o.__class__ is int:
            v = st.env.get(o)
            if v is None:
                i = self.f.defs.get(o)
                v = self.unknown(st, o, i.a[0] if i is not None and isinstance(i.a[0], str) else "i64")
                st.env[o] = v
            return self.norm(st, v)
        k = o[0]
        if k == "i":
            n = int(o[1])
            if o[2] == 1:
                n = 1 if n else 0
            return const(n)
        if k == "n":
            return PNULL
        if k == "u" or k == "z":
            return PNULL
        if k == "g":
            return ("P", ("g", o[1]), lin.ZERO)
        if k == "F":
            return ("P", ("F", o[1]), lin.ZERO)
        if k == "ce" and o[1] == "getelementptr":
            return self.val(st, o[2])
        if k == "f":
            return lin.sym("flt:" + o[1])
        return lin.sym("k:" + str(o[1:]))

    def norm(self, st, v):
        c = v.__class__
        if c is not tuple:
            return v
        if v[0].__class__ is int:
            return st.dom.norm(v) if v[1] else v
        if v[0] == "P":
            if v[2][1]:
                n = st.dom.norm(v[2])
                if n is not v[2]:
                    v = ("P", v[1], n)
            return self.model.norm_ptr(st, v)
        return v

    def unknown(self, st, vid, ty):
        if ty == "ptr":
            return ("P", ("sym", fresh("p")), lin.ZERO)
        return lin.sym(fresh("v"))

    def as_lin(self, st, v):
        if v.__class__ is tuple and v[0].__class__ is int:
            return v
        if v.__class__ is tuple and v[0] in ("B", "not"):
            return const(1 if self.truth(st, v) else 0)
        if v.__class__ is tuple and v[0] == "P":
            # the address of a region as an integer symbol
            s = "addr:" + repr(v[1])
            st.dom.set_lb(s, 1)
            return add(lin.sym(s), v[2])
        return lin.sym("op:" + repr(v)[:80])

    # ---- conditions -----------------------------------------------------------
    def truth(self, st, v):
        """decide a condition or raise Fork"""
        if is_lin(v):
            v = st.dom.norm(v)
            if not v[1]:
                return v[0] != 0
            return self.decide(st, "ne", v, lin.ZERO)
        if v[0] == "B":
            return self.decide(st, v[1], self.norm(st, v[2]), self.norm(st, v[3]))
        if v[0] == "not":
            return not self.truth(st, v[1])
        if v[0] == "P":
            return True
        raise Stop("unknown", "condition " + repr(v)[:80])

    def decide(self, st, pred, a, b):
        if is_ptr(a) or is_ptr(b):
            r = self.model.cmp_ptr(st, pred, a, b)
            if r is not None:
                return r
            a = self.as_lin(st, a)
            b = self.as_lin(st, b)
        if not is_lin(a):
            a = self.as_lin(st, a)
        if not is_lin(b):
            b = self.as_lin(st, b)
        d = st.dom
        if pred in ("eq", "ne"):
            x = d.norm(sub(a, b))
            if not x[1]:
                r = x[0] == 0
            elif d.ne0(x):
                r = False
            elif d.eq0(x):
                r = True
            else:
                r = self.model.cmp_int(st, a, b)
                if r is None:
                    w = pred == "eq"
                    raise Fork([lambda s: s.dom.add_eq0(x), lambda s: s.dom.add_ne0(x)])
            return r if pred == "eq" else not r
        p = pred[1:]
        # a < b  <=>  b - a - 1 >= 0
        if p == "lt":
            t = add(sub(b, a), const(-1))
        elif p == "le":
            t = sub(b, a)
        elif p == "gt":
            t = add(sub(a, b), const(-1))
        elif p == "ge":
            t = sub(a, b)
        else:
            raise Stop("unknown", "predicate " + pred)
        return self.decide_ge0(st, t)

    def decide_ge0(self, st, t):
        d = st.dom
        t = d.norm(t)
        if not t[1]:
            return t[0] >= 0
        if d.ge0(t):
            return True
        n = add(const(-1), t, -1)
        if d.ge0(n):
            return False
        raise Fork([lambda s: s.dom.add_ge0(t), lambda s: s.dom.add_ge0(n)])

    def decide_eq(self, st, a, b):
        return self.decide(st, "eq", a, b)

    # ---- memory ---------------------------------------------------------------
    def load(self, st, p, ty):
        p = self.norm(st, p)
        if not is_ptr(p):
            raise Stop("bug", "load through a null pointer" if is_lin(p) and not p[1] else "load through a non-pointer")
        return self.norm(st, self.model.load(st, p[1], p[2], ty))

    def raw_load(self, st, reg, off, ty):
        d = st.mem.get(reg)
        if d is not None:
            v = d.get(off)
            if v is not None:
                if v.__class__ is tuple and v[0] == "Z":
                    v = self.model.initial(st, v[1], v[2], ty)
                    self.raw_store(st, reg, off, v)
                return v
        v = self.model.initial(st, reg, off, ty)
        self.raw_store(st, reg, off, v)
        return v

    def raw_store(self, st, reg, off, v):
        d = st.mem.get(reg)
        d = dict(d) if d is not None else {}
        d[off] = v
        st.mem[reg] = d

    # ---- instructions ---------------------------------------------------------
    def _op_alloca(self, st, i):
        st.env[i.id] = ("P", ("a", i.id), lin.ZERO)

    def _op_gep(self, st, i):
        b = self.val(st, i.a[0])
        off = const(i.a[1])
        for v, k in i.a[2]:
            x = self.val(st, v)
            off = add(off, self.as_lin(st, x), k)
        if is_ptr(b):
            st.env[i.id] = ("P", b[1], st.dom.norm(add(b[2], off)))
        elif is_lin(b):
            # arithmetic on a null or integer-like pointer keeps the integer
            st.env[i.id] = add(b, off)
        else:
            st.env[i.id] = ("P", ("sym", fresh("p")), lin.ZERO)

    def _op_load(self, st, i):
        st.env[i.id] = self.load(st, self.val(st, i.a[1]), i.a[0])

    def _op_store(self, st, i):
        v = self.val(st, i.a[1])
        p = self.val(st, i.a[2])
        if not is_ptr(p):
            raise Stop("bug", "store through a null pointer")
        self.model.store(st, p[1], p[2], v, i.a[0])

    def _op_cmp(self, st, i):
        st.env[i.id] = ("B", i.a[0], self.val(st, i.a[1]), self.val(st, i.a[2]))

    def _op_select(self, st, i):
        c = self.truth(st, self.val(st, i.a[1]))
        st.env[i.id] = self.val(st, i.a[2] if c else i.a[3])

    def _bin(self, st, i):
        return self.as_lin(st, self.val(st, i.a[1])), self.as_lin(st, self.val(st, i.a[2]))

    def _op_add(self, st, i):
        a, b = self._bin(st, i)
        st.env[i.id] = st.dom.norm(add(a, b))

    def _op_sub(self, st, i):
        a, b = self.val(st, i.a[1]), self.val(st, i.a[2])
        if is_ptr(a) and is_ptr(b):
            if a[1] == b[1]:
                st.env[i.id] = st.dom.norm(sub(a[2], b[2]))
                return
        a, b = self.as_lin(st, a), self.as_lin(st, b)
        st.env[i.id] = st.dom.norm(sub(a, b))

    def _op_mul(self, st, i):
        a, b = self._bin(st, i)
        if not a[1]:
            st.env[i.id] = lin.scale(b, a[0])
        elif not b[1]:
            st.env[i.id] = lin.scale(a, b[0])
        else:
            if b < a:
                a, b = b, a
            st.env[i.id] = self.uf(st, "mul", a, b)

    def uf(self, st, op, *args):
        """uninterpreted function symbol (congruent by construction)"""
        k = (op,) + tuple(self.norm(st, x) for x in args)
        s = self.ufs.get(k)
        if s is None:
            s = self.ufs[k] = fresh(op)
        return lin.sym(s)

    def _div(self, st, i, signed):
        a, b = self._bin(st, i)
        if not b[1] and b[0] != 0:
            n = b[0]
            if a[0] % n == 0 and all(c % n == 0 for _, c in a[1]):
                st.env[i.id] = (a[0] // n, tuple((s, c // n) for s, c in a[1]))
                return
            q = self.uf(st, "div%d" % n, a)
            s = q[1][0][0]
            st.dom.set_lb(s, 0)
            st.dom.add_ge0(sub(a, lin.scale(q, n)))
            st.dom.add_ge0(sub(add(lin.scale(q, n), const(n - 1)), a))
            st.env[i.id] = q
            return
        st.env[i.id] = self.uf(st, "div", a, b)

    def _op_udiv(self, st, i):
        self._div(st, i, False)

    def _op_sdiv(self, st, i):
        self._div(st, i, True)

    def _op_lshr(self, st, i):
        a, b = self._bin(st, i)
        if not b[1]:
            i2 = lin.const(1 << b[0])
            q = self.uf(st, "div%d" % (1 << b[0]), a)
            st.dom.set_lb(q[1][0][0], 0)
            st.env[i.id] = q
            return
        st.env[i.id] = self.uf(st, "lshr", a, b)

    _op_ashr = _op_lshr

    def _op_shl(self, st, i):
        a, b = self._bin(st, i)
        if not b[1]:
            st.env[i.id] = lin.scale(a, 1 << b[0])
        else:
            st.env[i.id] = self.uf(st, "shl", a, b)

    def _op_urem(self, st, i):
        a, b = self._bin(st, i)
        q = self.uf(st, "rem", a, b)
        st.dom.set_lb(q[1][0][0], 0)
        st.env[i.id] = q

    _op_srem = _op_urem

    def _op_xor(self, st, i):
        a, b = self.val(st, i.a[1]), self.val(st, i.a[2])
        if i.a[0] == "i1":
            if is_lin(b) and not b[1]:
                st.env[i.id] = ("not", a) if b[0] else a
                return
            st.env[i.id] = const(1 if self.truth(st, a) != self.truth(st, b) else 0)
            return
        st.env[i.id] = self.uf(st, "xor", self.as_lin(st, a), self.as_lin(st, b))

    def _op_and(self, st, i):
        a, b = self.val(st, i.a[1]), self.val(st, i.a[2])
        if i.a[0] == "i1":
            st.env[i.id] = const(1 if (self.truth(st, a) and self.truth(st, b)) else 0)
            return
        a, b = self.as_lin(st, a), self.as_lin(st, b)
        if not a[1] and not b[1]:
            st.env[i.id] = const(a[0] & b[0])
            return
        st.env[i.id] = self.uf(st, "and", a, b)

    def _op_or(self, st, i):
        a, b = self.val(st, i.a[1]), self.val(st, i.a[2])
        if i.a[0] == "i1":
            st.env[i.id] = const(1 if (self.truth(st, a) or self.truth(st, b)) else 0)
            return
        a, b = self.as_lin(st, a), self.as_lin(st, b)
        if not a[1] and not b[1]:
            st.env[i.id] = const(a[0] | b[0])
            return
        st.env[i.id] = self.uf(st, "or", a, b)

    def _cast(self, st, i):
        v = self.val(st, i.a[1])
        if v.__class__ is tuple and v[0] in ("B", "not"):
            if i.op == "zext":
                v = const(1 if self.truth(st, v) else 0)
            elif i.op == "sext":
                v = const(-1 if self.truth(st, v) else 0)
        st.env[i.id] = v

    _op_zext = _op_sext = _op_trunc = _op_bitcast = _op_ptrtoint = _op_inttoptr = _op_freeze = _cast

    def _op_extractvalue(self, st, i):
        v = self.val(st, i.a[1])
        if v.__class__ is tuple and v[0] == "S" and len(i.a[2]) == 1:
            st.env[i.id] = v[1][i.a[2][0]]
            return
        st.env[i.id] = self.unknown(st, i.id, i.a[0])

    def _op_insertvalue(self, st, i):
        v = self.val(st, i.a[0])
        x = self.val(st, i.a[1])
        l = list(v[1]) if v.__class__ is tuple and v[0] == "S" else []
        k = i.a[2][0]
        while len(l) <= k:
            l.append(PNULL)
        l[k] = x
        st.env[i.id] = ("S", tuple(l))

    def _op_landingpad(self, st, i):
        st.env[i.id] = ("S", (("P", ("exc",), lin.ZERO), const(0)))

    def _other(self, st, i):
        st.env[i.id] = self.unknown(st, i.id, i.a[0] if i.a and isinstance(i.a[0], str) else "i64")

    # ---- driver ------------------------------------------------------------------
    def run(self, st, shard=None, deadline=None):
        work = [(st, 0, 0)]
        split_at = 12 * shard[1] if shard and shard[1] > 1 else 0
        self.exhausted = 0
        ticks = 0
        ops = self._ops
        npaths = 0
        while work:
            if split_at:
                # breadth first until there is enough to share, then keep every K-th state
                st, bi, k = work.pop(0)
                if len(work) >= split_at:
                    split_at = 0
                    work = (work + [(st, bi, k)])[shard[0]::shard[1]]
                    if shard[0]:
                        self.model.forget()
                        self.out = []
                        self.steps = 0
                        self.forks = 0
                    continue
            else:
                st, bi, k = work.pop()
            if deadline is not None:
                ticks += 1
                if ticks & 63 == 0 and time.time() > deadline:
                    self.exhausted = len(work) + 1
                    return self.out
            ins = None
            nxt = None
            try:
                if k.__class__ is tuple:
                    # the edge was not completed: a case split was needed on it
                    nxt = k[1]
                    bi = self.enter(st, bi, nxt, work)
                    k = 0
                    if bi is None:
                        continue
                while True:
                    blk = self.f.blocks[bi]
                    nxt = None
                    il = blk.ins
                    n = len(il)
                    while k < n:
                        ins = il[k]
                        op = ins.op
                        self.steps += 1
                        if op == "phi":
                            k += 1
                            continue
                        if op == "br":
                            if ins.a[0] is None:
                                nxt = ins.a[1]
                            else:
                                t = self.truth(st, self.val(st, ins.a[0]))
                                if len(st.trail) < 400:
                                    st.trail.append((ins, t))
                                nxt = ins.a[1] if t else ins.a[2]
                        elif op == "switch":
                            v = self.val(st, ins.a[0])
                            nxt = ins.a[1]
                            for cv, tgt in ins.a[2]:
                                if self.decide(st, "eq", v, self.val(st, cv)):
                                    nxt = tgt
                                    break
                        elif op == "ret":
                            v = self.val(st, ins.a[1]) if len(ins.a) > 1 else None
                            self.finish(Outcome("ret", st, ins, v))
                            break
                        elif op == "call" or op == "invoke":
                            self.call(st, ins)
                            if op == "invoke":
                                nxt = ins.a[4]
                        elif op == "unreachable":
                            self.finish(Outcome("unreachable", st, ins))
                            break
                        elif op == "resume":
                            self.finish(Outcome("throw", st, ins))
                            break
                        else:
                            h = ops.get(op)
                            if h is not None:
                                h(st, ins)
                            else:
                                self._other(st, ins)
                        k += 1
                        if nxt is not None:
                            break
                    if nxt is None:
                        break
                    bi = self.enter(st, bi, nxt, work)
                    k = 0
                    if bi is None:
                        break
                if self.steps > self.max_steps or len(self.out) > self.max_paths:
                    self.exhausted = len(work) + 1
                    return self.out
            except Fork as fk:
                self.split_state(st, fk, bi, k if nxt is None else ("edge", nxt), work)
            except Stop as e:
                if e.kind == "dead":
                    continue
                try:
                    self.finish(Outcome(e.kind, st, ins, why=e.why))
                except Fork as fk:
                    self.split_state(st, fk, bi, k, work)
                except Stop as e2:
                    if e2.kind != "dead":
                        self.finish(Outcome("unknown", st, ins, why="exit check: " + e2.why))
            except (LookupError, TypeError, ValueError, AttributeError, AssertionError, ArithmeticError) as e:
                # a construct the model was not written for: this path stays undecided, the others do not
                if DEBUG:
                    raise
                self.finish(Outcome("unknown", st, ins, why="construct not modelled (%s: %s)" % (type(e).__name__, str(e)[:60])))
        if split_at and shard[0]:
            # never had enough states to share: all of it belongs to shard 0
            self.model.forget()
            self.out = []
        return self.out

    def split_state(self, st, fk, bi, k, work):
        self.forks += 1
        new = []
        for fn in fk.alts:
            s2 = st.copy()
            if fn(s2) and not s2.dom.bad:
                new.append((s2, bi, k))
        work.extend(reversed(new))

    def finish(self, o):
        o.st.dom.bad or self.model.at_exit(self, o)

    def call(self, st, ins):
        args = [self.val(st, a) for a in ins.args]
        v = self.model.call(st, ins, ins.cname, args)
        if v is not None:
            st.env[ins.id] = v
        else:
            st.env.pop(ins.id, None)

    def enter(self, st, src, dst, work):
        """take the edge src -> dst: evaluate phis, handle loops"""
        new = {}
        for p in self.phis[dst]:
            for v, b in p.a[1]:
                if b == src:
                    new[p.id] = self.val(st, v)
                    break
        # leave loops that do not contain dst
        while st.loops and dst not in self.loops[st.loops[-1][0]]:
            self.model.loop_exit(st, st.loops[-1])
            st.loops.pop()
        if dst in self.loops:
            if st.loops and st.loops[-1][0] == dst:
                return self.backedge(st, dst, new, work)
            st.env.update(new)
            snap = st.copy()
            st.loops.append((dst, 0, snap, 0))
            return dst
        st.env.update(new)
        return dst

    def backedge(self, st, head, new, work):
        h, it, snap, flag = st.loops[-1]
        if flag == "final":
            return None  # covered by the generalised state
        r = self.model.generalise(st, snap, head, new, it)
        if r is not None:
            # list of (state, flag): already updated phis; continue at the head
            cont = []
            for s2, fl in r:
                if s2.dom.bad:
                    continue
                sn = s2.copy()
                sn.loops = s2.loops[:-1]
                s2.loops = s2.loops[:-1] + [(head, it + 1, sn, fl)]
                cont.append((s2, head, 0))
            work.extend(reversed(cont))
            return None
        st.env.update(new)
        if it >= self.max_unroll:
            raise Stop("unknown", "loop not summarised")
        sn = st.copy()
        sn.loops = st.loops[:-1]
        st.loops = st.loops[:-1] + [(head, it + 1, sn, flag)]
        return head


class Model:
    """default hooks"""

    def norm_ptr(self, st, v):
        return v

    def cmp_ptr(self, st, pred, a, b):
        return None

    def cmp_int(self, st, a, b):
        return None

    def load(self, st, reg, off, ty):
        if off[1]:
            return self.I.unknown(st, None, ty)
        return self.I.raw_load(st, reg, off[0], ty)

    def store(self, st, reg, off, v, ty):
        if off[1]:
            st.mem.pop(reg, None)
            return
        self.I.raw_store(st, reg, off[0], v)

    def initial(self, st, reg, off, ty):
        if ty == "ptr":
            return ("P", ("d", reg, off), lin.ZERO)
        return lin.sym("m:%r:%d" % (reg, off))

    def call(self, st, ins, name, args):
        ty = ins.a[0]
        if ty == "void":
            return None
        return self.I.unknown(st, ins.id, ty)

    def generalise(self, st, snap, head, new, it):
        return None

    def loop_exit(self, st, rec):
        pass

    def forget(self):
        """results so far belong to another shard"""

    def at_exit(self, interp, o):
        interp.out.append(o)
