"""sorted_string_map: both lookups decided over a table of any length.

The table is a region of n entries in ascending order of their keys; n, the keys, the values and the string that is
looked for are arbitrary.  A path that returns an entry must have compared it equal, a path that returns "nothing"
must have excluded every index of the table.
"""
import re
import lin
from lin import const, add, sub
from absint import Interp, Fork, Stop, new_state, is_ptr, is_lin, PNULL
from quadrun import NodeModel, QM, feasible, local

Z, ONE = lin.ZERO, const(1)
S = lin.sym
ENT, OBJ = ("ent",), ("obj",)
N = S("n")
W = 24


class SSModel(NodeModel):
    def __init__(self, mod, func, order=None, pred=None):
        NodeModel.__init__(self, mod, func)
        self.order, self.pred = order, pred
        self.loops = {}

    # -- the table -----------------------------------------------------------------------
    def index(self, st, off):
        off = st.dom.norm(off)
        if any(c % W for s, c in off[1]):
            raise Stop("unknown", "address inside the table")
        fld = off[0] % W
        return ((off[0] - fld) // W, tuple((s, c // W) for s, c in off[1])), fld

    def inside(self, st, i):
        cons = st.dom.constraints()
        return not feasible(lin.Dom(), cons + [("ge", sub(const(-1), i))]) and not feasible(lin.Dom(), cons + [("ge", sub(i, N))])

    def load(self, st, reg, off, ty):
        if reg == ENT:
            i, fld = self.index(st, off)
            if not self.inside(st, i):
                raise Stop("bug", "an entry outside the table is read")
            if fld == 0:
                return S("kl:%r" % (i,))
            if fld == 8:
                return ("P", ("kp", i), Z)
            if fld == 16:
                return S("v:%r" % (i,))
            raise Stop("unknown", "part of an entry")
        if reg[0] in ("hend", "kp", "in"):
            raise Stop("bug" if reg[0] == "hend" else "unknown", "a position past the end of the index is read")
        if off[1]:
            raise Stop("unknown", "memory access at a variable offset")
        if reg == OBJ and off[0] not in st.mem.get(OBJ, {}):
            raise Stop("unknown", "a member that the constructor did not set is read")
        if reg[0] == "hn":
            if off[0] == 16:
                return reg[1]
            raise Stop("unknown", "node of the index")
        if reg == ("arg", 1) and off[0] == 0 and ty != "ptr":
            return S("target")
        return self.I.raw_load(st, reg, off[0], ty)

    def store(self, st, reg, off, v, ty):
        if off[1] or not (local(reg) or reg == OBJ and self.making):
            raise Stop("unknown", "write to something else than a local object")
        self.I.raw_store(st, reg, off[0], v)

    making = False

    # -- what is known about the keys ----------------------------------------------------
    def who(self, st, ln, p):
        ln = self.I.norm(st, ln)
        p = self.I.norm(st, p)
        if is_ptr(p) and p[1][0] == "kp" and ln == S("kl:%r" % (p[1][1],)) and p[2] == Z:
            return p[1][1]
        if is_ptr(p) and p[1] == ("in",) and p[2] == Z and ln == S("len"):
            return "in"
        if is_ptr(p) and p[1][0] in ("part", "kp", "in"):
            return ("part",)
        raise Stop("unknown", "comparison of a part of a string")

    def partly(self, st, ins):
        """some comparison that says nothing about whole strings"""
        k = ("part", ins.id)
        v = st.m.null.get(k)
        if v is None:
            def setter(v):
                def f(s):
                    s.m.null[k] = v
                    return True
                return f
            raise Fork([setter(v) for v in (-1, 0, 1)])
        return v

    def known(self, st, i):
        """the orders of key i against the string that are still possible"""
        a = {-1, 0, 1}
        for e in st.m.events:
            if e[0] == "ord" and st.dom.eq0(sub(e[1], i)):
                a &= {e[2]}
            elif e[0] in ("lb", "ub"):
                x, y, r = e[1:]
                if self.le(st, x, i) and self.lt(st, i, r):
                    a &= {-1} if e[0] == "lb" else {-1, 0}
                elif self.le(st, r, i) and self.lt(st, i, y):
                    a &= {0, 1} if e[0] == "lb" else {1}
        if 0 in a and len(a) > 1 and not feasible(lin.Dom(), st.dom.constraints() + [("eq", sub(S("kl:%r" % (i,)), S("len")))]):
            a.discard(0)         # strings of different length
        return a

    def le(self, st, a, b):
        return st.dom.ge0(sub(b, a)) or not feasible(lin.Dom(), st.dom.constraints() + [("ge", sub(sub(a, b), ONE))])

    def lt(self, st, a, b):
        return self.le(st, add(a, ONE), b)

    def order_of(self, st, a, b, ins=None):
        """-1, 0, 1: key a against key b"""
        if a[0] == "part" or b[0] == "part":
            return self.partly(st, ins)
        if a == b:
            return 0
        if a == "in":
            return -self.order_of(st, b, a)
        if b != "in":
            raise Stop("unknown", "comparison of two keys of the table")
        k = self.known(st, a)
        if not k:
            raise Stop("dead")
        if len(k) == 1:
            return next(iter(k))

        def setter(v):
            def f(s):
                s.m.events = s.m.events + (("ord", a, v),)
                return True
            return f
        raise Fork([setter(v) for v in sorted(k)])

    def string(self, st, p):
        if not is_ptr(p) or p[2][1] and p[1] != ENT:
            raise Stop("unknown", "string view")
        o = p[2]
        return self.load(st, p[1], o, "i64"), self.load(st, p[1], add(o, const(8)), "ptr")

    # -- calls ---------------------------------------------------------------------------
    def range(self, st, a, b):
        if not (is_ptr(a) and is_ptr(b) and a[1] == ENT and b[1] == ENT):
            raise Stop("unknown", "search in something else than the table")
        x, f = self.index(st, a[2])
        y, g = self.index(st, b[2])
        if f or g:
            raise Stop("unknown", "address inside the table")
        if not self.le(st, Z, x) or not self.le(st, y, N) or not self.le(st, x, y):
            raise Stop("bug", "the range that is searched is not inside the table")
        return x, y

    def call(self, st, ins, name, args):
        name = name or "?"
        last = name.split("::")[-1]
        ty = ins.a[0]
        if name.startswith("llvm.memcpy"):
            d, s, n = args[:3]
            if is_ptr(d) and local(d[1]) and is_ptr(s) and s[1] == ENT and n in (const(16), const(24)):
                for o in (0, 8, 16)[:n[0] // 8]:
                    self.I.raw_store(st, d[1], d[2][0] + o, self.load(st, ENT, add(s[2], const(o)), "ptr" if o == 8 else "i64"))
                return None
        if name in ("std::lower_bound", "std::upper_bound"):
            if self.order is not True:
                raise Stop("unknown", self.order or "the order used by the search is not known")
            x, y = self.range(st, args[0], args[1])
            if self.who(st, *self.string(st, args[2])) != "in":
                raise Stop("unknown", "search for a key of the table")
            r = "r:%d" % len(st.m.events)
            st.dom.set_lb(r, 0)
            st.dom.add_ge0(sub(S(r), x))
            st.dom.add_ge0(sub(y, S(r)))
            st.m.events = st.m.events + ((name[5] + "b", x, y, S(r)),)
            return ("P", ENT, lin.scale(S(r), W))
        if name == "std::find_if":
            if self.pred is not True:
                raise Stop("unknown", self.pred or "the condition of the search is not known")
            x, y = self.range(st, args[0], args[1])
            v = args[2]
            while is_ptr(v) and local(v[1]):
                v = st.mem.get(v[1], {}).get(v[2][0])
            if v != ("P", ("arg", 1), Z) and v != S("target"):
                raise Stop("unknown", "search for another value")
            r = "r:%d" % len(st.m.events)
            hit = st.m.null.get(r)
            if hit is None:
                def setter(b):
                    def f(s):
                        s.m.null[r] = b
                        return True
                    return f
                raise Fork([setter(True), setter(False)])
            if not hit:
                st.m.events = st.m.events + (("none", "val", x, y),)
                return ("P", ENT, lin.scale(y, W))
            st.dom.set_lb(r, 0)
            st.dom.add_ge0(sub(S(r), x))
            if not st.dom.add_ge0(add(sub(y, S(r)), const(-1))) or st.dom.bad:
                raise Stop("dead")
            st.dom.add_eq0(sub(S("v:%r" % (S(r),)), S("target")))
            st.m.events = st.m.events + (("none", "val", x, S(r)),)
            return ("P", ENT, lin.scale(S(r), W))
        m = re.match(r"std::operator(==|!=|<|>|<=|>=|<=>)$", name)
        if m and len(args) == 4:
            o = self.order_of(st, self.who(st, args[0], args[1]), self.who(st, args[2], args[3]), ins)
            return const(o) if m.group(1) == "<=>" else self.test(m.group(1), o)
        if m and len(args) in (1, 2) and is_lin(args[0]) and not args[0][1] and (len(args) == 1 or args[1] == Z):
            return self.test(m.group(1), args[0][0])
        if name.startswith("std::basic_string_view::"):
            if last == "basic_string_view" and len(args) in (1, 3) and is_ptr(args[0]):
                self.store(st, args[0][1], args[0][2], args[2] if len(args) == 3 else Z, "i64")
                self.store(st, args[0][1], add(args[0][2], const(8)), args[1] if len(args) == 3 else PNULL, "ptr")
                return None
            if last in ("size", "length", "data", "empty") and len(args) == 1:
                l, p = self.string(st, args[0])
                if last == "data":
                    return p
                return l if last != "empty" else (ONE if self.I.decide(st, "eq", l, Z) else Z)
            if last == "basic_string_view" and len(args) == 2 and is_ptr(args[1]) and args[1][1][0] in ("kp", "in"):
                # up to the first null character, wherever that is
                self.store(st, args[0][1], args[0][2], S("sub%d" % ins.id), "i64")
                self.store(st, args[0][1], add(args[0][2], const(8)), ("P", ("part", ins.id), Z), "ptr")
                return None
            if last == "substr":
                return ("S", (S("sub%d" % ins.id), ("P", ("part", ins.id), Z)))
            if last in ("starts_with", "ends_with") and ty == "i1":
                return ONE if self.partly(st, ins) else Z
            if last == "compare" and len(args) == 3:
                return const(self.order_of(st, self.who(st, *self.string(st, args[0])), self.who(st, args[1], args[2]), ins))
        if name.startswith("std::unordered_map::"):
            if last in ("unordered_map", "~unordered_map", "reserve"):
                return None
            if last in ("end", "cend"):
                return ("P", ("hend",), Z)
            if last == "insert_or_assign":
                v = self.through(st, args[1])
                p = args[2]
                if is_ptr(p):
                    p = self.load(st, p[1], p[2], "i64")
                if not is_ptr(v) or v[1] != ENT:
                    raise Stop("unknown", "insertion into the index")
                i, f = self.index(st, v[2])
                if f != 16:
                    raise Stop("unknown", "insertion into the index")
                if not self.inside(st, i):
                    raise Stop("bug", "an entry outside the table is read")
                st.m.events = st.m.events + (("ins", i, p),)
                return ("S", (("P", ("hn", p), Z), ONE))
            if last == "find":
                if self.through(st, args[1]) != ("P", ("arg", 1), Z):
                    raise Stop("unknown", "search for another value")
                if not any(e[0] == "none" and e[1] == "ins" for e in st.m.events) and not st.dom.eq0(N):
                    raise Stop("unknown", "content of the index")
                hit = st.m.null.get("h")
                if hit is None:
                    def setter(b):
                        def f(s):
                            s.m.null["h"] = b
                            return True
                        return f
                    raise Fork([setter(True), setter(False)])
                if not hit:
                    st.m.events = st.m.events + (("none", "val", Z, N),)
                    return ("P", ("hend",), Z)
                st.dom.set_lb("j", 0)
                if not st.dom.add_ge0(add(sub(N, S("j")), const(-1))) or st.dom.bad:
                    raise Stop("dead")
                st.dom.add_eq0(sub(S("v:%r" % (S("j"),)), S("target")))
                return ("P", ("hn", S("j")), Z)
        return NodeModel.call(self, st, ins, name, args)

    def through(self, st, p):
        """a reference wrapper: what it refers to"""
        if is_ptr(p) and local(p[1]):
            return st.mem.get(p[1], {}).get(p[2][0])
        return p

    def test(self, op, o):
        return ONE if {"==": o == 0, "!=": o != 0, "<": o < 0, ">": o > 0, "<=": o <= 0, ">=": o >= 0}[op] else Z

    # -- loops over the table ------------------------------------------------------------
    def generalise(self, st, snap, head, new, it):
        cells = []
        for i, v in new.items():
            o = snap.env.get(i)
            v = self.I.norm(st, v)
            if o is not None and self.I.norm(st, o) != v:
                cells.append((("e", i), o, v))
        for reg, c in st.mem.items():
            b = snap.mem.get(reg)
            if b is None or b is c:
                continue
            for o, v in c.items():
                if o in b and self.I.norm(st, b[o]) != self.I.norm(st, v):
                    cells.append(((reg, o), b[o], v))
        out = []
        pos = None
        for c, a, b in cells:
            if is_ptr(a) and is_ptr(b) and a[1] == b[1] == ENT:
                d = st.dom.norm(sub(b[2], a[2]))
                x, f = self.index(st, a[2])
                if d != const(W) or f:
                    raise Stop("unknown", "loop that does not go over the table entry by entry")
                pos = x
            elif is_lin(a) and is_lin(b):
                d = st.dom.norm(sub(b, a))
                if d != ONE:
                    raise Stop("unknown", "loop that does not go over the table entry by entry")
                pos = a if pos is None else pos
            elif c[0] != "e" and local(c[0]) and is_ptr(b):
                d = None             # a reference to the current entry, written anew in every round
            else:
                raise Stop("unknown", "loop that does not go over the table entry by entry")
            out.append((c, a, d))
        if pos is None or not self.le(st, Z, pos) or not self.lt(st, pos, N):
            raise Stop("unknown", "loop that does not go over the table entry by entry")
        new_ev = st.m.events[len(snap.m.events):]
        kinds = set()
        if not feasible(lin.Dom(), st.dom.constraints() + [("eq", sub(S("v:%r" % (pos,)), S("target")))]):
            kinds.add("val")
        if any(e[0] == "ord" and st.dom.eq0(sub(e[1], pos)) and e[2] for e in new_ev):
            kinds.add("key")
        ins = [e for e in new_ev if e[0] == "ins"]
        if any(st.dom.eq0(sub(e[1], pos)) and is_lin(e[2]) and st.dom.eq0(sub(e[2], pos)) for e in ins):
            if len(ins) == 1:
                kinds.add("ins")
        elif ins:
            raise Stop("bug", "an entry is indexed under the position of another one")
        g = st.m.null.get(("loop", head))
        if g is not None:
            if not g <= kinds:
                raise Stop("unknown", "rounds of a loop that differ")
            return []
        n = snap.copy()
        n.loops = list(st.loops)
        n.trail = list(st.trail)
        k = "k:%d" % head
        n.dom.set_lb(k, 1)
        n.dom.add_ge0(sub(sub(N, pos), S(k)))
        for i, v in new.items():
            n.env[i] = snap.env.get(i, v)
        for c, a, d in out:
            if d is None:
                continue
            v = ("P", ENT, add(a[2], lin.scale(S(k), W))) if is_ptr(a) else add(a, S(k))
            if c[0] == "e":
                n.env[c[1]] = v
            else:
                self.I.raw_store(n, c[0], c[1], v)
        n.m.null[("loop", head)] = frozenset(kinds)
        for x in sorted(kinds):
            n.m.events = n.m.events + (("none", x, pos, add(pos, S(k))),)
        return [(n, 1)]

    # -- what was excluded ---------------------------------------------------------------
    def covered(self, st, kind):
        """every entry of the table is known not to match"""
        iv = []
        for e in st.m.events:
            if e[0] == "none" and e[1] == kind:
                iv.append((e[2], e[3]))
            elif kind == "key" and e[0] == "ord":
                if e[2] < 0:
                    iv.append((Z, add(e[1], ONE)))
                elif e[2] > 0:
                    iv.append((e[1], N))
            elif kind == "key" and e[0] == "lb":
                iv.append((e[1], e[3]))
                if self.lt(st, e[1], e[3]):
                    iv.append((Z, e[3]))
                if self.lt(st, e[3], e[2]) and self.known(st, e[3]) == {1}:
                    iv.append((e[3], N))
            elif kind == "key" and e[0] == "ub":
                iv.append((e[3], e[2]))
                if self.lt(st, e[3], e[2]):
                    iv.append((e[3], N))
        lo, go = Z, True
        while go and not self.le(st, N, lo):
            go = False
            for e in iv:
                if self.le(st, e[0], lo) and self.le(st, lo, e[1]):
                    iv.remove(e)
                    lo, go = e[1], True
                    break
        return self.le(st, N, lo)


class CmpModel(NodeModel):
    """a function object handed to a search of the standard library, applied to an arbitrary entry"""

    def load(self, st, reg, off, ty):
        if off[1]:
            raise Stop("unknown", "memory access at a variable offset")
        if reg in (("arg", 1), ("arg", 2)) and off[0] == 0 and ty != "ptr":
            return S("len%d" % reg[1])
        if reg in (("arg", 1), ("arg", 2)) and off[0] == 8:
            return ("P", ("str", reg[1]), Z)
        if reg == ("arg", 1) and off[0] == 16:
            return S("val")
        return self.I.raw_load(st, reg, off[0], ty)

    who = None

    def string(self, st, l, p):
        if is_ptr(p) and p[1][0] == "str" and p[2] == Z and l == S("len%d" % p[1][1]):
            return p[1][1]
        raise Stop("unknown", "comparison of a part of a string")

    def call(self, st, ins, name, args):
        name = name or "?"
        m = re.match(r"std::operator(==|!=|<|>|<=|>=|<=>)$", name)
        if m and len(args) in (1, 2) and is_lin(args[0]) and not args[0][1]:
            return SSModel.test(self, m.group(1), args[0][0])
        a = None
        if name in ("std::basic_string_view::size", "std::basic_string_view::length") and is_ptr(args[0]):
            return self.load(st, args[0][1], args[0][2], "i64")
        if name == "std::basic_string_view::data" and is_ptr(args[0]):
            return self.load(st, args[0][1], add(args[0][2], const(8)), "ptr")
        if m and len(args) == 4:
            a, b = self.string(st, *args[:2]), self.string(st, *args[2:])
        elif name == "std::basic_string_view::compare" and len(args) == 3 and is_ptr(args[0]):
            r, o = args[0][1], args[0][2]
            a, b = self.string(st, self.load(st, r, o, "i64"), self.load(st, r, add(o, const(8)), "ptr")), self.string(st, *args[1:])
        if a is None:
            return NodeModel.call(self, st, ins, name, args)
        o = st.m.null.get("ord")
        if o is None:
            def setter(v):
                def f(s):
                    s.m.null["ord"] = v
                    return True
                return f
            raise Fork([setter(v) for v in (-1, 0, 1)])
        o = 0 if a == b else o if a == 1 else -o
        return const(o) if not m or m.group(1) == "<=>" else SSModel.test(self, m.group(1), o)


class SSMap:
    def __init__(self, mod, deadline=None):
        self.mod, self.deadline = mod, deadline
        self.res = []
        self.drv, self.cmp, self.prd = {}, [], []
        for j in mod.raw:
            s = mod.ftab[j["f"]][2]
            m = re.match(r"drv::(s_\w+)$", s)
            if m:
                self.drv[m.group(1)] = mod.func(j)
            elif "__ops::" in s:
                f = mod.func(j)
                sig = f.sig()
                if re.search(r"_Iter_comp_val::operator\(\)|_Val_comp_iter::operator\(\)", sig):
                    self.cmp.append(f)
                elif "_Iter_pred::operator()" in sig:
                    self.prd.append(f)

    def run(self, m, f, st):
        it = Interp(f, m, max_paths=5000, max_unroll=4, max_steps=1000000)
        it.run(st, None, self.deadline)
        if it.exhausted:
            m.unk[("time limit", f.where)] = it.exhausted
        m.nsteps = getattr(m, "nsteps", 0) + it.steps
        return m

    def result(self, label, f, m):
        r = {"label": label, "where": f.where, "viol": [("bug", x, w, p) for x, w, p in m.viol], "unknown": m.unk,
             "stats": {"ret": len(m.steps)}, "paths": m.paths, "steps": m.nsteps}
        self.res.append(r)
        return r

    def truth(self, m, st, v):
        try:
            return m.I.truth(st, v)
        except Fork:
            return None

    def function_objects(self, fs, label, kind):
        ok = None
        for f in fs:
            m = CmpModel(self.mod, f)
            st = new_state(QM())
            for i in range(f.nargs):
                st.env[i] = ("P", ("arg", i), Z)
            self.run(m, f, st)
            r = self.result(label, f, m)
            for k, s, v in m.steps:
                if k != "ret":
                    continue
                if kind == "order":
                    o = s.m.null.get("ord")
                    t = self.truth(m, s, v)
                    if o is None and f.nargs == 3:
                        r["viol"].append(("content", "the search does not use the ascending order of the keys", f.where, m.path(s)))
                    elif t is None:
                        m.unk[("the comparison is not understood", f.where)] = 1
                    elif o is not None and t != (o < 0):
                        r["viol"].append(("content", "the search does not use the ascending order of the keys", f.where, m.path(s)))
                else:
                    ts = {x for b in (s,) for x in self.targets(b)}
                    if len(ts) != 1:
                        m.unk[("the condition is not understood", f.where)] = 1
                        continue
                    d = sub(S("val"), S(next(iter(ts))))
                    for want in (True, False):
                        c = s.copy()
                        c.dom.assume(("eq" if want else "ne", d))
                        if c.dom.bad or not feasible(lin.Dom(), c.dom.constraints()):
                            continue
                        if self.truth(m, c, v) is not want:
                            r["viol"].append(("content", "the search by value does not look for an entry with that value", f.where, m.path(s)))
            good = not r["viol"] and not m.unk
            ok = good if ok is None else ok and good
        if len(fs) > 1:
            return "more than one function object"
        return ok

    def targets(self, st):
        out = set()
        for reg, c in st.mem.items():
            if reg == ("arg", 0) or reg[0] == "d":
                for v in c.values():
                    if is_lin(v) and len(v[1]) == 1 and v[0] == 0:
                        out.add(v[1][0][0])
        return out

    def make(self, name, label):
        f = self.drv[name]
        m = SSModel(self.mod, f)
        m.making = True
        st = new_state(QM())
        st.env[0] = ("P", OBJ, Z)
        st.env[1] = ("P", ENT, Z)
        st.env[2] = N
        st.env[3] = S("null")
        st.mem[OBJ] = {}
        st.dom.set_lb("n", 0)
        self.run(m, f, st)
        r = self.result(label, f, m)
        if name == "s_hmake":
            for k, s, v in m.steps:
                if k == "ret" and not m.covered(s, "ins") and not r["unknown"]:
                    r["viol"].append(("content", "entries are left out of the index of values", f.where, m.path(s)))
        return [s for k, s, v in m.steps if k == "ret"], bool(r["viol"] or r["unknown"])

    def look(self, name, label, starts, env, check, **kw):
        f = self.drv[name]
        m = SSModel(self.mod, f, **kw)
        for s0 in starts:
            st = new_state(QM())
            st.dom = s0.dom.copy()
            st.mem = {OBJ: s0.mem[OBJ]}
            st.m.events = tuple(e for e in s0.m.events if e[0] == "none" and e[1] == "ins")
            st.env[0] = ("P", OBJ, Z)
            for i, v in enumerate(env):
                st.env[1 + i] = v
            st.dom.set_lb("len", 0)
            self.run(m, f, st)
        if not starts:
            m.unk[("no constructed object", f.where)] = 1
            m.nsteps = 0
        r = self.result(label, f, m)
        for k, s, v in m.steps:
            msg = "an exception is thrown" if k != "ret" else check(m, s, v)
            if isinstance(msg, tuple):
                m.unk[(msg[0], f.where)] = 1
            elif msg:
                r["viol"].append(("content", msg, f.where, m.path(s)))

    def c_find(self, m, st, v):
        if not is_ptr(v):
            return ("result not understood",)
        if v[1] == ENT:
            i, f = m.index(st, v[2])
            if f != 16 or not m.inside(st, i):
                return "something else than the value of an entry is returned"
            if m.known(st, i) == {0}:
                return None
            if any(k[0] == "part" for k in st.m.null) and st.dom.eq0(sub(S("kl:%r" % (i,)), S("len"))):
                return ("comparison of parts of strings",)
            return "the value of an entry is returned whose key need not be the one looked for"
        if v[1] == OBJ and not v[2][1] and st.mem[OBJ].get(v[2][0]) == S("null"):
            if m.covered(st, "key"):
                return None
            if any(k[0] == "part" for k in st.m.null) and any(st.dom.eq0(sub(S("kl:%r" % (e[3],)), S("len"))) for e in st.m.events if e[0] == "lb"):
                return ("comparison of parts of strings",)
            return "a key that may be in the table is not found"
        return "something else than a value of the table or the null value is returned"

    def c_key(self, m, st, v):
        if not (isinstance(v, tuple) and v[0] == "S" and len(v[1]) == 2):
            return ("result not understood",)
        l, p = v[1]
        l, p = m.I.norm(st, l), m.I.norm(st, p)
        if is_ptr(p) and p[1][0] == "part":
            return "a part of a key is returned"
        if l == Z:
            return None if m.covered(st, "val") else "a value that may be in the table is not found"
        if is_ptr(p) and p[1][0] == "kp" and p[2] == Z and l == S("kl:%r" % (p[1][1],)):
            if feasible(lin.Dom(), st.dom.constraints() + [("ne", sub(S("v:%r" % (p[1][1],)), S("target")))]):
                return "the key of an entry is returned whose value need not be the one looked for"
            return None
        return "something else than a key of the table is returned"

    def c_size(self, m, st, v):
        return None if is_lin(v) and st.dom.eq0(sub(v, N)) else "the number of entries is wrong"

    def all(self):
        order = self.function_objects(self.cmp, "order of the keys", "order")
        pred = self.function_objects(self.prd, "comparison of values", "pred")
        st, bad = self.make("s_make", "construction")
        inp = (S("len"), ("P", ("in",), Z))
        self.look("s_find", "find(view)", st, inp, self.c_find, order=order)
        self.look("s_find2", "find(pointer, length)", st, (inp[1], inp[0]), self.c_find, order=order)
        self.look("s_key", "find_key, linear", st, (("P", ("arg", 1), Z),), self.c_key, pred=pred)
        self.look("s_size", "size", st, (), self.c_size)
        st, bad = self.make("s_hmake", "construction with an index of values")
        self.look("s_hkey", "find_key, indexed", [] if bad else st, (("P", ("arg", 1), Z),), self.c_key, pred=pred)
        return self.res
