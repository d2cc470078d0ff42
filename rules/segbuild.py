"""segment_tree and flat_segment_tree: building of the tree.

The whole of build_tree() is interpreted with every loop summarised: what a loop changes is replaced by "start + k
times the step" (k the number of rounds) or by an arbitrary value, and one round is interpreted from that state.
The obligations are attached to the rounds: which elements of the store reach the list of end points and the
marking, how the leaves are chained, and which children and interval every inner node gets.
"""
import lin
from lin import const, add, sub
from absint import Interp, Fork, Stop, fresh, new_state, is_ptr, is_lin, PNULL
from quadrun import QM, feasible, local
from segrun import TreeModel, Z, ONE, S, ge, lt

KEEP = ("arg", "a")


class Exact(Interp):
    """remainders and shifts by constants are tied to the quotient"""

    def _op_urem(self, st, i):
        a, b = self._bin(st, i)
        if b[1] or b[0] <= 0:
            return Interp._op_urem(self, st, i)
        self._div(st, i, False)
        st.env[i.id] = st.dom.norm(sub(a, lin.scale(st.env[i.id], b[0])))

    def _op_lshr(self, st, i):
        a, b = self._bin(st, i)
        if b[1]:
            return Interp._op_lshr(self, st, i)
        i2 = type("D", (), {})()
        i2.id, i2.a, i2.op = i.id, [i.a[0], i.a[1], ["i", str(1 << b[0]), 64]], "udiv"
        self._div(st, i2, False)

    def _op_and(self, st, i):
        a, b = self.val(st, i.a[1]), self.val(st, i.a[2])
        if i.a[0] != "i1" and is_lin(a) and b == ONE:
            i2 = type("D", (), {})()
            i2.id, i2.a, i2.op = i.id, [i.a[0], i.a[1], ["i", "2", 64]], "urem"
            return self._op_urem(st, i2)
        return Interp._op_and(self, st, i)


class GM(QM):
    __slots__ = ("cont", "size", "facts", "nc", "per")

    def __init__(self):
        QM.__init__(self)
        self.cont, self.size, self.facts, self.nc, self.per = {}, {}, frozenset(), 0, {}

    def copy(self):
        s = GM.__new__(GM)
        s.null = dict(self.null)
        s.writes, s.events, s.n, s.rd = self.writes, self.events, self.n, self.rd
        s.cont, s.size, s.facts, s.nc, s.per = dict(self.cont), dict(self.size), self.facts, self.nc, dict(self.per)
        return s


class BuildModel(TreeModel):
    def __init__(self, mod, func, recs, elem, objsize):
        TreeModel.__init__(self, mod, func, None)
        self.recs = recs           # call target -> name of the event
        self.elem = elem           # size of a stored segment
        self.objsize = objsize     # {(region, offset): element size} of containers that do not hold 8 byte elements
        self.gens = []             # [start state, cells, rounds]
        self.rounds = {}           # loop number -> list of (state at the head, state at the end of the round)
        self.heads = {}

    # -- containers -------------------------------------------------------------------
    def key(self, p):
        if not is_ptr(p) or p[2][1]:
            raise Stop("unknown", "container at an unknown place")
        return (p[1], p[2][0])

    def cid(self, st, p):
        k = self.key(p)
        i = st.m.cont.get(k)
        if i is None:
            i = st.m.cont[k] = ("c",) + k
        return i

    def newcid(self, st, p):
        st.m.nc += 1
        i = ("n", st.m.nc)
        st.m.cont[self.key(p)] = i
        st.m.size[i] = Z
        return i

    def csize(self, st, i):
        s = st.m.size.get(i)
        if s is None:
            nm = "n:%r" % (i,)
            st.dom.set_lb(nm, 0)
            s = st.m.size[i] = S(nm)
        return st.dom.norm(s)

    def esize(self, st, p, name):
        if "deque" in name:
            return self.elem
        return self.objsize.get(self.key(p), 8)

    def at(self, i, off):
        return ("P", ("arr", i), off)


    def load(self, st, reg, off, ty):
        self.deref(st, reg)
        if reg[0] == "arr" or off[1]:
            off = st.dom.norm(off)
            c = st.mem.get(("arrw", reg, off))
            if c is not None and 0 in c:
                return c[0]
            if ty == "ptr":
                return ("P", ("d", reg, off), Z)
            return S("el:%r:%s" % (reg[1], lin.show(off)))
        return self.I.raw_load(st, reg, off[0], ty)

    def store(self, st, reg, off, v, ty):
        self.deref(st, reg)
        if reg[0] == "arr" or off[1]:
            off = st.dom.norm(off)
            st.mem[("arrw", reg, off)] = {0: v}
            st.m.events = st.m.events + (("set", reg, off, v),)
            return
        self.put(st, reg, off[0], v)

    def put(self, st, reg, off, v):
        self.I.raw_store(st, reg, off, v)
        if not local(reg):
            st.m.events = st.m.events + (("set", reg, const(off), v),)
            st.m.writes = st.m.writes + ((reg, off, v),)

    def scalar(self, st, ins, a):
        if not is_ptr(a):
            return a
        if a[1][0] == "arr":
            return self.load(st, a[1], a[2], "i64")
        v = st.mem.get(a[1], {}).get(a[2][0])
        if v is None:
            ptr = "*" in self.mod.ftab[ins.a[1]][1].split("(")[-1]
            v = self.I.raw_load(st, a[1], a[2][0], "ptr" if ptr else "i64")
        return v

    def ev(self, st, *e):
        st.m.events = st.m.events + (e,)

    def call(self, st, ins, name, args):
        name = name or "?"
        last = name.split("::")[-1]
        ty = ins.a[0]
        if ins.a[1] in self.recs:
            self.ev(st, "call", self.recs[ins.a[1]], tuple(args))
            if ty == "void":
                return None
            return ("P", ("made", len([e for e in st.m.events if e[0] == "call"])), Z)
        cl = name.split("::")[1] if name.startswith("std::") and name.count("::") >= 2 else ""
        if cl in ("vector", "deque", "map"):
            r = self.container(st, ins, name, cl, last, args, ty)
            return r
        if cl == "_Deque_iterator":
            if last == "operator*" or last == "operator->":
                return self.I.raw_load(st, args[0][1], args[0][2][0], "ptr")
            if last in ("operator++", "operator--"):
                p = self.I.raw_load(st, args[0][1], args[0][2][0], "ptr")
                self.I.raw_store(st, args[0][1], args[0][2][0], ("P", p[1], add(p[2], const(self.elem if last == "operator++" else -self.elem))))
                return args[0]
            raise Stop("unknown", name)
        if cl == "_Rb_tree_iterator" and last in ("operator->", "operator*"):
            return self.I.raw_load(st, args[0][1], args[0][2][0], "ptr")
        if name == "std::sort":
            if not (is_ptr(args[0]) and is_ptr(args[1]) and args[0][1] == args[1][1] and args[0][1][0] == "arr"):
                raise Stop("unknown", name)
            i = args[0][1][1]
            if args[0][2] == Z and st.dom.eq0(sub(args[1][2], lin.scale(self.csize(st, i), 8))):
                st.m.facts = frozenset(x for x in st.m.facts if x[1] != i) | {("sorted", i)}
                self.ev(st, "sort", i)
                return None
            raise Stop("unknown", "partial sort")
        if name == "std::unique":
            i = args[0][1][1]
            if ("sorted", i) not in st.m.facts and args[0][2] == Z:
                raise Stop("bug", "duplicates are removed from keys that are not sorted")
            if args[0][2] != Z or not st.dom.eq0(sub(args[1][2], lin.scale(self.csize(st, i), 8))):
                raise Stop("unknown", "std::unique on something that is not sorted")
            s = fresh("u")
            st.dom.set_lb(s, 0)
            st.dom.add_ge0(sub(self.csize(st, i), S(s)))
            if st.dom.ge0(add(self.csize(st, i), const(-1))):
                st.dom.add_ge0(add(S(s), const(-1)))
            self.ev(st, "unique", i, s)
            return self.at(i, lin.sym(s, 8))
        if name == "std::find":
            a, b = args[0], args[1]
            if not (is_ptr(a) and is_ptr(b) and a[1] == b[1] and a[1][0] == "arr"):
                raise Stop("unknown", name)
            i = a[1][1]
            v = self.scalar(st, ins, args[2])
            hit = st.m.null.get(("found", i, v))
            if hit is None:
                raise Fork([self.setn(("found", i, v), True), self.setn(("found", i, v), False)])
            if not hit:
                return b
            s = "at:%r:%s" % (i, lin.show(v))
            st.dom.set_lb(s, 0)
            st.dom.add_ge0(add(sub(self.csize(st, i), S(s)), const(-1)))
            return self.at(i, lin.sym(s, 8))
        return TreeModel.call(self, st, ins, name, args)

    def setn(self, k, v):
        def g(s):
            s.m.null[k] = v
            return True
        return g

    def container(self, st, ins, name, cl, last, args, ty):
        sig = self.mod.ftab[ins.a[1]][1]
        if last == cl:
            if len(args) > 1 and is_ptr(args[1]) and (self.key(args[1]) in st.m.cont or "&&" in sig or "const&" in sig):
                if "&&" in sig:
                    i = self.cid(st, args[1])
                    st.m.cont[self.key(args[0])] = i
                    self.newcid(st, args[1])
                    return None
                raise Stop("unknown", "copy of a container")
            if len(args) == 1 or cl == "map":
                self.newcid(st, args[0])
                return None
            raise Stop("unknown", "construction of a container")
        if last.startswith("~"):
            return None
        i = self.cid(st, args[1] if last in ("begin", "end", "cbegin", "cend") and ty == "void" else args[0])
        n = self.csize(st, i)
        if last in ("begin", "cbegin", "end", "cend"):
            sret = ty == "void"
            k = self.esize(st, args[1] if sret else args[0], name)
            if cl == "map":
                v = ("P", ("mapend", i), Z) if last.endswith("end") else ("P", ("mapbegin", i), Z)
            else:
                v = self.at(i, lin.scale(n, k) if last.endswith("end") else Z)
            if sret:
                self.I.raw_store(st, args[0][1], args[0][2][0], v)
                return None
            return v
        if last == "size":
            return n
        if last == "empty":
            return ONE if self.I.decide(st, "eq", n, Z) else Z
        if last == "reserve":
            return None
        if last == "clear":
            self.ev(st, "clear", i)
            self.newcid(st, args[0])
            return None
        if last == "resize":
            self.ev(st, "resize", i, args[1], n)
            st.m.size[i] = args[1]
            return None
        if last == "swap":
            a, b = self.key(args[0]), self.key(args[1])
            ib = self.cid(st, args[1])
            st.m.cont[a], st.m.cont[b] = ib, i
            self.ev(st, "swap", a, b, i, ib)
            return None
        if last in ("push_back", "emplace_back"):
            if cl == "deque":
                v = tuple(args[1:])
                if len(v) == 1 and is_ptr(v[0]) and v[0][1][0] != "arr":
                    v = ("obj",) + tuple(st.mem.get(v[0][1], {}).get(v[0][2][0] + 8 * q) for q in range(self.elem // 8))
                elif len(v) > 1:
                    v = ("obj",) + tuple(self.scalar(st, ins, x) for x in v)
                else:
                    v = ("el",) + v[0][1:]
            else:
                v = self.scalar(st, ins, args[1])
            self.ev(st, "push", i, v)
            st.m.facts = frozenset(x for x in st.m.facts if x[1] != i)
            st.m.size[i] = add(n, ONE)
            return None if ty == "void" else self.at(i, lin.scale(n, self.esize(st, args[0], name)))
        if last in ("operator[]", "at") and cl != "map":
            return self.at(i, lin.scale(self.I.as_lin(st, args[1]), self.esize(st, args[0], name)))
        if last == "front":
            return self.at(i, Z)
        if last == "back":
            return self.at(i, add(lin.scale(n, self.esize(st, args[0], name)), const(-self.esize(st, args[0], name))))
        if last == "pop_back":
            self.ev(st, "pop", i)
            st.m.size[i] = add(n, const(-1))
            return None
        if last == "erase" and cl == "vector" and len(args) == 3:
            u = [e for e in st.m.events if e[0] == "unique" and e[1] == i]
            if not u or args[1] != self.at(i, lin.sym(u[-1][2], 8)) or not st.dom.eq0(sub(args[2][2], lin.scale(n, 8))):
                raise Stop("unknown", "partial erasure")
            st.m.size[i] = S(u[-1][2])
            st.m.facts = st.m.facts | {("distinct", i)}
            return args[1]
        if cl == "map" and last == "emplace":
            k = args[-1] if is_ptr(args[-1]) else None
            st.m.nc += 1
            r = ("mapnode", st.m.nc)
            v = self.scalar(st, ins, k) if k is not None else None
            self.ev(st, "emplace", i, v, r)
            if ty == "void":
                self.I.raw_store(st, args[0][1], args[0][2][0], ("P", r, Z))
                self.I.raw_store(st, args[0][1], args[0][2][0] + 8, ONE)
                return None
            return ("S", (("P", r, Z), ONE))
        if cl == "map" and last == "operator[]":
            st.m.nc += 1
            r = ("mapnode", st.m.nc)
            self.ev(st, "emplace", i, self.scalar(st, ins, args[1]), r)
            return ("P", r, const(8))
        if cl == "map" and last == "find":
            v = self.scalar(st, ins, args[1])
            hit = st.m.null.get(("found", i, v))
            if hit is None:
                raise Fork([self.setn(("found", i, v), True), self.setn(("found", i, v), False)])
            if not hit:
                return ("P", ("mapend", i), Z)
            return ("P", ("mapnode", i, v), Z)
        if cl == "map" and last == "erase":
            self.ev(st, "erase", i, args[1] if is_ptr(args[1]) and args[1][1][0] != "a" else self.scalar(st, ins, args[1]))
            return None if ty == "void" else ("P", ("sym", fresh("it")), Z)
        raise Stop("unknown", "call of " + name)

    # -- loops --------------------------------------------------------------------------
    def cells(self, s0, st, new):
        """what differs between two states: {cell: (before, after)}"""
        out = {}
        for i, v in new.items():
            o = s0.env.get(i)
            v = self.I.norm(st, v)
            if o is None or self.I.norm(st, o) != v:
                out[("e", i)] = (o, v)
        for reg, c in st.mem.items():
            b = s0.mem.get(reg, {} if not local(reg) and reg[0] != "new" else None)
            if b is None or b is c or reg[0] == "arrw":
                continue
            for o, v in c.items():
                if o in b and self.I.norm(st, b[o]) != self.I.norm(st, v):
                    out[("m", reg, o)] = (b[o], v)
                elif o not in b and not local(reg):
                    w = self.initial(s0.copy(), reg, o, "ptr" if is_ptr(v) else "i64")
                    if w != v:
                        out[("m", reg, o)] = (w, v)
        for i, n in st.m.size.items():
            o = s0.m.size.get(i)
            if o is not None and not st.dom.eq0(sub(n, o)):
                out[("s", i)] = (o, n)
        for k, i in st.m.cont.items():
            o = s0.m.cont.get(k)
            if o is not None and o != i and not (k[0][0] == "a" and k in self.scratch(s0, st)):
                out[("c", k)] = (o, i)
        return out

    def scratch(self, s0, st):
        return set()

    def generalise(self, st, snap, head, new, it):
        flag = st.loops[-1][3]
        per = st.m.per.get(head)
        if per is None:
            g = self.heads.get((head, id(snap)))
            if g is None:
                g = self.heads[(head, id(snap))] = len(self.gens) + 1
                self.gens.append([snap, {}, head, 0, 1, False])
            if not self.gens[g - 1][5] and self.flips(snap, st, new):
                self.gens[g - 1][4] = 2
                st.m.per = dict(st.m.per)
                st.m.per[head] = (g, 1, None)
                return None
            g0 = None
        else:
            g, rest, g0 = per
            if rest > 1:
                st.m.per = dict(st.m.per)
                st.m.per[head] = (g, rest - 1, g0)
                return None
            if g0 is None and not self.back(snap, st, new, g):
                # no switch after all: rounds of one turn
                s0 = self.gens[g - 1][0]
                self.gens[g - 1][4:] = [1, True]
                n = s0.copy()
                n.loops = list(st.loops)
                n.trail = list(st.trail)
                for i in new:
                    if i in s0.env:
                        n.env[i] = s0.env[i]
                return [(n, 0)]
        s0, known = self.gens[g - 1][:2]
        ch = self.cells(g0 if g0 is not None else s0, st, new)
        grown = False
        for c, (a, b) in ch.items():
            if c[0] == "m" and not local(c[1]) and c[1][0] not in ("arg",):
                continue             # nodes: described by the writes
            k = known.setdefault(c, {"d": set(), "p": set()})
            if c[0] == "s" or (is_lin(a) and is_lin(b)):
                d = st.dom.norm(sub(b, a))
                d = d[0] if not d[1] else None
                if d not in k["d"]:
                    k["d"].add(d)
                    grown = True
            elif is_ptr(a) and is_ptr(b) and a[1] == b[1]:
                d = st.dom.norm(sub(b[2], a[2]))
                d = d[0] if not d[1] else None
                if d not in k["d"]:
                    k["d"].add(d)
                    grown = True
            elif a is None and not (is_lin(b) or is_ptr(b)):
                raise Stop("unknown", "loop changes a value that cannot be described")
            else:
                nn = is_ptr(b) and b[1][0] != "d" and b[1][0] != "lf" or is_ptr(b) and st.m.null.get(b[1]) is False
                t = ("ptr", bool(nn)) if is_ptr(b) else ("null",) if is_lin(b) and b == Z else ("other",)
                if t not in k["p"]:
                    k["p"].add(t)
                    grown = True
        # the value of a cell that did not change in this round
        if g0 is not None:
            self.rounds.setdefault(g, []).append((g0, st.copy(), dict(new)))
        if not grown and g0 is not None:
            return []
        if not grown and self.gens[g - 1][3]:
            return []
        self.gens[g - 1][3] += 1
        if self.gens[g - 1][3] > 8:
            raise Stop("unknown", "loop not summarised")
        self.rounds[g] = [r for r in self.rounds.get(g, []) if False]
        n = s0.copy()
        n.loops = list(st.loops)
        n.trail = list(st.trail)
        kap = "k:%d" % g
        n.dom.set_lb(kap, 1)
        gen = {}
        for c, k in known.items():
            a = self.cell(s0, c, new)
            gen[c] = v = self.generic(n, g, c, k, a, kap)
            if c[0] == "e":
                n.env[c[1]] = v
            elif c[0] == "m":
                self.I.raw_store(n, c[1], c[2], v)
            elif c[0] == "s":
                n.m.size[c[1]] = v
            else:
                raise Stop("unknown", "loop exchanges containers")
        for i, v in new.items():
            if ("e", i) not in known:
                n.env[i] = s0.env.get(i, v)
        # nodes changed by earlier rounds hold anything
        for reg, o, v in st.m.writes[len(s0.m.writes):]:
            if reg[0] not in ("arg",) and reg in n.mem and o in n.mem[reg]:
                d = dict(n.mem[reg])
                d[o] = ("P", ("d", reg, ("after", g, o)), Z) if is_ptr(v) else S("after:%d:%r:%d" % (g, reg, o))
                n.mem[reg] = d
        n.m.events = s0.m.events + (("loop", g, kap),)
        n.m.per = dict(n.m.per)
        n.m.per[head] = (g, self.gens[g - 1][4], None)
        c = n.copy()
        n.m.per[head] = (g, self.gens[g - 1][4], c)
        return [(n, g)]

    def loop_exit(self, st, rec):
        if rec[0] in st.m.per:
            st.m.per = dict(st.m.per)
            st.m.per.pop(rec[0])

    def flips(self, s0, st, new):
        for i, v in new.items():
            ins = self.I.f.defs.get(i)
            if ins is not None and ins.a[0] in ("i1", "i8"):
                o = s0.env.get(i)
                return o is not None and self.truth(st, o) is not None and self.truth(st, o) != self.truth(st, v)
        return any(s0.env.get(i) == Z and is_ptr(v) and v[1][0] == "d" and v[1][1][0] == "arr" for i, v in new.items())

    def back(self, snap, st, new, g):
        """a pointer that was null before the two turns is null again"""
        s0 = self.gens[g - 1][0]
        ps = [i for i in new if s0.env.get(i) == Z and self.I.f.defs.get(i) is not None and self.I.f.defs[i].a[0] == "ptr"]
        return not ps or any(new[i] == Z for i in ps)

    def truth(self, st, v):
        try:
            return self.I.truth(st.copy(), v)
        except Fork:
            return None

    def cell(self, s0, c, new):
        if c[0] == "e":
            return s0.env.get(c[1])
        if c[0] == "m":
            v = s0.mem.get(c[1], {}).get(c[2])
            return v if v is not None or local(c[1]) else ("P", ("d", c[1], c[2]), Z)
        return s0.m.size.get(c[1])

    def generic(self, n, g, c, k, a, kap):
        ds = k["d"]
        if not k["p"]:
            if len(ds) == 1 and None not in ds:
                t = lin.sym(kap, next(iter(ds)))
            else:
                s = "t:%d:%r" % (g, c)
                t = S(s)
                if None not in ds and all(d >= 0 for d in ds):
                    n.dom.set_lb(s, 0)
                elif c[0] == "s":
                    t = sub(S(s), a)
                    n.dom.set_lb(s, 0)
                elif None in ds and is_lin(a):
                    t = sub(S(s), a)
                    n.dom.set_lb(s, 0)
            if is_ptr(a):
                return ("P", a[1], add(a[2], t))
            return add(a, t)
        if all(p[0] == "ptr" for p in k["p"]):
            r = ("lf", g, c)
            if all(p[1] for p in k["p"]):
                n.m.null[r] = False
            else:
                n.m.null.pop(r, None)
            return ("P", r, Z)
        if ("other",) in k["p"] and len(k["p"]) == 1 and not ds:
            s = "t:%d:%r" % (g, c)
            return S(s)
        r = ("lf", g, c)
        n.m.null.pop(r, None)
        return ("P", r, Z)

    def cmp_ptr(self, st, pred, a, b):
        if is_ptr(a) and is_ptr(b) and a[1] != b[1] and a[1][0] in ("d", "lf") and b[1][0] in ("d", "lf", "new"):
            if not self.isnull(st, a[1]) and not self.isnull(st, b[1]):
                return None
        elif is_ptr(a) and is_ptr(b) and a[1] != b[1] and b[1][0] in ("d", "lf"):
            return self.cmp_ptr(st, pred, b, a) if a[1][0] == "new" else TreeModel.cmp_ptr(self, st, pred, a, b)
        return TreeModel.cmp_ptr(self, st, pred, a, b)

    def deref(self, st, reg):
        if self.isnull(st, reg):
            if self.old(reg) or reg[0] == "lf" or reg[0] == "d" and reg[1][0] in ("lf", "new"):
                raise Stop("dead")       # a chain of leaves ends at its last leaf
            raise Stop("bug", "access through a null node pointer")

    def old(self, reg):
        while reg[0] in ("d", "lf"):
            if reg[0] == "lf":
                a = self.cell(self.gens[reg[1] - 1][0], reg[2], None)
                if not is_ptr(a):
                    return False
                reg = a[1]
            elif reg[1] == ("arg", 0):
                return True
            else:
                reg = reg[1]
        return False

    def isnull(self, st, reg):
        if reg[0] not in ("d", "lf") or reg[0] == "d" and reg[1][0] == "arr":
            return False
        r = st.m.null.get(reg)
        if r is None:
            raise Fork([self.setn(reg, True), self.setn(reg, False)])
        return r

    def initial(self, st, reg, off, ty):
        return TreeModel.initial(self, st, reg, off, ty)


def start(mod, f, recs, elem, objsize, deadline, setup=None):
    m = BuildModel(mod, f, recs, elem, objsize)
    it = Exact(f, m, max_paths=20000, max_unroll=6, max_steps=6000000)
    st = new_state(GM())
    for i in range(f.nargs):
        st.env[i] = ("P", ("arg", i), Z)
    if setup:
        setup(m, st)
    it.run(st, None, deadline)
    if it.exhausted:
        m.unk[("time limit", f.where)] = it.exhausted
    m.nsteps = it.steps
    return m


class Build:
    """the obligations of building a tree"""

    def __init__(self, seg, o, marks=True):
        self.s, self.o, self.marks = seg, o, marks
        self.low, self.high = o[("nonleaf_node", "low")], o[("nonleaf_node", "high")]
        self.left, self.right = o[("nonleaf_node", "left")], o[("nonleaf_node", "right")]
        self.key, self.next, self.prev = o[("node", "key")], o[("node", "next")], o[("node", "prev")]
        self.isleaf = o[("node", "is_leaf")]
        self.psize = o[("nonleaf_node", "size")]

    # -- description of nodes ----------------------------------------------------------
    def nextof(self, reg):
        return ("d", reg, self.next)

    def field(self, st, reg, off, k, ptr=False):
        """value of a member of a node designated by (region, offset)"""
        if reg[0] == "arr":
            c = st.mem.get(("arrw", reg, add(off, const(k))))
            return c[0] if c else S("el:%r:%s" % (reg[1], lin.show(add(off, const(k)))))
        v = st.mem.get(reg, {}).get(off[0] + k)
        if v is not None and not (v.__class__ is tuple and v[0] == "Z"):
            return v
        return ("P", ("d", reg, off[0] + k), Z) if ptr else S("m:%r:%d" % (reg, off[0] + k))

    def null(self, st, v):
        if is_lin(v):
            return True
        if v[1][0] in ("d", "lf") and not (v[1][0] == "d" and v[1][1][0] == "arr"):
            return st.m.null.get(v[1])
        return False

    def parent(self, st, ev, cons, leaves, bad, want=None):
        """check the inner node made by the events; returns (left child, right child)"""
        push = [e for e in ev if e[0] == "push" and is_ptr(e[2])]
        if len(push) != 1:
            bad("a round of pairing the nodes adds %d inner nodes to the next level" % len(push), st)
            return None
        P = push[0][2]
        sets = {}
        for e in ev:
            if e[0] == "set" and is_ptr(P) and e[1] == P[1]:
                d = sub(e[2], P[2])
                if not d[1]:
                    sets[d[0]] = e[3]
        l, r = sets.get(self.left), sets.get(self.right)
        if not is_ptr(l):
            bad("an inner node is left without a left child", st)
            return None
        if r is not None and not is_ptr(r):
            r = None
        cc = list(cons)
        lf = self.field(st, l[1], l[2], self.isleaf)
        if leaves:
            cc += [("eq", sub(lf, ONE))] if is_lin(lf) else []
            lo = self.field(st, l[1], l[2], self.key)
            if r is None:
                hi = lo
            else:
                nx = self.field(st, r[1], r[2], self.next, True)
                nn = self.null(st, nx)
                hi = self.field(st, r[1], r[2], self.key) if nn else self.field(st, nx[1], nx[2], self.key)
                cc += [("eq", sub(self.field(st, r[1], r[2], self.isleaf), ONE))]
                if nn is None:
                    bad("the interval of an inner node does not depend on whether a leaf follows", st)
                    return l, r, P
        else:
            cc += [("eq", lf)]
            lo = self.field(st, l[1], l[2], self.low)
            h = r if r is not None else l
            if r is not None:
                cc += [("eq", self.field(st, r[1], r[2], self.isleaf))]
            hi = self.field(st, h[1], h[2], self.high)
        if not feasible(lin.Dom(), cc):
            return None
        for nm, k, w in (("low", self.low, lo), ("high", self.high, hi)):
            v = sets.get(k)
            if v is None or not is_lin(v):
                bad("the %s end of the interval of an inner node is not set" % nm, st)
            elif feasible(lin.Dom(), cc + [("ne", sub(v, w))]):
                bad("the %s end of the interval of an inner node is not that of its children" % nm, st)
        return l, r, P

    def groups(self, m):
        """rounds of every loop, with the cells that move"""
        for g, rs in m.rounds.items():
            s0, known, head = m.gens[g - 1][:3]
            yield g, s0, known, rs

    def walk(self, m, known, s0, kind):
        """the cell that walks over the elements of an array: (cell, array, start)"""
        for c, k in known.items():
            a = m.cell(s0, c, None)
            if is_ptr(a) and a[1][0] == "arr" and k["d"] == {kind} and not k["p"]:
                return c, a[1][1], a[2]
        return None

    def check(self, m, r, bad, f):
        unk = m.unk
        seen = set()
        for g, s0, known, rs in self.groups(m):
            for snap, st, new in rs:
                ev = st.m.events[len(snap.m.events):]
                cons = st.dom.constraints()
                for e in ev:
                    if e[0] == "push" and isinstance(e[2], tuple) and e[2] and e[2][0] in ("el", "obj"):
                        seen.add(("copy", g))
                    elif e[0] == "push" and is_lin(e[2]):
                        seen.add(("keys", g))
                    elif e[0] == "push" and is_ptr(e[2]):
                        seen.add(("pair", g))
                    elif e[0] == "set" and e[2] == const(self.key) and is_lin(e[3]) and e[1][0] in ("lf", "new"):
                        seen.add(("chain", g))
                    elif e[0] == "call" and e[1] == "mark":
                        seen.add(("mark", g))
        kinds = {g: k for k, g in seen}
        count = {}
        for g, s0, known, rs in self.groups(m):
            k = kinds.get(g)
            if k is None and rs and len(known) == 2 and all(c[0] in ("e", "m", "s") and x["d"] == {None} and not x["p"] for c, x in known.items()):
                k = "levels"
            count[k] = count.get(k, 0) + len(rs)
            h = getattr(self, "round_" + str(k), None)
            if h:
                h(m, g, s0, known, rs, bad, unk, f)
        r["stats"].update({"rounds of " + str(k): n for k, n in count.items() if k})
        for k, st, v in m.steps:
            if k == "ret":
                self.final(m, st, kinds, bad, unk, f)
        return kinds

    # -- the rounds ---------------------------------------------------------------------
    def el(self, aid, off):
        return S("el:%r:%s" % (aid, lin.show(off)))

    def round_copy(self, m, g, s0, known, rs, bad, unk, f):
        w = self.walk(m, known, s0, m.elem)
        if w is None:
            unk[("the loop that removes deleted segments is not understood", f.where)] = 1
            return
        c, aid, first = w
        if first != Z:
            bad("the removal of deleted segments does not start at the first segment", s0)
        for snap, st, new in rs:
            ev = st.m.events[len(snap.m.events):]
            cur = m.cell(snap, c, None)[2]
            push = [e for e in ev if e[0] == "push"]
            for e in push:
                x = e[2]
                same = x[0] == "el" and x[1] == ("arr", aid) and st.dom.eq0(sub(x[2], cur))
                if x[0] == "obj":
                    same = all(v is not None and is_lin(v) and st.dom.eq0(sub(v, self.el(aid, add(cur, const(8 * q))))) for q, v in enumerate(x[1:]))
                if not same:
                    bad("the removal of deleted segments keeps something other than the segment", st)
            if len(push) > 1:
                bad("the removal of deleted segments keeps a segment twice", st)
            cons = st.dom.constraints() + [lt(self.el(aid, cur), self.el(aid, add(cur, const(8))))]
            if not push and feasible(lin.Dom(), cons):
                bad("a stored segment is lost when the tree is built", st)

    def round_keys(self, m, g, s0, known, rs, bad, unk, f):
        w = self.walk(m, known, s0, m.elem)
        if w is None:
            unk[("the loop that collects the end points is not understood", f.where)] = 1
            return
        c, aid, first = w
        if first != Z:
            bad("the end points of the first segments are not collected", s0)
        for snap, st, new in rs:
            cur = m.cell(snap, c, None)[2]
            got = [e[2] for e in st.m.events[len(snap.m.events):] if e[0] == "push"]
            for q, nm in ((0, "start"), (8, "end")):
                if not any(st.dom.eq0(sub(x, self.el(aid, add(cur, const(q))))) for x in got if is_lin(x)):
                    bad("the %s of a stored segment is not among the keys of the leaves" % nm, st)

    def round_chain(self, m, g, s0, known, rs, bad, unk, f):
        w = self.walk(m, known, s0, 8)
        if w is None:
            unk[("the loop that creates the leaves is not understood", f.where)] = 1
            return
        c, aid, first = w
        if not {("sorted", aid), ("distinct", aid)} <= s0.m.facts:
            bad("the keys of the leaves are not sorted and distinct", s0)
        for snap, st, new in rs:
            ev = st.m.events[len(snap.m.events):]
            cur = m.cell(snap, c, None)[2]
            keys = [e for e in ev if e[0] == "set" and e[2] == const(self.key) and is_lin(e[3]) and e[1][0] in ("lf", "new") and e[3] != Z]
            if len(keys) != 1 or not st.dom.eq0(sub(keys[0][3], self.el(aid, cur))):
                bad("a leaf does not get the next key", st)
                continue
            X = keys[0][1]
            links = {e[1]: e[3] for e in ev if e[0] == "set" and e[2] == const(self.next) and is_ptr(e[3])}
            cursor = [q for q in known if is_ptr(m.cell(snap, q, None)) and m.cell(snap, q, None)[1] == X]
            if X[0] == "lf":
                # the node was made by the round before: this round makes and links the next one
                n = links.get(X)
                if n is None or n[1][0] != "new":
                    bad("a leaf is not linked to the one that follows it", st)
                elif not any((new[q[1]] if q[0] == "e" else st.mem[q[1]][q[2]]) == n for q in cursor):
                    bad("the key that follows is not put in the leaf that follows", st)
            elif not any(v[1] == X for v in links.values()):
                bad("a leaf is not linked to the one before it", st)

    def round_levels(self, m, g, s0, known, rs, bad, unk, f):
        cs = list(known)
        a = [m.cell(s0, c, None) for c in cs]
        acc = [i for i in (0, 1) if a[i] == Z]
        if len(acc) != 1:
            unk[("the number of inner nodes is computed in a way that is not understood", f.where)] = 1
            return
        acc = acc[0]
        for snap, st, new in rs:
            o = [m.cell(snap, c, None) for c in cs]
            n = [new[c[1]] if c[0] == "e" else st.mem[c[1]][c[2]] if c[0] == "m" else st.m.size[c[1]] for c in cs]
            cnt = 1 - acc
            cons = st.dom.constraints()
            if feasible(lin.Dom(), cons + [ge(o[cnt], const(2)), lt(lin.scale(n[cnt], 2), o[cnt])]):
                bad("fewer inner nodes are counted for a level than the nodes below it need", st)
            if feasible(lin.Dom(), cons + [ge(o[cnt], const(2)), lt(n[acc], add(o[acc], n[cnt]))]):
                bad("the inner nodes of a level are not added up", st)

    def round_pair(self, m, g, s0, known, rs, bad, unk, f):
        leaves = any(c for c, k in known.items() if k["p"])
        for snap, st, new in rs:
            ev = st.m.events[len(snap.m.events):]
            p = self.parent(st, ev, st.dom.constraints(), leaves, bad)
            if not p:
                continue
            l, r, P = p
            if r is None:
                bad("two nodes do not become the children of one inner node", st)
                continue
            if leaves:
                cur = [c for c, k in known.items() if k["p"] and m.cell(snap, c, None) == l]
                if not cur:
                    bad("the leaf that is paired is not the next one", st)
                    continue
                if r[1] != self.nextof(l[1]):
                    bad("a leaf is not paired with the leaf that follows it", st)
                n = self.after(st, new, cur[0])
                if not is_ptr(n) or n[1] != self.nextof(r[1]):
                    bad("pairing does not go on with the leaf after the pair", st)
            else:
                w = self.walk(m, known, s0, 16)
                if w is None:
                    unk[("pairing of inner nodes is not understood", f.where)] = 1
                    return
                c, aid, first = w
                cur = m.cell(snap, c, None)[2]
                if first != Z:
                    bad("pairing does not start with the first inner node", st)
                if l[1] != ("d", ("arr", aid), st.dom.norm(cur)) or r[1] != ("d", ("arr", aid), st.dom.norm(add(cur, const(8)))):
                    bad("the inner nodes of a level are not paired in order", st)
            pc = [c for c, k in known.items() if k["d"] == {self.psize} and m.cell(snap, c, None) == P]
            if not pc:
                bad("an inner node is used twice", st)

    def after(self, st, new, c):
        if c[0] == "e":
            return new.get(c[1])
        return st.mem.get(c[1], {}).get(c[2])

    def round_mark(self, m, g, s0, known, rs, bad, unk, f):
        cnt = [c for c, k in known.items() if k["d"] == {1} and not k["p"] and c[0] != "s"]
        wk = self.walk(m, known, s0, m.elem)
        for snap, st, new in rs:
            ev = st.m.events[len(snap.m.events):]
            calls = [e for e in ev if e[0] == "call" and e[1] == "mark"]
            if len(calls) != 1:
                bad("a stored segment is marked %d times" % len(calls), st)
                continue
            args = calls[0][2]
            rec = m.mark_names
            i = args[rec["id"]] if "id" in rec else None
            cs = [c for c in cnt if is_lin(i) and m.cell(snap, c, None) == i]
            if not cs:
                bad("a segment is marked under another position than its own", st)
                continue
            if m.cell(s0, cs[0], None) != Z:
                bad("the first segments are not marked", st)
            root = args[rec["node"]]
            if not is_ptr(root) or root[1][0] != "made":
                bad("marking does not start at the root of the tree that was built", st)
            sid = m.cid(st, ("P", ("arg", 0), const(self.o[("tree", "m_segment_store")]))) if ("tree", "m_segment_store") in self.o else None
            for nm, q in (("start", 0), ("end", 8)):
                a = args[rec[nm]]
                ok = is_ptr(a) and a[1][0] == "arr" and (sid is None or a[1][1] == sid) and st.dom.eq0(sub(a[2], add(lin.scale(i, m.elem), const(q))))
                if is_ptr(a) and local(a[1]):
                    v = st.mem.get(a[1], {}).get(a[2][0])
                    ok = v is not None and is_lin(v) and any(st.dom.eq0(sub(v, self.el(x, add(lin.scale(i, m.elem), const(q))))) for x in [sid])
                if not ok:
                    bad("a segment is marked with another %s than its own" % nm, st)
            lst = args[rec["list"]]
            em = [e for e in ev if e[0] == "emplace" and is_ptr(lst) and e[3] == lst[1]]
            if not em or not is_lin(em[-1][2]) or not st.dom.eq0(sub(em[-1][2], i)):
                bad("the marked nodes are remembered under another segment", st)

    # -- the end ------------------------------------------------------------------------
    def final(self, m, st, kinds, bad, unk, f):
        ev = st.m.events
        valid = [(n, e) for n, e in enumerate(ev) if e[0] == "set" and e[1] == ("arg", 0) and e[2] == const(self.o[("tree", "m_valid_tree")])]
        root = [(n, e) for n, e in enumerate(ev) if e[0] == "set" and e[1] == ("arg", 0) and e[2] == const(self.o[("tree", "m_root_node")])]
        loops = {}
        for n, e in enumerate(ev):
            if e[0] == "loop":
                loops.setdefault(kinds.get(e[1]), []).append((n, e[1], e[2]))
        up = [(n, e) for n, e in enumerate(ev) if e[0] == "call" and e[1] == "upper"]
        isv = valid and valid[-1][1][3] == ONE
        if not isv:
            if self.marks and (not valid or valid[-1][1][3] != Z):
                bad("the tree keeps counting as valid although it is not built", st)
            if self.marks and (up or not self.empty(st, m)):
                bad("the tree does not count as valid after it was built", st)
            return
        if self.marks and ev.index(valid[0][1]) > 0 and valid[0][1][3] != Z:
            bad("the tree still counts as valid while it is built", st)
        if not up:
            if self.marks or True:
                bad("a tree without inner nodes counts as valid", st)
            return
        n0, e0 = up[-1]
        if not root or root[-1][1][3] is None or not is_ptr(root[-1][1][3]) or root[-1][1][3][1][0] != "made" or root[-1][0] < n0:
            bad("the root of the tree that was built is not kept", st)
        # the last pair of leaves is made in the round that ends the loop
        before = [x for x in loops.get("pair", []) if x[0] < n0]
        a = before[-1][0] if before else max([x[0] for x in loops.get("levels", []) if x[0] < n0] + [n for n, e in enumerate(ev[:n0]) if e[0] == "resize"] + [0])
        seg = ev[a + 1:n0]
        if before:
            p = self.parent(st, seg, st.dom.constraints(), True, bad)
            if p:
                l, r, P = p
                nx = self.nextof(l[1])
                if r is None and st.m.null.get(nx) is not True:
                    bad("the last leaves are left out of the tree", st)
                if r is not None and (r[1] != nx or st.m.null.get(self.nextof(r[1])) is not True):
                    bad("the last leaves are left out of the tree", st)
        res = [(n, e) for n, e in enumerate(ev[:n0]) if e[0] == "resize"]
        if not res or res[-1][1][3] != Z:
            bad("the inner nodes are not fresh when the tree is built", st)
        self.counted(m, st, loops, res, bad, ev)
        if not self.marks:
            return
        for kind, nm in (("keys", "end points of the stored segments are not all collected"), ("mark", "stored segments are not all marked"),
                         ("copy", "stored segments are lost")):
            ls = loops.get(kind, [])
            if not ls:
                if kind != "copy":
                    if not self.nostore(st, m):
                        bad(nm, st)
                continue
            for n, g, kap in ls:
                self.whole(m, st, g, kap, nm, bad)
        for n, g, kap in loops.get("chain", []):
            self.whole(m, st, g, kap, "a boundary between segments gets no leaf", bad, 8)
        sw = [(n, e) for n, e in enumerate(ev) if e[0] == "swap" and e[1] == (("arg", 0), self.o[("tree", "m_tagged_nodes_map")])]
        em = [e for g, rs in m.rounds.items() if kinds.get(g) == "mark" for s1, s2, x in rs for e in s2.m.events if e[0] == "emplace"]
        mp = m.cid(st, ("P", ("arg", 0), const(self.o[("tree", "m_tagged_nodes_map")])))
        if em and not any(e[1] == mp for e in em):
            bad("the record of marked nodes is not kept", st)

    def counted(self, m, st, loops, res, bad, ev):
        """the pool is as large as the number of nodes that was computed, from the number of leaves"""
        for n, g, kap in loops.get("levels", []):
            s0, known = m.gens[g - 1][:2]
            cs = list(known)
            a = [m.cell(s0, c, None) for c in cs]
            acc = [c for c, v in zip(cs, a) if v == Z]
            cnt = [v for v in a if v != Z]
            if len(acc) != 1:
                continue
            now = S("t:%d:%r" % (g, acc[0]))
            if not res or feasible(lin.Dom(), st.dom.constraints() + [lt(res[-1][1][2], now)]):
                bad("fewer inner nodes are made than were counted", st)
            # the leaves were counted by a loop along the chain
            for x in ev[:n]:
                if x[0] != "loop":
                    continue
                k2 = m.gens[x[1] - 1][1]
                if any(k["p"] and not k["d"] for k in k2.values()) and any(k["d"] == {1} and c[0] == "e" for c, k in k2.items()) and len(k2) == 2:
                    if feasible(lin.Dom(), st.dom.constraints() + [lt(cnt[0], add(S(x[2]), ONE))]):
                        bad("fewer leaves are counted than there are", st)
            fin = S("t:%d:%r" % (g, [c for c in cs if c != acc[0]][0]))
            if feasible(lin.Dom(), st.dom.constraints() + [ge(fin, const(2))]):
                bad("the inner nodes of the upper levels are not counted", st)

    def whole(self, m, st, g, kap, msg, bad, width=None):
        """the loop went over the whole array"""
        s0, known = m.gens[g - 1][:2]
        w = self.walk(m, known, s0, width or m.elem)
        if w is not None:
            c, aid, first = w
            n = lin.scale(m.csize(st, aid), width or m.elem)
            if feasible(lin.Dom(), st.dom.constraints() + [lt(add(first, lin.sym(kap, width or m.elem)), n)]):
                bad(msg, st)
            return
        cs = [c for c, k in known.items() if k["d"] == {1} and not k["p"] and c[0] != "s" and m.cell(s0, c, None) == Z]
        sid = m.cid(st, ("P", ("arg", 0), const(self.o[("tree", "m_segment_store")])))
        if cs and feasible(lin.Dom(), st.dom.constraints() + [lt(S(kap), m.csize(st, sid))]):
            bad(msg, st)

    def nostore(self, st, m):
        sid = m.cid(st, ("P", ("arg", 0), const(self.o[("tree", "m_segment_store")])))
        return st.dom.eq0(m.csize(st, sid))

    def empty(self, st, m):
        """there is nothing to build from: no segments are stored"""
        sid = m.cid(st, ("P", ("arg", 0), const(self.o[("tree", "m_segment_store")])))
        d = st.dom.copy()
        return not d.add_ge0(add(m.csize(st, sid), const(-1))) or d.bad or not feasible(d, [])

    # -- the inner levels ----------------------------------------------------------------
    def levels(self, m, f, r, bad):
        from mtvspec import params
        kinds = self.check_upper(m, f, r, bad)
        ps = params(f)
        off = f.nargs - len(ps)
        la = [off + i for i, p in enumerate(ps) if "vector" in p]
        aid = ("c", ("arg", la[0]), 0)
        n = S("n:%r" % (aid,))

        def miss(t, st):
            m.unk[("rounds", f.where)] = "rounds of the loop over a level not understood"
        for k, st, v in m.steps:
            cons = st.dom.constraints()
            if k == "throw":
                continue
            up = [e for e in st.m.events if e[0] == "call" and e[1] == "upper"]
            if not up:
                if feasible(lin.Dom(), cons + [ge(n, const(2))]):
                    bad("a level of several nodes gets no level above it", st)
                one = feasible(lin.Dom(), cons + [("eq", sub(n, ONE))])
                if one and not (is_ptr(v) and (v[1] == ("d", ("arr", aid), Z))):
                    bad("the only node of a level is not the root", st)
                continue
            if not (is_ptr(v) and v[1][0] == "made"):
                bad("the root that is returned is not that of the levels above", st)
            lp = [i for i, e in enumerate(st.m.events) if e[0] == "loop"]
            ev = st.m.events[(lp[-1] + 1 if lp else 0):]
            # rounds that do not come in pairs: the count of the nodes says nothing about which were left
            paired = bool(lp) and m.gens[st.m.events[lp[-1]][1] - 1][4] == 2
            lists = [a for a in up[-1][2] if is_ptr(a) and a[1][0] == "a" and (a[1], a[2][0]) in st.m.cont]
            if len(lists) == 1:
                i = st.m.cont[(lists[0][1], lists[0][2][0])]
                if 2 * 1 and feasible(lin.Dom(), cons + [lt(lin.scale(m.csize(st, i), 2), n)]) or feasible(lin.Dom(), cons + [lt(add(n, ONE), lin.scale(m.csize(st, i), 2))]):
                    bad("the next level does not have half the nodes", st)
            if any(e[0] == "push" for e in ev):
                p = self.parent(st, ev, cons, False, bad)
                if p:
                    l, rr, P = p
                    if rr is None and l[1][0] == "d" and l[1][1] == ("arr", aid):
                        if not st.dom.eq0(sub(l[1][2], add(lin.scale(n, 8), const(-8)))):
                            (bad if paired else miss)("the last node of a level is left out", st)
            elif feasible(lin.Dom(), cons + [("ne", sub(n, lin.sym("k:%d" % st.m.events[lp[-1]][1], 2)))] if lp else cons):
                (bad if paired else miss)("the last node of a level is left out", st)

    def check_upper(self, m, f, r, bad):
        kinds = {}
        n = 0
        for g, s0, known, rs in self.groups(m):
            if any(e[0] == "push" for a, b, c in rs for e in b.m.events):
                kinds[g] = "pair"
                self.round_pair(m, g, s0, known, rs, bad, m.unk, f)
                n += len(rs)
        r["stats"]["rounds of pairing inner nodes"] = n
        return kinds
