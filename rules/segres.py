"""segment_tree: entry of a search, insertion, erasure and the iteration over the results of a query."""
import lin
from lin import const, add, sub
from absint import Fork, Stop, is_ptr, is_lin, PNULL
from segrun import TreeModel, interp, S, Z, ONE

EIGHT = 8


def sym_len(reg):
    return S("len:%r" % (reg,))


class StepModel(TreeModel):
    """containers seen through their iterators; a loop over a container is followed for one arbitrary element"""

    def __init__(self, mod, func, rec=None):
        TreeModel.__init__(self, mod, func, rec)
        self.iters = []

    # vectors: the object at (reg, off) has its elements in region ("el", reg, off)
    def elems(self, st, p):
        if not is_ptr(p) or p[2][1] and p[1][0] != "el":
            raise Stop("unknown", "container at an unknown place")
        r = ("el", p[1], p[2])
        if ("len", r) not in st.m.null:
            st.m.null[("len", r)] = True
            st.dom.set_lb("len:%r" % (r,), self.minlen(r))
        return r

    def minlen(self, r):
        return 0

    def deref(self, st, reg):
        if reg[0] in ("el", "store", "arg", "res", "map", "mapend", "chains"):
            return
        if reg[0] == "d" and reg[1][0] == "arg":
            return
        TreeModel.deref(self, st, reg)

    def isnull(self, st, reg):
        if reg[0] == "d" and reg[1][0] == "el":
            return False
        if reg[0] == "d" and reg[1][0] == "arg" and st.m.null.get(reg) is None and reg[1] != ("arg", self.tree):
            return False
        return TreeModel.isnull(self, st, reg)

    tree = -1

    def load(self, st, reg, off, ty):
        if reg[0] == "el":
            if ty == "ptr":
                return ("P", ("d", reg, off), Z)
            v = st.mem.get(reg, {}).get(off)
            return v if v is not None else S("el:%r:%r" % (reg, off))
        return TreeModel.load(self, st, reg, off, ty)

    def store(self, st, reg, off, v, ty):
        if reg[0] == "el":
            st.m.events = st.m.events + (("put", reg, off, v),)
            return
        if reg[0] == "store":
            st.m.events = st.m.events + (("set", reg[1], off, v),)
            return
        TreeModel.store(self, st, reg, off, v, ty)

    def call(self, st, ins, name, args):
        name = name or "?"
        last = name.split("::")[-1]
        if name.startswith("llvm.memset"):
            d = args[0]
            if is_ptr(d) and d[1][0] == "a" and is_lin(args[2]) and not args[2][1] and args[1] == Z:
                for k in range(0, int(args[2][0]), 8):
                    self.I.raw_store(st, d[1], d[2][0] + k, Z)
                return None
            raise Stop("unknown", name)
        if name.startswith("llvm.memcpy") and is_ptr(args[0]) and args[0][1][0] == "store":
            d, s = args[0], args[1]
            if not is_ptr(s) or s[2][1] or not is_lin(args[2]) or args[2][1]:
                raise Stop("unknown", name)
            for k in range(0, int(args[2][0]), 8):
                v = st.mem.get(s[1], {}).get(s[2][0] + k)
                st.m.events = st.m.events + (("set", d[1][1], add(d[2], const(k)), v),)
            return None
        if name.startswith(("std::shared_ptr::", "std::__shared_ptr")):
            if last == "operator bool":
                r = st.m.null.get("chains")
                if r is None:
                    def setter(v):
                        def g(s):
                            s.m.null["chains"] = v
                            return True
                        return g
                    raise Fork([setter(True), setter(False)])
                return ONE if r else Z
            if last in ("operator->", "operator*", "get"):
                if st.m.null.get("chains") is False:
                    raise Stop("bug", "the chains of an empty result are used")
                return ("P", ("chains",), Z)
            return None
        if name.startswith("std::vector::"):
            if last in ("begin", "cbegin"):
                return ("P", self.elems(st, args[0]), Z)
            if last in ("end", "cend"):
                r = self.elems(st, args[0])
                return ("P", r, lin.scale(sym_len(r), EIGHT))
            if last == "size":
                return sym_len(self.elems(st, args[0]))
            if last == "front":
                return ("P", self.elems(st, args[0]), Z)
            if last == "back":
                r = self.elems(st, args[0])
                return ("P", r, lin.scale(add(sym_len(r), const(-1)), EIGHT))
            if last in ("operator[]", "at"):
                return ("P", self.elems(st, args[0]), lin.scale(args[1], EIGHT))
            if last == "pop_back":
                st.m.events = st.m.events + (("pop", self.elems(st, args[0])),)
                return None
            if last == "erase" and len(args) == 2:
                p = self.argptr(st, args[1])
                st.m.events = st.m.events + (("del", self.elems(st, args[0]), p[2]),)
                return p
        if name == "std::deque::operator[]" or name == "std::deque::at":
            return ("P", ("store", args[1]), Z)
        if name == "std::deque::emplace_back" or name == "std::deque::push_back":
            vs = []
            for a in args[1:]:
                if is_ptr(a) and not a[2][1]:
                    c = st.mem.get(a[1], {})
                    ks = sorted(k for k in c if k >= a[2][0])
                    vs += [c[k] for k in ks] if len(args) == 2 else [c.get(a[2][0])]
                else:
                    vs.append(a)
            st.m.events = st.m.events + (("append", args[0], tuple(vs)),)
            return ("P", ("store", S("last")), Z) if ins.a[0] != "void" else None
        if name in ("std::map::find", "std::map::end", "std::map::erase", "std::map::cend"):
            if last in ("end", "cend"):
                return ("P", ("mapend",), Z)
            if last == "find":
                k = self.keyof(st, args[1])
                r = st.m.null.get(("map", k))
                if r is None:
                    def setter(v):
                        def g(s):
                            s.m.null[("map", k)] = v
                            return True
                        return g
                    raise Fork([setter(True), setter(False)])
                return ("P", ("map", k) if r else ("mapend",), Z)
            a = args[1]
            if is_ptr(a) and a[1][0] not in ("map", "mapend"):
                b = st.mem.get(a[1], {}).get(a[2][0]) if not a[2][1] else None
                a = b if b is not None else a
            if is_ptr(a) and a[1][0] == "map":
                a = a[1][1]
            st.m.events = st.m.events + (("unmap", a),)
            return a if False else (None if ins.a[0] == "void" else self.I.unknown(st, ins.id, ins.a[0]))
        if name.startswith("std::_Rb_tree_") and last in ("operator->", "operator*"):
            p = self.argptr(st, args[0])
            if p[1] == ("mapend",):
                raise Stop("bug", "an entry that does not exist is used")
            return p
        if name == "std::find":
            b, e = self.argptr(st, args[0]), self.argptr(st, args[1])
            k = self.keyof(st, args[2])
            if b[1] != e[1] or b[2][1] or b[2][0] < 0 or e[2] != lin.scale(sym_len(b[1]), EIGHT):
                raise Stop("unknown", "search in a part of a container")
            lo = b[2][0] // EIGHT
            r = st.m.null.get(("find", b[1], k))
            if r is None:
                f = "at:%r:%r" % (b[1], k)

                def yes(s):
                    s.m.null[("find", b[1], k)] = True
                    s.dom.set_lb(f, lo)
                    s.dom.add_ge0(sub(add(sym_len(b[1]), const(-1)), S(f)))
                    return not s.dom.bad

                def no(s):
                    s.m.null[("find", b[1], k)] = False
                    if lo:
                        s.m.null[("part", b[1], k)] = True
                    return True
                raise Fork([yes, no])
            return ("P", b[1], lin.scale(S("at:%r:%r" % (b[1], k)), EIGHT)) if r else e
        if name.startswith("std::invalid_argument") or name.startswith("std::runtime_error"):
            return None
        return TreeModel.call(self, st, ins, name, args)

    def argptr(self, st, p):
        """an iterator, passed directly or through a temporary"""
        if is_ptr(p) and p[1][0] == "a" and not p[2][1]:
            b = st.mem.get(p[1], {}).get(p[2][0])
            if b is not None and is_ptr(b):
                return b
        if not is_ptr(p):
            raise Stop("unknown", "iterator at an unknown place")
        return p

    def keyof(self, st, p):
        if is_lin(p):
            return p
        v = self.load(st, p[1], p[2], "i64")
        if not is_lin(v):
            raise Stop("unknown", "unknown key")
        return v

    def generalise(self, st, snap, head, new, it):
        d = {}
        for i, v in new.items():
            o = snap.env.get(i)
            if o is None:
                raise Stop("unknown", "loop not understood")
            if o != v:
                d[i] = (o, v)
        for reg, c in st.mem.items():
            b = snap.mem.get(reg)
            if b is None or reg[0] not in ("a", "arg"):
                continue
            for o, v in c.items():
                if o in b and b[o] != v:
                    d[(reg, o)] = (b[o], v)
        moved = [x for x in d.values() if is_ptr(x[0]) and is_ptr(x[1]) and x[0][1] == x[1][1] and x[0][1][0] == "el"
                 and sub(x[1][2], x[0][2]) == const(EIGHT)]
        rest = [x for x in d.values() if x not in moved]
        if len(moved) != 1 or moved[0][0][2] != const(EIGHT * it) or len(rest) > 1 or any(not is_lin(x[0]) or not is_lin(x[1]) for x in rest):
            raise Stop("unknown", "loop not understood")
        if it == 0:
            return None              # the second round sees a state left by another round
        self.iters.append((st.copy(), snap, moved[0][0], rest[0] if rest else None))
        return []

    def forget(self):
        TreeModel.forget(self)
        self.iters = []


def entry(seg):
    from segrun import Node
    got = seg.recursive("g_search", lambda s: True)
    if len(got) != 1:
        seg.res.append(seg.missing("entry of a search", "g_search"))
        return
    o = seg.o
    valid, root = o[("tree", "m_valid_tree")], o[("tree", "m_root_node")]
    f = seg.drv["g_search"]

    def setup(m, st):
        m.tree = 1
        st.env[2] = S("p")
    m = interp(seg.mod, f, StepModel(seg.mod, f, got[0][1]), setup, seg.deadline)
    r, bad = seg.result("entry of a search", f, m)
    rr = ("d", ("arg", 1), root)
    for k, st, v in m.steps:
        vis = [e for e in st.m.events if e[0] == "visit"]
        if k == "throw":
            bad("a search fails with an exception", st)
            continue
        fl = st.mem.get(("arg", 1), {}).get(valid, S("m:%r:%d" % (("arg", 1), valid)))
        from quadrun import feasible
        cons = st.dom.constraints()
        can = feasible(lin.Dom(), list(cons) + [("ge", add(fl, const(-1)))])
        null = st.m.null.get(rr)
        if any(w[0] == ("arg", 1) for w in st.m.writes):
            bad("a search changes the tree", st)
        if can and null is not True and len(vis) != 1:
            bad("the search enters a valid tree %d times" % len(vis), st)
        for e in vis:
            if not any(is_ptr(a) and a[1] == rr for a in e[1]):
                bad("the search starts somewhere else than at the root", st)
            elif null is not False:
                bad("the search enters a tree without a root", st)
            if not any(val(st, a) == S("p") for a in e[1]):
                bad("the search looks for another point", st)
            if feasible(lin.Dom(), list(cons) + [("ge", lin.scale(fl, -1))]):
                bad("the search enters a tree that is out of date", st)


def val(st, a):
    if is_ptr(a):
        return st.mem.get(a[1], {}).get(a[2][0]) if not a[2][1] else None
    return a


def insert(seg):
    from quadrun import feasible
    f = seg.drv["g_insert"]
    o = seg.o

    def setup(m, st):
        st.env[1], st.env[2], st.env[3] = S("s"), S("e"), S("v")
    m = interp(seg.mod, f, StepModel(seg.mod, f), setup, seg.deadline)
    r, bad = seg.result("insertion of a segment", f, m)
    for k, st, v in m.steps:
        cons = list(st.dom.constraints())
        ap = [e for e in st.m.events if e[0] == "append"]
        good = [("ge", add(sub(S("e"), S("s")), const(-1)))]
        if k == "throw":
            if feasible(lin.Dom(), cons + good):
                bad("a proper segment is rejected", st)
            if ap:
                bad("a rejected segment is stored", st)
            continue
        if feasible(lin.Dom(), cons + [("ge", sub(S("s"), S("e")))]):
            bad("an empty or reversed segment is accepted", st)
        if len(ap) != 1 or ap[0][1] != ("P", ("arg", 0), const(o[("tree", "m_segment_store")])) or ap[0][2] != (S("s"), S("e"), S("v")):
            bad("the segment is not stored as it was given", st)
        if st.mem.get(("arg", 0), {}).get(o[("tree", "m_valid_tree")]) != Z:
            bad("the tree still counts as up to date after an insertion", st)


def erase(seg):
    from quadrun import feasible
    f = seg.drv["g_erase"]
    o = seg.o

    def setup(m, st):
        m.tree = 0
    m = interp(seg.mod, f, StepModel(seg.mod, f), setup, seg.deadline)
    r, bad = seg.result("erasure of a segment", f, m)
    valid, mp = o[("tree", "m_valid_tree")], o[("tree", "m_tagged_nodes_map")]
    sets = None
    for k, st, v in m.steps:
        if k == "throw":
            bad("erasure fails with an exception", st)
            continue
        cons = list(st.dom.constraints())
        s = [e for e in st.m.events if e[0] == "set"]
        pos = {e[1] for e in s}
        if len(pos) != 1 or {e[2]: e[3] for e in s} != {const(x): Z for x in range(0, seg.elemsize(), 8)}:
            bad("the erased segment is not removed from the store", st)
            continue
        pos = pos.pop()
        if not pos[1] or "el:" not in str(pos) and "m:" not in str(pos):
            bad("another segment is removed from the store", st)
        fl = S("m:%r:%d" % (("arg", 0), valid))
        now = st.mem.get(("arg", 0), {}).get(valid, fl)
        un = [e for e in st.m.events if e[0] == "unmap"]
        known = st.m.null.get(("map", pos))
        if feasible(lin.Dom(), cons + [("ge", add(now, const(-1)))]):
            if known is None:
                bad("the marks of the erased segment stay in the tree", st)
            elif known and not any(isinstance(x, tuple) and x[0] == "len" and x[1][1] == ("map", pos) for x in st.m.null):
                bad("the marks of the erased segment stay in the tree", st)
            elif known and (len(un) != 1 or un[0][1] != pos):
                bad("the list of marked nodes of the erased segment is kept", st)
        if any(e[1] != pos for e in un):
            bad("the list of marked nodes of another segment is dropped", st)
    if not m.iters:
        m.unk[("no loop over the marked nodes found", f.where)] = 1
    for st, snap, ptr, rest in m.iters:
        node = ("d", ptr[1], ptr[2])
        isleaf = S("m:%r:%d" % (node, o[("node", "is_leaf")]))
        for kind, lf in (("node", 1), ("nonleaf_node", 0)):
            cons = list(st.dom.constraints()) + [("eq", sub(isleaf, const(lf)))]
            if not feasible(lin.Dom(), cons):
                continue
            ch = ("d", node, o[(kind, "value")])
            el = ("el", ch, Z)
            ev = st.m.events[len(snap.m.events):]
            mine = [e for e in ev if e[0] in ("put", "pop", "del")]
            if st.m.null.get(ch):
                if mine:
                    bad("a missing chain of marks is changed", st)
                continue
            fk = [(k[2], v) for k, v in st.m.null.items() if isinstance(k, tuple) and k[0] == "find" and k[1] == el]
            lk = [k[1] for k, v in st.m.null.items() if isinstance(k, tuple) and k[0] == "map" and v]
            if not fk or not lk or fk[0][0] != lk[0]:
                bad("the mark of the erased segment stays in a node", st)
                continue
            if not fk[0][1] and st.m.null.get(("part", el, fk[0][0])):
                bad("the mark of the erased segment may stay in a node: only a part of the marks is searched", st)
            if not fk[0][1]:
                if mine:
                    bad("a mark of another segment is removed", st)
                continue
            at = lin.scale(S("at:%r:%r" % (el, fk[0][0])), EIGHT)
            end = lin.scale(add(sym_len(el), const(-1)), EIGHT)
            lastv = S("el:%r:%r" % (el, end))
            if mine not in ([("put", el, at, lastv), ("pop", el)], [("del", el, at)]):
                bad("the mark of the erased segment is not the one that is removed", st)


class ResModel(StepModel):
    def minlen(self, r):
        return 1                    # results without chains have no vector, and only chains with marks are collected


CH = ("el", ("chains",), Z)


def inner(i8):
    return ("el", ("d", CH, i8), Z)


def results(seg):
    from quadrun import feasible
    off = {}
    for ty in seg.mod.types:
        if ty["n"].split("<")[0] in ("const_iterator_base", "search_results_base") and ty.get("m") and "mdds::segment_tree<" in str(ty.get("id", "")):
            for x in ty["m"]:
                off[(ty["n"].split("<")[0], x[0])] = x[1]
    K = "const_iterator_base"
    try:
        c, p, e = off[(K, "m_cur_chain")], off[(K, "m_cur_pos_in_chain")], off[(K, "m_end_pos")]
    except KeyError:
        seg.res.append(seg.missing("iteration over results", "g_next"))
        return
    i8, j8 = lin.scale(S("i"), EIGHT), lin.scale(S("j"), EIGHT)

    def position(m, st, end):
        st.m.null["chains"] = True
        st.dom.set_lb("i", 0)
        st.dom.set_lb("j", 0)
        A = m.elems(st, ("P", ("chains",), Z))
        B = m.elems(st, ("P", ("d", CH, i8), Z))
        st.dom.add_ge0(sub(add(sym_len(A), const(-1)), S("i")))
        st.dom.add_ge0(sub(add(sym_len(B), const(-1)), S("j")))
        if end:
            st.dom.add_eq0(sub(add(sym_len(A), const(-1)), S("i")))
            st.dom.add_eq0(sub(add(sym_len(B), const(-1)), S("j")))
        m.I.raw_store(st, ("arg", 0), c, ("P", CH, i8))
        m.I.raw_store(st, ("arg", 0), p, ("P", B, j8))
        m.I.raw_store(st, ("arg", 0), e, ONE if end else Z)

    def at(st, reg):
        q = st.mem.get(reg, {})
        return q.get(c), q.get(p), q.get(e)

    def same(cons, a, b):
        if a == b:
            return True
        if not is_ptr(a) or not is_ptr(b):
            return False
        return same_lin(cons, a[2], b[2]) and same_reg(cons, a[1], b[1])

    def same_reg(cons, x, y):
        if x == y:
            return True
        if x[0] == "el" and y[0] == "el" and x[1][0] == "d" and y[1][0] == "d" and x[2] == y[2] and x[1][1] == y[1][1]:
            return same_lin(cons, x[1][2], y[1][2])
        return False

    def same_lin(cons, x, y):
        if not is_lin(x) or not is_lin(y):
            return x == y
        d = sub(x, y)
        return not feasible(lin.Dom(), cons + [("ge", add(d, const(-1)))]) and not feasible(lin.Dom(), cons + [("ge", add(lin.scale(d, -1), const(-1)))])

    def pos(i, j, end):
        return ("P", CH, lin.scale(i, EIGHT)), ("P", inner(lin.scale(i, EIGHT)), lin.scale(j, EIGHT)), ONE if end else Z

    def expect(cons, st, got, want, bad, msg):
        g = got
        if not (same(cons, g[0], want[0]) and same(cons, g[1], want[1]) and same_lin(cons, g[2], want[2])):
            bad(msg, st)

    one = const(1)
    M = sym_len(inner(i8))
    N = sym_len(CH)
    for name, end in (("g_next", False), ("g_prev", False), ("g_prev", True)):
        if name not in seg.drv:
            continue
        f = seg.drv[name]
        m = ResModel(seg.mod, f)
        interp(seg.mod, f, m, lambda m, st: position(m, st, end), seg.deadline)
        r, bad = seg.result(("step forward" if name == "g_next" else "step backward from the end" if end else "step backward") + " through results", f, m)
        for k, st, v in m.steps:
            if k == "throw":
                bad("moving an iterator fails with an exception", st)
                continue
            cons = list(st.dom.constraints())
            if name == "g_next":
                cases = [([("ge", add(sub(M, S("j")), const(-2)))], pos(S("i"), add(S("j"), one), False), True),
                         ([("eq", add(sub(M, S("j")), const(-1))), ("ge", add(sub(N, S("i")), const(-2)))], pos(add(S("i"), one), Z, False), True),
                         ([("eq", add(sub(M, S("j")), const(-1))), ("eq", add(sub(N, S("i")), const(-1)))], pos(S("i"), S("j"), True), False)]
            elif end:
                cases = [([], pos(S("i"), S("j"), False), True)]
            else:
                pi = add(S("i"), const(-1))
                pm = sym_len(inner(lin.scale(pi, EIGHT)))
                cases = [([("ge", add(S("j"), const(-1)))], pos(S("i"), add(S("j"), const(-1)), False), True),
                         ([("eq", S("j")), ("ge", add(S("i"), const(-1)))], pos(pi, add(pm, const(-1)), False), True)]
            for c0, want, dv in cases:
                cc = cons + c0
                if not feasible(lin.Dom(), cc):
                    continue
                expect(cc, st, at(st, ("arg", 0)), want, bad, "the iterator does not move to the neighbouring segment of the results")
                if dv and v is not None:
                    w = S("el:%r:%r" % (want[1][1], want[1][2]))
                    if not is_ptr(v) or v[1][0] != "store":
                        bad("the iterator does not give the segment it has reached", st)
                    elif not same_val(cc, v[1][1], want[1], same, same_reg, same_lin):
                        bad("the iterator gives another segment than the one it has reached", st)
    for name in ("g_begin", "g_end"):
        if name not in seg.drv:
            continue
        f = seg.drv[name]
        m = ResModel(seg.mod, f)
        interp(seg.mod, f, m, lambda m, st: None, seg.deadline)
        r, bad = seg.result("the %s of the results" % ("beginning" if name == "g_begin" else "end"), f, m)
        for k, st, v in m.steps:
            if k == "throw":
                bad("access to the results fails with an exception", st)
                continue
            cons = list(st.dom.constraints())
            if st.m.null.get("chains") is False:
                if st.mem.get(("arg", 0), {}).get(e) != ONE:
                    bad("an empty result has a beginning that is not its end", st)
                continue
            if name == "g_begin":
                expect(cons, st, at(st, ("arg", 0)), pos(Z, Z, False), bad, "iteration does not begin at the first segment of the results")
            else:
                li = add(N, const(-1))
                expect(cons, st, at(st, ("arg", 0)), pos(li, add(sym_len(inner(lin.scale(li, EIGHT))), const(-1)), True), bad,
                       "the end is not behind the last segment of the results")
    f = seg.drv["g_res_size"]
    m = interp(seg.mod, f, StepModel(seg.mod, f), lambda m, st: None, seg.deadline)
    r, bad = seg.result("the number of results", f, m)
    for k, st, v in m.steps:
        if k == "throw":
            bad("counting fails with an exception", st)
        elif st.m.null.get("chains") is False and v != Z:
            bad("an empty result has a size", st)
        elif v is not None and is_lin(v) and v in (sym_len(inner(Z)), add(sym_len(inner(Z)), sym_len(inner(const(8))))):
            pass
        elif v is None or not is_lin(v) or v[1]:
            m.unk[("the size is not a sum over the chains", f.where)] = 1
        elif v != Z:
            bad("the count does not start at zero", st)
    if not m.iters:
        m.unk[("no loop over the chains found", f.where)] = 1
    for st, snap, ptr, rest in m.iters:
        n = sym_len(("el", ("d", ptr[1], ptr[2]), Z))
        if rest is None or sub(rest[1], rest[0]) != n:
            bad("a chain is not counted with its length", st)


def same_val(cons, v, ptr, same, same_reg, same_lin):
    """is the value v the element at ptr?"""
    if v == S("el:%r:%r" % (ptr[1], ptr[2])):
        return True
    if len(v[1]) != 1 or v[0]:
        return False
    nm = [k for k, c in (v[1].items() if isinstance(v[1], dict) else v[1])][0]
    if not str(nm).startswith("el:"):
        return False
    reg, off = split_name(nm)
    return reg is not None and same_reg(cons, reg, ptr[1]) and same_lin(cons, off, ptr[2])


def split_name(nm):
    import ast
    s = nm[3:]
    for i in range(len(s)):
        if s[i] == ":":
            try:
                return ast.literal_eval(s[:i]), ast.literal_eval(s[i + 1:])
            except (ValueError, SyntaxError):
                pass
    return None, None


class FlatModel(TreeModel):
    node = None

    def deref(self, st, reg):
        n = self.node
        if n is not None and reg == n.L and st.m.null.get(reg):
            raise Stop("dead", "")
        if n is not None and reg == n.R and st.m.null.get(reg):
            from quadrun import feasible
            p = S("p")
            cons = list(st.dom.constraints()) + [("ge", sub(p, n.low())), ("ge", add(sub(n.high(), p), const(-1)))] + self.ends
            if not any(feasible(lin.Dom(), cons + c) for kind, c, kids in n.shapes(st) if kind != "leaf"):
                raise Stop("dead", "")
        TreeModel.deref(self, st, reg)


def flat(seg, name, where):
    """search_tree() of flat_segment_tree: the root stands for an arbitrary node"""
    from segrun import Node, within, ok
    from quadrun import feasible
    o = seg.of
    f = seg.drv[name]
    for ty in seg.mod.types:
        if ty["n"].split("<")[0] == "const_iterator_base" and ty.get("m") and "flat_segment_tree" in str(ty.get("id", "")):
            io = {x[0]: x[1] for x in ty["m"]}
            size = ty["s"]
    if "m_pos" not in io or "m_end_pos" not in io:
        seg.res.append(seg.missing("search of a flat tree", name))
        return
    T = ("arg", 1)
    root, lf, rt = (("d", T, o[("tree", k)]) for k in ("m_root_node", "m_left_leaf", "m_right_leaf"))
    n = Node(o, root)
    p = S("p")
    ends = [("eq", sub(n.key(lf), n.low())), ("eq", sub(n.key(rt), n.high()))]
    full = name == "f_search2"

    def setup(m, st):
        m.node, m.ends = n, ends
        st.env[2] = p
        for x in (lf, rt):
            st.m.null[x] = False
    m = interp(seg.mod, f, FlatModel(seg.mod, f), setup, seg.deadline)
    r, bad = seg.result("search of a flat tree" + (" with limits" if full else ""), f, m)
    vf = "m:%r:%d" % (T, o[("tree", "m_valid_tree")])
    for k, st, d in m.steps:
        if k == "throw":
            bad("a search fails with an exception", st)
            continue
        cons0 = list(st.dom.constraints()) + ends
        if k == "descend":
            for kind, c, kids in n.shapes(st):
                cc = cons0 + c
                if kind == "leaf" or not feasible(lin.Dom(), cc):
                    continue
                if kind != "inner" or d[1] not in kids or d[2] != Z:
                    bad("the search goes on below something that is not an inner node", st)
                elif not ok(cc, [("ge", sub(kids[d[1]][0], add(p, ONE)))]) or not ok(cc, [("ge", sub(p, kids[d[1]][1]))]):
                    bad("the search goes on below a child whose interval does not contain the key", st)
            continue
        out = st.mem.get(("arg", 0), {})
        pos, endf = out.get(io["m_pos"]), out.get(io["m_end_pos"])
        found = out.get((size + 7) // 8 * 8) if full else endf if endf is None else sub(ONE, endf)
        if found not in (Z, ONE) or endf not in (Z, ONE):
            m.unk[("the answer of the search is not a constant", where)] = 1
            continue
        valid = st.m.null.get(root) is not True
        inside = within(p, (n.low(), n.high()))
        if found == Z:
            if endf != ONE:
                bad("a failed search gives an iterator that is not the end", st)
            if not valid:
                continue
            for kind, c, kids in n.shapes(st):
                if kind != "leaf" and feasible(lin.Dom(), cons0 + c + inside + [("ge", add(S(vf), const(-1)))]):
                    bad("the search fails although the key lies in the range of a valid tree", st)
                    break
            continue
        if st.m.null.get(root) is not False or feasible(lin.Dom(), cons0 + [("ge", lin.scale(S(vf), -1))]):
            bad("the search succeeds on a tree that is not up to date", st)
            continue
        for kind, c, kids in n.shapes(st):
            if kind == "leaf":
                continue
            cc = cons0 + c
            if not feasible(lin.Dom(), cc):
                continue
            if kind != "over leaves" or not is_ptr(pos) or pos[1] not in kids or pos[2] != Z:
                bad("the search ends at something that is not a leaf of the node", st)
                continue
            iv = kids[pos[1]]
            if not ok(cc, [("ge", sub(iv[0], add(p, ONE)))]) or not ok(cc, [("ge", sub(p, iv[1]))]):
                bad("the search ends at a leaf whose interval does not contain the key", st)
            if endf != Z:
                bad("a successful search gives the end iterator", st)
            if not full:
                continue
            lv = S("m:%r:%d" % (pos[1], o[("node", "value")]))
            nx = ("d", pos[1], o[("node", "next")])
            got = [st.mem.get(("arg", i), {}).get(0) for i in (3, 4, 5)]
            if got[0] != lv:
                bad("the value of another leaf is given", st)
            if got[1] != n.key(pos[1]):
                bad("the given start is not the key of the leaf", st)
            if not st.m.null.get(nx) and got[2] != n.key(nx):
                bad("the given end is not the key of the next leaf", st)


def flat_all(mod, deadline=None):
    from segrun import Seg
    s = Seg(mod, deadline)
    s.build("f_build", s.of, False)
    for name in ("f_search", "f_search2"):
        flat(s, name, s.drv[name].where)
    return s.res
