"""segment_tree and flat_segment_tree: the balanced tree over the leaves, decided node by node.

Each node stands for a key interval: a leaf for [its key, key of the next leaf), an inner node for [low, high).  One
step of building, marking and searching is interpreted at an arbitrary node whose intervals are arranged as the
builder arranges them; the obligations of the steps add up, by induction over the tree, to: a query meets the mark
of a segment exactly once when the segment contains the point and never otherwise.
"""
import re
import lin
from lin import const, add, sub
from absint import Interp, Fork, Stop, fresh, new_state, is_ptr, is_lin, PNULL
from quadrun import NodeModel, QM, feasible, local

Z, ONE = lin.ZERO, const(1)
S = lin.sym


def ge(a, b):
    return ("ge", sub(a, b))


def lt(a, b):
    return ("ge", add(sub(b, a), const(-1)))


def layout(mod, owner):
    """member offsets of the leaf and inner nodes of one container"""
    o = {}
    for ty in mod.types:
        if not ty.get("m") or owner not in str(ty.get("id", "")):
            continue
        nm = ty["n"].split("<")[0]
        if nm in ("node", "nonleaf_node") and ty.get("sc") == "detail":
            for m in ty["m"]:
                if m[0] == "<base>":
                    for b in mod.types[mod.strip(m[3])].get("m", []):
                        o[(nm, b[0])] = b[1] + m[1]
                else:
                    o[(nm, m[0])] = m[1]
                    if m[0].startswith("value"):
                        o[(nm, "value")] = m[1]
            o[(nm, "size")] = ty["s"]
        if nm in ("segment_tree", "flat_segment_tree"):
            for m in ty["m"]:
                o[("tree", m[0])] = m[1]
    for k in (("node", "key"), ("node", "next"), ("node", "is_leaf"), ("nonleaf_node", "low"), ("nonleaf_node", "high"), ("nonleaf_node", "left"),
              ("nonleaf_node", "right"), ("nonleaf_node", "parent")):
        if k not in o:
            raise KeyError("member %s of %s" % (k[1], k[0]))
    return o


class TreeModel(NodeModel):
    """pointers to nodes, chains of marks (owned vectors) and result lists"""

    def initial(self, st, reg, off, ty):
        if ty in ("i8", "i1") and reg[0] != "new":
            s = S("m:%r:%d" % (reg, off))
            st.dom.set_lb("m:%r:%d" % (reg, off), 0)
            st.dom.add_ge0(sub(ONE, s))
            return s
        return NodeModel.initial(self, st, reg, off, ty)

    def cellptr(self, st, p):
        """the pointer held by a smart pointer"""
        if not is_ptr(p) or p[2][1]:
            raise Stop("unknown", "smart pointer at an unknown place")
        self.deref(st, p[1])
        return self.I.raw_load(st, p[1], p[2][0], "ptr")

    def isnullv(self, st, v):
        if not is_ptr(v):
            return True
        return self.isnull(st, v[1])

    def call(self, st, ins, name, args):
        name = name or "?"
        last = name.split("::")[-1]
        if name.startswith("std::unique_ptr::"):
            if last == "unique_ptr":
                if len(args) > 1:
                    self.put(st, args[0][1], args[0][2][0], args[1] if not is_ptr(args[1]) or args[1][1][0] != "a" else self.take(st, args[1]))
                else:
                    self.put(st, args[0][1], args[0][2][0], PNULL)
                return None
            if last == "~unique_ptr":
                return None
            if last == "operator=":
                self.put(st, args[0][1], args[0][2][0], self.take(st, args[1]))
                return args[0]
            if last == "reset":
                self.put(st, args[0][1], args[0][2][0], args[1] if len(args) > 1 else PNULL)
                return None
            v = self.cellptr(st, args[0])
            if last == "operator bool":
                return Z if self.isnullv(st, v) else ONE
            if last == "get":
                return v
            if last in ("operator->", "operator*"):
                if self.isnullv(st, v):
                    raise Stop("bug", "a chain of marks is used before it is created")
                return v
            raise Stop("unknown", name)
        if name == "std::vector::empty":
            return ONE if self.isempty(st, args[0]) else Z
        if name in ("std::vector::push_back", "std::vector::emplace_back") and is_ptr(args[1]):
            a = args[1]
            v = st.mem.get(a[1], {}).get(a[2][0]) if not a[2][1] else None
            if v is None and not a[2][1]:
                if "*" in self.mod.ftab[ins.a[1]][1].split("(")[-1]:
                    v = self.I.raw_load(st, a[1], a[2][0], "ptr")
                else:
                    v = self.I.raw_load(st, a[1], a[2][0], "i64")
            st.m.events = st.m.events + (("push", args[0], v),)
            return None
        return NodeModel.call(self, st, ins, name, args)

    def take(self, st, p):
        v = self.cellptr(st, p)
        self.put(st, p[1], p[2][0], PNULL)
        return v

    def isempty(self, st, p):
        r = st.m.null.get(("empty", p[1]))
        if r is None:
            def setter(v):
                def g(s):
                    s.m.null[("empty", p[1])] = v
                    return True
                return g
            raise Fork([setter(True), setter(False)])
        return r


def interp(mod, f, model, setup, deadline=None):
    it = Interp(f, model, max_paths=20000, max_unroll=6, max_steps=3000000)
    st = new_state(QM())
    for i in range(f.nargs):
        st.env[i] = ("P", ("arg", i), Z)
    setup(model, st)
    it.run(st, None, deadline)
    if it.exhausted:
        model.unk[("time limit", f.where)] = it.exhausted
    model.nsteps = it.steps
    return model


ROOT = ("d", ("root",), 0)


class Node:
    """an arbitrary node and its children, with the arrangement of intervals the builder produces"""

    def __init__(self, o, reg=ROOT):
        self.o, self.reg = o, reg
        self.isleaf = S("m:%r:%d" % (reg, o[("node", "is_leaf")]))
        self.L = ("d", reg, o[("nonleaf_node", "left")])
        self.R = ("d", reg, o[("nonleaf_node", "right")])

    def f(self, reg, kind, m):
        return S("m:%r:%d" % (reg, self.o[(kind, m)]))

    def low(self, reg=None):
        return self.f(reg or self.reg, "nonleaf_node", "low")

    def high(self, reg=None):
        return self.f(reg or self.reg, "nonleaf_node", "high")

    def key(self, reg=None):
        return self.f(reg or self.reg, "node", "key")

    def leaf(self, reg):
        return self.f(reg, "node", "is_leaf")

    def shapes(self, st):
        """the possible kinds of node this state stands for: (kind, constraints, {child region: (from, to)})

        kinds: leaf, over leaves (one or two), over inner nodes (one or two)"""
        out = []
        nl, nr = st.m.null.get(self.L), st.m.null.get(self.R)
        base = [("eq", sub(self.isleaf, ONE))]
        out.append(("leaf", base, None))
        inner = [("eq", self.isleaf)]
        if nl:
            return out               # an inner node always has a left child
        for lf in (1, 0):
            for two in (True, False):
                if nr is not None and nr == two:
                    continue
                c = inner + [("eq", sub(self.leaf(self.L), const(lf)))]
                if lf:
                    k1 = self.key(self.L)
                    c += [("eq", sub(self.low(), k1))]
                    if two:
                        k2 = self.key(self.R)
                        c += [("eq", sub(self.leaf(self.R), ONE)), lt(k1, k2), ge(self.high(), k2)]
                        kids = {self.L: (k1, k2), self.R: (k2, self.high())}
                    else:
                        c += [("eq", sub(self.high(), k1))]
                        kids = {self.L: (k1, self.high())}
                else:
                    c += [("eq", sub(self.low(), self.low(self.L))), ge(self.high(self.L), self.low(self.L))]
                    if two:
                        c += [("eq", self.leaf(self.R)), ("eq", sub(self.low(self.R), self.high(self.L))), ge(self.high(self.R), self.low(self.R)),
                              ("eq", sub(self.high(), self.high(self.R)))]
                        kids = {self.L: (self.low(self.L), self.high(self.L)), self.R: (self.low(self.R), self.high(self.R))}
                    else:
                        c += [("eq", sub(self.high(), self.high(self.L)))]
                        kids = {self.L: (self.low(self.L), self.high(self.L))}
                out.append(("over leaves" if lf else "inner", c, kids))
        return out


def within(p, iv):
    return [ge(p, iv[0]), lt(p, iv[1])]


def ok(cons, more):
    return not feasible(lin.Dom(), list(cons) + list(more))


class Seg:
    def __init__(self, mod, deadline=None):
        self.mod, self.deadline = mod, deadline
        self.res = []
        self.drv = {}
        for j in mod.raw:
            m = re.match(r"drv::([gfn]_\w+)$", mod.ftab[j["f"]][2])
            if m:
                self.drv[m.group(1)] = mod.func(j)
        self.o = layout(mod, "mdds::segment_tree<long")
        self.of = layout(mod, "mdds::flat_segment_tree<long")

    def result(self, label, f, m):
        where = f.where
        if "include/mdds" not in where:
            for i in f.instrs():
                w = self.mod.loc_str(i.loc)
                if w.startswith("include/mdds"):
                    where = w
                    break
        r = {"label": label, "where": where, "viol": [("bug", x, w, p) for x, w, p in m.viol], "unknown": m.unk,
             "stats": {"ret": len(m.steps)}, "paths": m.paths, "steps": m.nsteps}
        self.res.append(r)

        def bad(msg, st=None):
            r["viol"].append(("content", msg, where, m.path(st) if st is not None else []))
        return r, bad

    def recursive(self, name, pick):
        """recursive functions called from a driver function, directly or through other functions"""
        seen, todo, out = set(), [self.drv[name]], []
        byf = {j["f"]: j for j in self.mod.raw}
        while todo:
            f = todo.pop()
            for i in f.instrs():
                if i.op in ("call", "invoke") and i.a[1].__class__ is int and i.a[1] in byf and i.a[1] not in seen:
                    seen.add(i.a[1])
                    g = self.mod.func(byf[i.a[1]])
                    if any(x.op in ("call", "invoke") and x.a[1] == i.a[1] for x in g.instrs()):
                        out.append((g, i.a[1]))
                    todo.append(g)
        return [x for x in out if pick(x[0].sig())]

    # -- search: which marks a query meets ---------------------------------------------
    def search(self):
        got = self.recursive("g_search", lambda s: True)
        if len(got) != 1:
            self.res.append(self.missing("search of the tree", "g_search"))
            return
        g, t = got[0]
        from mtvspec import params
        ps = params(g)
        off = g.nargs - len(ps)
        n = Node(self.o)

        def setup(m, st):
            for i, p in enumerate(ps):
                if "node" in p and "*" in p:
                    st.env[off + i] = ("P", ROOT, Z)
                    st.m.null[ROOT] = False
                elif p.strip() == "long" or p.strip().endswith("::key_type"):
                    st.env[off + i] = S("p")
        m = interp(self.mod, g, TreeModel(self.mod, g, t), setup, self.deadline)
        r, bad = self.result("search, one node", g, m)
        self.where = g.where
        p = S("p")
        for k, st, d in m.steps:
            vis = [self.child(a, n) for e in st.m.events if e[0] == "visit" for a in e[1] if is_ptr(a) and a[1][0] == "d" and self.child(a, n)]
            other = [e for e in st.m.events if e[0] == "visit" and not any(is_ptr(a) and self.child(a, n) for a in e[1])]
            if k == "descend":
                c = self.child(d, n)
                vis, other = ([c], []) if c else ([], [d])
            if other:
                m.unk[("recursion on something other than a child", g.where)] = 1
                continue
            for e in st.m.events:
                if e[0] == "visit" and not any(self.I0(st, a) == p for a in e[1]):
                    bad("the search goes on with another point", st)
            pushed = [e[2] for e in st.m.events if e[0] == "push"]
            cons = st.dom.constraints()
            for kind, c, kids in n.shapes(st):
                cc = list(cons) + c
                if not feasible(lin.Dom(), cc):
                    continue
                if k == "throw":
                    bad("a search fails with an exception", st)
                    continue
                cell = n.reg, self.o[("node" if kind == "leaf" else "nonleaf_node", "value")]
                chain = ("d",) + cell
                mine = [x for x in pushed if is_ptr(x) and x[1] == chain]
                if len(mine) != len(pushed):
                    bad("something other than the marks of the node is reported", st)
                    continue
                here = [] if kind == "leaf" else within(p, (n.low(), n.high()))
                gone = st.m.null.get(chain) or st.m.null.get(("empty", chain))
                if kind == "leaf":
                    if vis:
                        bad("the search goes on below a leaf", st)
                    if len(mine) > 1 or not mine and not gone:
                        bad("the marks of a leaf that is reached are reported %d times" % len(mine), st)
                    continue
                if mine and not ok(cc, [lt(p, n.low())]) or mine and not ok(cc, [ge(p, n.high())]):
                    bad("the marks of a node are reported for a point outside its interval", st)
                if feasible(lin.Dom(), cc + here):
                    if len(mine) > 1 or not mine and not gone:
                        bad("the marks of a node whose interval contains the point are reported %d times" % len(mine), st)
                    if len(vis) != len(set(vis)):
                        bad("the search follows a child twice", st)
                    for q, iv in kids.items():
                        inq = feasible(lin.Dom(), cc + here + within(p, iv))
                        if inq and q not in vis:
                            bad("the search does not follow the child whose interval contains the point", st)
                for q in vis:
                    if q not in kids:
                        bad("the search follows a child that does not exist", st)
                        continue
                    for out in ([lt(p, kids[q][0])], [ge(p, kids[q][1])]):
                        if kids[q] and kind == "over leaves" and not ok(cc, out):
                            bad("the search reaches a leaf whose interval does not contain the point", st)
                            break

    def child(self, a, n):
        if is_ptr(a) and a[2] == Z and a[1] in (n.L, n.R):
            return a[1]
        return None

    def missing(self, label, name):
        return {"label": label, "where": self.drv[name].where, "viol": [], "unknown": {("no recursive function found", self.drv[name].where): 1},
                "stats": {}, "paths": 0, "steps": 0}

    # -- building: which nodes a segment marks ------------------------------------------
    def mark(self):
        got = self.recursive("g_build", lambda s: s.count("long") >= 2 and "node_base" in s)
        if len(got) != 1:
            self.res.append(self.missing("marking of a segment", "g_build"))
            return
        g, t = got[0]
        from mtvspec import params
        ps = params(g)
        off = g.nargs - len(ps)
        n = Node(self.o)
        ks = []

        def setup(m, st):
            for i, p in enumerate(ps):
                q = p.strip()
                if "node_base" in q and q.endswith("*"):
                    st.env[off + i] = ("P", ROOT, Z)
                elif q.startswith("long"):
                    nm = ("s", "e")[len(ks) % 2]
                    ks.append(nm)
                    if q.endswith("&"):
                        m.I.raw_store(st, ("arg", off + i), 0, S(nm))
                    else:
                        st.env[off + i] = S(nm)
                elif q.startswith("unsigned long"):
                    st.env[off + i] = S("id")
        m = TreeModel(self.mod, g, t)
        interp(self.mod, g, m, setup, self.deadline)
        r, bad = self.result("marking of a segment, one node", g, m)
        s, e, p = S("s"), S("e"), S("p")
        inseg = [ge(p, s), lt(p, e)]
        lst = [off + i for i, q in enumerate(ps) if "vector" in q]
        for k, st, d in m.steps:
            cons = list(st.dom.constraints()) + [lt(s, e)]
            if st.m.null.get(ROOT):
                if st.m.events:
                    bad("a missing node is marked", st)
                continue
            vis = []
            unk = False
            for ev in st.m.events:
                if ev[0] != "visit":
                    continue
                q = [self.child(a, n) for a in ev[1] if self.child(a, n)]
                if len(q) != 1:
                    unk = True
                    continue
                vis.append(q[0])
                for i, a in enumerate(ev[1]):
                    w = st.env.get(i) if i in lst else None
                    if i - off >= 0 and i < len(ev[1]):
                        q2 = ps[i - off].strip()
                        if q2.startswith("unsigned long") and a != S("id"):
                            bad("the search for nodes to mark goes on with another segment", st)
                        if q2.startswith("long"):
                            v = self.I0(st, a)
                            nm = S(ks[[j for j, z in enumerate(ps) if z.strip().startswith("long")].index(i - off)])
                            if v != nm:
                                bad("the search for nodes to mark goes on with another interval", st)
            if unk or k == "descend":
                m.unk[("recursion on something other than a child", g.where)] = 1
                continue
            push = [(x[1], x[2]) for x in st.m.events if x[0] == "push"]
            for kind, c, kids in n.shapes(st):
                cc = cons + c
                if not feasible(lin.Dom(), cc):
                    continue
                if k == "throw":
                    bad("marking fails with an exception", st)
                    continue
                cell = self.o[("node" if kind == "leaf" else "nonleaf_node", "value")]
                chain = st.mem.get(ROOT, {}).get(cell, ("P", ("d", ROOT, cell), Z))
                mk = [x for x in push if is_ptr(x[0]) and x[0][1] == chain[1] and x[1] == S("id")]
                lists = [x for x in push if is_ptr(x[0]) and x[0][1] in [("arg", i) for i in lst] and is_ptr(x[1]) and x[1][1] == ROOT]
                if len(mk) + len(lists) != len(push):
                    bad("something other than the segment is recorded", st)
                    continue
                if len(mk) != len(lists) or len(mk) > 1:
                    bad("a node is marked %d times and remembered %d times" % (len(mk), len(lists)), st)
                    continue
                if kind == "leaf":
                    if vis:
                        bad("marking goes on below a leaf", st)
                    want = [ge(n.key(), s), lt(n.key(), e)]
                    if mk:
                        if not ok(cc, [lt(n.key(), s)]) or not ok(cc, [ge(n.key(), e)]):
                            bad("a leaf outside the segment is marked", st)
                    elif feasible(lin.Dom(), cc + want):
                        bad("a leaf inside the segment is not marked", st)
                    continue
                iv = within(p, (n.low(), n.high()))
                if mk:
                    if vis:
                        bad("the children of a marked node are marked too", st)
                    if not ok(cc, iv + [lt(p, s)]) or not ok(cc, iv + [ge(p, e)]):
                        bad("a node is marked although the segment does not cover its interval", st)
                    continue
                if len(vis) != len(set(vis)):
                    bad("a child is visited twice", st)
                for q, civ in kids.items():
                    if q in vis:
                        continue
                    if feasible(lin.Dom(), cc + within(p, civ) + inseg):
                        bad("a child that the segment reaches into is not visited", st)

    def I0(self, st, a):
        if is_ptr(a) and not a[2][1]:
            return st.mem.get(a[1], {}).get(a[2][0])
        return a

    # -- building the tree -----------------------------------------------------------------
    def elemsize(self):
        for ty in self.mod.types:
            if ty["n"].split("<")[0] == "segment_type" and ty.get("s"):
                return ty["s"]
        return 24

    def build(self, name, o, marks):
        import segbuild
        from mtvspec import params
        rec = self.recursive(name, lambda s: True)
        names, up, mk = {}, None, {}
        for f, t in rec:
            ps = params(f)
            off = f.nargs - len(ps)
            if any("vector" in p for p in ps) and not any("long" in p for p in ps):
                names[t], up = "upper", f
            elif f.sig().count("long") >= 3:
                names[t] = "mark"
                ks = []
                for i, p in enumerate(ps):
                    q = p.strip()
                    if "node_base" in q:
                        mk["node"] = off + i
                    elif q.startswith("unsigned long"):
                        mk["id"] = off + i
                    elif q.startswith("long"):
                        mk["start" if "start" not in mk else "end"] = off + i
                    elif "vector" in q:
                        mk["list"] = off + i
        if up is None or marks and len(mk) < 5:
            self.res.append(self.missing("building", name))
            return
        B = segbuild.Build(self, o, marks)
        objs = {(("arg", 0), o[("tree", "m_nonleaf_node_pool")]): o[("nonleaf_node", "size")]}
        f = self.drv[name]
        m = segbuild.start(self.mod, f, names, self.elemsize(), objs, self.deadline)
        m.mark_names = mk
        r, bad = self.result("building, all rounds of all loops" + ("" if marks else " (flat)"), f, m)
        B.check(m, r, bad, f)
        if marks and not {"rounds of keys", "rounds of pair", "rounds of mark", "rounds of chain"} <= set(r["stats"]):
            m.unk[("a step of building was not recognised: %s" % sorted(r["stats"]), f.where)] = 1
        m = segbuild.start(self.mod, up, names, self.elemsize(), objs, self.deadline)
        r, bad = self.result("building of the inner levels" + ("" if marks else " (flat)"), up, m)
        B.levels(m, up, r, bad)

    def all(self):
        self.search()
        self.mark()
        self.build("g_build", self.o, True)
        import segres
        segres.entry(self)
        segres.insert(self)
        segres.erase(self)
        segres.results(self)
        return self.res
