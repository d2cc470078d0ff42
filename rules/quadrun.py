"""point_quad_tree: insertion, lookup and traversal decided node by node.

One step of each operation is interpreted at an arbitrary node.  The step of insert() defines, for every child
link, the region of the plane whose points end up behind that link; lookups and searches are then checked
against these regions: a point behind a link that is not followed must not be a point that is looked for.
"""
import re
import lin
from lin import const, add, sub
from absint import Interp, Model, Fork, Stop, fresh, new_state, is_ptr, is_lin, PNULL

Z, ONE = lin.ZERO, const(1)
S = lin.sym


class QM:
    __slots__ = ("null", "writes", "events", "n", "rd")

    def __init__(self):
        self.null = {}
        self.writes = ()
        self.events = ()
        self.n = 0
        self.rd = ()

    def copy(self):
        s = QM.__new__(QM)
        s.null = dict(self.null)
        s.writes, s.events, s.n, s.rd = self.writes, self.events, self.n, self.rd
        return s


def local(reg):
    return reg[0] in ("a", "exc")


class NodeModel(Model):
    """nodes are regions reached through pointer cells; a pointer read for the first time may be null"""

    def __init__(self, mod, func, rec=None):
        self.mod, self.func, self.rec = mod, func, rec
        self.steps = []        # (kind, state, detail)
        self.unk = {}
        self.viol = []
        self.paths = 0

    def initial(self, st, reg, off, ty):
        if reg[0] == "new":
            return PNULL if ty == "ptr" else Z
        if ty == "ptr":
            return ("P", ("d", reg, off), Z)
        st.m.rd = st.m.rd + ((reg, off),)
        return S("m:%r:%d" % (reg, off))

    def isnull(self, st, reg):
        """is the pointer value that designates region reg null?"""
        if reg[0] != "d":
            return False
        r = st.m.null.get(reg)
        if r is None:
            def t(s):
                s.m.null[reg] = True
                return True

            def f(s):
                s.m.null[reg] = False
                return True
            raise Fork([t, f])
        return r

    def cmp_ptr(self, st, pred, a, b):
        if not is_ptr(a):
            a, b = b, a
        if is_ptr(b):
            if a[1] == b[1]:
                return self.I.decide(st, pred if pred in ("eq", "ne") else "s" + pred[1:], a[2], b[2])
            na, nb = self.isnull(st, a[1]), self.isnull(st, b[1])
            if pred not in ("eq", "ne"):
                return None
            if na != nb:
                return pred == "ne"
            if na:
                return pred == "eq"
            if a[1][0] == "d" and b[1][0] == "d":
                return None
            return pred == "ne"
        if is_lin(b) and not b[1] and b[0] == 0 and pred in ("eq", "ne"):
            return self.isnull(st, a[1]) == (pred == "eq")
        return None

    def deref(self, st, reg):
        if self.isnull(st, reg):
            raise Stop("bug", "access through a null node pointer")

    def load(self, st, reg, off, ty):
        self.deref(st, reg)
        if off[1]:
            raise Stop("unknown", "memory access at a variable offset")
        return self.I.raw_load(st, reg, off[0], ty)

    def store(self, st, reg, off, v, ty):
        self.deref(st, reg)
        if off[1]:
            raise Stop("unknown", "memory access at a variable offset")
        self.put(st, reg, off[0], v)

    def put(self, st, reg, off, v):
        self.I.raw_store(st, reg, off, v)
        if not local(reg) and reg[0] != "new":
            st.m.writes = st.m.writes + ((reg, off, v),)

    def call(self, st, ins, name, args):
        name = name or "?"
        last = name.split("::")[-1]
        ty = ins.a[0]
        if name.startswith("llvm."):
            if name.startswith(("llvm.memset", "llvm.lifetime", "llvm.experimental", "llvm.dbg", "llvm.assume")):
                return None
            if name.startswith("llvm.memcpy"):
                d, s = args[0], args[1]
                if is_ptr(d) and is_ptr(s) and local(d[1]):
                    for o, v in dict(st.mem.get(s[1], {})).items():
                        self.I.raw_store(st, d[1], o - s[2][0] + d[2][0], v)
                    return None
                raise Stop("unknown", name)
            m = re.match(r"llvm\.([su])(min|max)", name)
            if m:
                g = self.I.decide_ge0(st, sub(args[0], args[1]))
                return args[0] if g == (m.group(2) == "max") else args[1]
            raise Stop("unknown", name)
        if last in ("intrusive_ptr_add_ref", "intrusive_ptr_release", "~intrusive_ptr", "~__shared_count"):
            return None
        if name == "operator new":
            st.m.n += 1
            r = ("new", st.m.n)
            st.mem[r] = {}
            return ("P", r, Z)
        if name == "operator delete":
            return None
        if name == "__cxa_throw":
            raise Stop("throw", "")
        if name == "__cxa_allocate_exception":
            return ("P", ("exc",), Z)
        if name.startswith(("std::__cxx11", "std::exception", "mdds::general_error")) or last.startswith("data_not_found"):
            if ty == "void":
                return None
            return self.I.unknown(st, ins.id, ty)
        if self.rec is not None and ins.a[1] == self.rec:
            vs = []
            for a in args:
                if is_ptr(a) and local(a[1]) and not a[2][1]:
                    b = st.mem.get(a[1], {}).get(a[2][0])
                    a = b if b is not None and is_ptr(b) else a       # passed by value through a temporary
                vs.append(a)
            st.m.events = st.m.events + (("visit", tuple(vs)),)
            return None if ty == "void" else S("ret%d" % len(st.m.events))
        if name in ("std::vector::push_back", "std::vector::emplace_back"):
            v = args[1]
            c = ()
            if is_ptr(v):
                # what the argument holds right now
                c = tuple(sorted((o, x) for o, x in st.mem.get(v[1], {}).items()))
            st.m.events = st.m.events + (("report", v, c),)
            return None if ty == "void" else ("P", ("vel", len(st.m.events)), Z)
        if name in ("std::vector::vector", "std::vector::~vector", "std::vector::clear"):
            return None
        if re.match(r"std::(__)?shared_ptr(_access)?::", name):
            return self.shared(st, ins, last, args)
        if ins.a[1].__class__ is int and self.mod.ftab[ins.a[1]][4]:
            raise Stop("throw", name)
        raise Stop("unknown", "call of " + name)

    def shared(self, st, ins, last, args):
        """std::shared_ptr holding the list of results: null or not, the object behind it is never null"""
        if last in ("shared_ptr", "__shared_ptr", "~shared_ptr", "~__shared_ptr", "swap", "operator="):
            if last in ("swap", "operator=") or len(args) > 1:
                raise Stop("unknown", "std::shared_ptr::" + last)
            return None
        if not is_ptr(args[0]):
            raise Stop("unknown", "std::shared_ptr::" + last)
        reg = args[0][1]
        if last == "reset":
            st.m.null[("sp", reg)] = len(args) < 2
            return None
        r = st.m.null.get(("sp", reg))
        if r is None:
            def setter(v):
                def g(s):
                    s.m.null[("sp", reg)] = v
                    return True
                return g
            raise Fork([setter(True), setter(False)])
        if last == "operator bool":
            return Z if r else ONE
        if r:
            raise Stop("bug", "the list of results is used before it is created")
        if last in ("operator->", "operator*", "get", "_M_get"):
            return ("P", ("spobj", reg), Z)
        raise Stop("unknown", "std::shared_ptr::" + last)

    # ---- loops: one step is enough when only the node pointer moves -----------------
    def generalise(self, st, snap, head, new, it):
        cells = []
        for i, v in new.items():
            o = snap.env.get(i)
            if self.I.norm(st, v) != self.I.norm(st, o) if o is not None else True:
                cells.append((o, v))
        for reg, c in st.mem.items():
            b = snap.mem.get(reg)
            if b is None or not local(reg):
                continue
            for o, v in c.items():
                if o in b and b[o] != v:
                    cells.append((b[o], v))
        if len(st.m.writes) != len(snap.m.writes):
            raise Stop("unknown", "the loop modifies nodes")
        if len(st.m.events) != len(snap.m.events):
            return None          # a loop over the links of one node: unrolled
        if any(o is None for o, v in cells) or len({c for c in cells}) != 1 or not is_ptr(cells[0][1]):
            raise Stop("unknown", "the loop changes more than the current node")
        self.steps.append(("descend", st.copy(), cells[0][1]))
        return []

    def at_exit(self, interp, o):
        self.paths += 1
        if o.kind == "unreachable":
            return
        if o.kind == "unknown":
            k = (o.why, self.mod.chain_str(o.ins.loc).split(" <- ")[0] if o.ins is not None else "?")
            self.unk[k] = self.unk.get(k, 0) + 1
        elif o.kind == "bug":
            self.viol.append((o.why, self.mod.chain_str(o.ins.loc), self.path(o.st)))
        else:
            self.steps.append((o.kind, o.st.copy(), o.val))
            o.st.copy()

    def path(self, st):
        out = []
        for i, t in st.trail[-20:]:
            s = self.mod.loc_str(i.loc)
            if s.startswith("include/mdds"):
                out.append("%s%s" % (s.split("/")[-1], "+" if t else "-"))
        return out

    def forget(self):
        self.steps = []
        self.viol = []


def feasible(dom, cons, goal=()):
    """is dom & cons satisfiable over the integers (disequalities are split)?"""
    d = dom.copy()
    ne = [a for k, a in d.constraints() if k == "ne"]
    for k, a in cons:
        if k == "ne":
            ne.append(a)
        elif not d.assume((k, a)) or d.bad:
            return False
    return split(d, ne)


def split(d, ne):
    while ne:
        a = d.norm(ne[0])
        if not a[1]:
            if a[0] == 0:
                return False
            ne = ne[1:]
            continue
        if d.ge0(add(a, const(-1))) or d.ge0(add(lin.neg(a), const(-1))):
            ne = ne[1:]
            continue
        for b in (a, lin.neg(a)):
            e = d.copy()
            if e.add_ge0(add(b, const(-1))) and not e.bad and split(e, ne[1:]):
                return True
        return False
    return not d.bad


def rename(cons, f):
    out = []
    for k, a in cons:
        r = (a[0], ())
        for s, c in a[1]:
            r = add(r, S(f(s)), c)
        out.append((k, r))
    return out


def run(mod, f, names, rec=None, deadline=None):
    m = NodeModel(mod, f, rec)
    it = Interp(f, m, max_paths=20000, max_unroll=6, max_steps=3000000)
    st = new_state(QM())
    for i in range(f.nargs):
        if not names[i]:
            st.env[i] = ("P", ("arg", i), Z)
        elif names[i] == "node":
            st.env[i] = ("P", ("d", ("root",), 0), Z)
        else:
            st.env[i] = S(names[i])
    it.run(st, None, deadline)
    if it.exhausted:
        m.unk[("time limit", f.where)] = it.exhausted
    m.nsteps = it.steps
    return m


class Quad:
    """the checks; results in self.res"""

    def __init__(self, mod, deadline=None):
        self.mod = mod
        self.deadline = deadline
        self.res = []
        self.drv = {}
        for j in mod.raw:
            m = re.match(r"drv::(q_\w+)$", mod.ftab[j["f"]][2])
            if m:
                self.drv[m.group(1)] = mod.func(j)

    def result(self, label, f, m):
        r = {"label": label, "where": f.where, "viol": [("bug", x, w, p) for x, w, p in m.viol], "unknown": m.unk,
             "stats": {"ret": len(m.steps)}, "paths": m.paths, "steps": m.nsteps}
        self.res.append(r)

        def bad(msg, st=None, where=None):
            r["viol"].append(("content", msg, where or f.where, m.path(st) if st is not None else []))
        return r, bad

    # the first node of a tree is designated differently by the operations: bring the names together
    def node_regions(self, m):
        """regions that are read as a node on some path: the one directly behind the object"""
        out = set()
        for k, st, d in m.steps:
            for reg, off in st.m.rd:
                if reg[0] == "d":
                    out.add(reg)
        return out

    def root_of(self, m):
        rs = sorted(self.node_regions(m), key=lambda r: len(repr(r)))
        return rs[0] if rs else None

    def canon(self, m, root):
        p = "m:%r:" % (root,)
        return lambda s: "node:" + s[len(p):] if s.startswith(p) else s

    def lookup(self):
        """find(): determines where the coordinates and the value are kept in a node"""
        f = self.drv["q_find"]
        m = run(self.mod, f, [None, "x", "y"], None, self.deadline)
        r, bad = self.result("find", f, m)
        root = self.root_of(m)
        self.lay = None
        if root is None:
            m.unk[("no node is read", f.where)] = 1
            return
        cn = self.canon(m, root)
        for k, st, v in m.steps:
            if k != "ret":
                continue
            if st.m.writes:
                bad("a lookup modifies the tree", st)
            x = [o for rg, o in st.m.rd if rg == root and st.dom.eq0(sub(S("x"), S("m:%r:%d" % (root, o))))]
            y = [o for rg, o in st.m.rd if rg == root and st.dom.eq0(sub(S("y"), S("m:%r:%d" % (root, o))))]
            vs = [o for rg, o in st.m.rd if rg == root and is_lin(v) and v == S("m:%r:%d" % (root, o))]
            if len(vs) != 1:
                bad("the value returned is not that of a node", st)
                continue
            if not x or not y:
                bad("the value of a node at other coordinates is returned", st)
                continue
            if self.lay is None:
                self.lay = (x[0], y[0], vs[0])
        if self.lay is None:
            if not r["viol"]:
                bad("no path returns the value of a node with the requested coordinates")
            return
        self.find = (f, m, r, bad, root, cn)

    def C(self, kind, ox="x", oy="y"):
        """coordinates of the node differ from (x, y) / are equal"""
        X, Y = S("node:%d" % self.lay[0]), S("node:%d" % self.lay[1])
        if kind == "eq":
            return [("eq", sub(S(ox), X)), ("eq", sub(S(oy), Y))]

    def child(self, root, v):
        """child link designated by the pointer v"""
        if v[1][0] == "d" and v[1][1] == root and v[2] == Z:
            return v[1][2]
        if v[1] == root and not v[2][1]:
            return v[2][0]
        return None

    def insert(self):
        f = self.drv["q_insert"]
        m = run(self.mod, f, [None, "x", "y", "v"], None, self.deadline)
        r, bad = self.result("insert", f, m)
        root = self.root_of(m)
        if root is None:
            m.unk[("no node is read", f.where)] = 1
            return False
        cn = self.canon(m, root)
        ox, oy, od = self.lay
        self.cond = {}
        parents = set()
        first = 0
        for k, st, d in m.steps:
            cons = rename(st.dom.constraints(), cn)
            eq = cons + self.C("eq")
            if k == "throw":
                if feasible(lin.Dom(), cons):
                    bad("an insertion fails with an exception", st)
                continue
            ws = [w for w in st.m.writes if w[0][0] != "arg" or w[2].__class__ is tuple and is_ptr(w[2])]
            if k == "descend":
                F = self.child(root, d)
                if F is None:
                    m.unk[("the next node is not a child", f.where)] = 1
                    continue
                if ws:
                    bad("nodes are modified on the way down", st)
                if feasible(lin.Dom(), eq):
                    bad("the search for the insertion point passes a node at the same coordinates", st)
                self.cond.setdefault(F, []).append((cons, st, "descend"))
                continue
            if st.m.null.get(root):
                # empty tree
                first += 1
                n = [w for w in ws if is_ptr(w[2]) and w[2][1][0] == "new"]
                if len(n) != 1 or n[0][0] != ("arg", 0):
                    bad("the first insertion does not install a root node", st)
                    continue
                self.rootcell = n[0][1]
                self.newnode(st, n[0][2][1], bad)
                continue
            hw = [w for w in ws if w[0] == root]
            if len(ws) != len(hw):
                hw2 = [w for w in ws if w[0] != root and not (is_ptr(w[2]) and w[0][0] == "d")]
            att = [w for w in hw if is_ptr(w[2]) and w[2][1][0] == "new"]
            if att:
                F = att[0][1]
                if len(att) != 1 or len(hw) != 1:
                    bad("more than one link of the node is changed", st)
                    continue
                if not st.m.null.get(("d", root, F)):
                    bad("a link that may already lead to a node is overwritten", st)
                if feasible(lin.Dom(), eq):
                    bad("a second node is created at the same coordinates", st)
                self.newnode(st, att[0][2][1], bad)
                nr = att[0][2][1]
                ps = {o for o, v in st.mem[nr].items() if is_ptr(v) and v[1] == root}
                if not ps:
                    bad("the new node does not lead back to its parent", st)
                parents.add(tuple(sorted(ps)))
                self.cond.setdefault(F, []).append((cons, st, "attach"))
                continue
            if len(hw) == 1 and hw[0][1] == od:
                if self.norm(st, hw[0][2]) != S("v"):
                    bad("the value stored is not the one passed", st)
                if not self.implies_eq(cons):
                    bad("the value of a node at other coordinates is replaced", st)
                continue
            bad("an insertion ends without storing the value", st)
        if len([p for p in parents if p]) > 1:
            bad("the link to the parent is kept in different places")
        if not first:
            bad("no path inserts the first node")
        self.ins = (f, m, r, bad)
        self.parents = {p[0] for p in parents if p}
        # together the steps must cover every point
        for F, L in self.cond.items():
            for G, K in self.cond.items():
                if F < G:
                    for a, sa, ka in L:
                        for b, sb, kb in K:
                            if feasible(lin.Dom(), a + b):
                                bad("the same point may end up behind two different links (one when the link is free, another when not)", sa)
                                break
        return True

    def norm(self, st, v):
        return st.dom.norm(v) if is_lin(v) else v

    def implies_eq(self, cons):
        for q, o in (("x", self.lay[0]), ("y", self.lay[1])):
            if feasible(lin.Dom(), cons + [("ne", sub(S(q), S("node:%d" % o)))]):
                return False
        return True

    def newnode(self, st, reg, bad):
        c = st.mem.get(reg, {})
        for nm, o in zip(("x", "y", "v"), self.lay):
            if o not in c or not is_lin(c[o]) or not st.dom.eq0(sub(c[o], S(nm))):
                bad("the new node does not hold the coordinates and the value passed", st)
                return

    def check_find(self):
        f, m, r, bad, root, cn = self.find
        for k, st, d in m.steps:
            cons = rename(st.dom.constraints(), cn)
            if k == "descend":
                F = self.child(root, d)
                if F is None:
                    m.unk[("the next node is not a child", f.where)] = 1
                    continue
                self.others(cons, st, [F], bad, "the lookup follows a link that does not lead to the point")
                if feasible(lin.Dom(), cons + self.C("eq")):
                    bad("the lookup passes the node it looks for", st)
            elif k == "throw":
                if st.m.null.get(root):
                    continue
                if feasible(lin.Dom(), cons + self.C("eq")):
                    bad("the lookup fails at the node it looks for", st)
                nul = [F for F in self.cond if st.m.null.get(("d", root, F))]
                self.others(cons, st, nul, bad, "the lookup gives up although the point may be behind another link")

    def others(self, cons, st, ok, bad, msg, extra=()):
        for F, L in self.cond.items():
            if F in ok:
                continue
            for c, s, kind in L:
                if feasible(lin.Dom(), cons + c + list(extra)):
                    bad(msg, st)
                    return

    def recursive(self, name, names, label):
        """(step model, function) of the recursive function behind a driver function"""
        f = self.drv[name]
        for i in f.instrs():
            if i.op in ("call", "invoke") and i.a[1].__class__ is int:
                t = i.a[1]
                for j in self.mod.raw:
                    if j["f"] == t:
                        g = self.mod.func(j)
                        if any(x.op in ("call", "invoke") and x.a[1] == t for x in g.instrs()):
                            return i, g, t
        return None

    def search(self, name, label):
        got = self.recursive(name, None, label)
        if got is None:
            self.res.append({"label": label, "where": self.drv[name].where, "viol": [], "unknown": {("no recursive search", self.drv[name].where): 1},
                             "stats": {}, "paths": 0, "steps": 0})
            return
        site, g, t = got
        names = ["node"] + ["x1", "y1", "x2", "y2"] + [None] * (g.nargs - 5)
        m = run(self.mod, g, names, t, self.deadline)
        r, bad = self.result(label, g, m)
        root = ("d", ("root",), 0)
        cn = self.canon(m, root)
        ox, oy, od = self.lay
        X, Y = S("node:%d" % ox), S("node:%d" % oy)
        pre = [("ge", sub(S("x2"), S("x1"))), ("ge", sub(S("y2"), S("y1")))]

        def inside(x, y):
            return [("ge", sub(x, S("x1"))), ("ge", sub(S("x2"), x)), ("ge", sub(y, S("y1"))), ("ge", sub(S("y2"), y))]
        for k, st, d in m.steps:
            cons = rename(st.dom.constraints(), cn) + pre
            if k == "throw":
                if feasible(lin.Dom(), cons):
                    bad("a valid search fails with an exception", st)
                continue
            if k != "ret":
                m.unk[("loop in the search", g.where)] = 1
                continue
            if not feasible(lin.Dom(), cons):
                continue
            vis, rep = self.events(st, root, m, g, bad, [S("x1"), S("y1"), S("x2"), S("y2")])
            if vis is None:
                continue
            if st.m.null.get(root):
                if rep:
                    bad("a missing node is reported", st)
                continue
            if rep > 1:
                bad("a node is reported twice", st)
            if rep:
                for c in inside(X, Y):
                    if feasible(lin.Dom(), cons + [("ge", add(const(-1), c[1], -1))]):
                        bad("a node outside the region is reported", st)
                        break
            elif feasible(lin.Dom(), cons + inside(X, Y)):
                bad("a node inside the region is not reported", st)
            ok = list(vis) + [F for F in self.cond if st.m.null.get(("d", root, F))]
            self.others(cons, st, ok, bad, "a subtree that may contain points of the region is not searched", inside(S("x"), S("y")))

    def events(self, st, root, m, g, bad, rest=None):
        vis, rep = [], 0
        for e in st.m.events:
            if e[0] == "visit":
                kids = []
                for a in e[1]:
                    F = self.child(root, a) if is_ptr(a) and a[1][0] == "d" else None
                    if F is not None:
                        kids.append(F)
                if len(kids) != 1:
                    m.unk[("recursion on something other than a child", g.where)] = 1
                    return None, None
                if rest is not None:
                    ls = [a for a in e[1] if is_lin(a)]
                    if ls != rest:
                        bad("the search goes on with another region", st)
                if kids[0] in vis:
                    bad("a subtree is visited twice", st)
                vis.append(kids[0])
            elif e[0] == "report":
                v = e[1]
                tgt = False
                if is_ptr(v) and v[1] == root:
                    tgt = v[2] in (Z, const(self.lay[2]))
                for o, x in e[2]:
                    if is_ptr(x) and x[1] == root or is_lin(x) and x == S("m:%r:%d" % (root, self.lay[2])):
                        tgt = True
                if not tgt:
                    bad("something other than the node is reported", st)
                rep += 1
        return vis, rep

    def traverse(self, name, label, kind):
        got = self.recursive(name, None, label)
        if got is None:
            self.res.append({"label": label, "where": self.drv[name].where, "viol": [], "unknown": {("no recursive traversal", self.drv[name].where): 1},
                             "stats": {}, "paths": 0, "steps": 0})
            return
        site, g, t = got
        sig = g.sig()
        from mtvspec import params
        ps = params(g)
        off = g.nargs - len(ps)
        names = [None] * g.nargs
        for i, p in enumerate(ps):
            if "node" in p and "*" in p or "intrusive_ptr" in p:
                names[off + i] = "node"
                break
        byval = off + i if "intrusive_ptr" in ps[i] else None
        if byval is not None:
            names[byval] = None
        m = run(self.mod, g, names, t, self.deadline)
        r, bad = self.result(label, g, m)
        root = ("d", ("arg", byval), 0) if byval is not None else ("d", ("root",), 0)
        for k, st, d in m.steps:
            if k == "throw":
                bad("a traversal fails with an exception", st)
                continue
            vis, rep = self.events(st, root, m, g, bad)
            if vis is None:
                continue
            cnt = Z
            for w in st.m.writes:
                if w[0][0] == "arg" and is_lin(w[2]):
                    cnt = sub(w[2], S("m:%r:%d" % (w[0], w[1])))
            if is_lin(d) and any(s.startswith("ret") for s, c in d[1]):
                cnt = (d[0], ())
                if any(c != 1 for s, c in d[1]) or len(d[1]) != len(vis):
                    bad("the sizes of the subtrees are not added up", st)
            want = 0 if st.m.null.get(root) else 1
            if kind == "count" and cnt != const(want):
                bad("a node is counted %s times" % lin.show(cnt), st)
            if kind == "collect":
                if rep != want:
                    bad("a node is collected %d times" % rep, st)
                for e in st.m.events:
                    if e[0] == "report":
                        vals = [x for o, x in e[2]]
                        for o in self.lay:
                            if S("m:%r:%d" % (root, o)) not in vals:
                                bad("the coordinates or the value of a node are not collected", st)
                                break
            if kind == "destroy" and want:
                # links between nodes keep the nodes alive: every one of them must be cut
                for F in self.cond:
                    v = self.I_load(st, root, F)
                    if v is not None and v != PNULL and not (is_ptr(v) and st.m.null.get(v[1])):
                        bad("a node that is thrown away keeps a link to one of its subtrees", st)
                        break
                for P in self.parents:
                    v = self.I_load(st, root, P)
                    if v != PNULL and not (is_ptr(v) and st.m.null.get(v[1])):
                        bad("a node that is thrown away keeps the link to its parent", st)
            if want:
                miss = [F for F in self.cond if F not in vis and not st.m.null.get(("d", root, F))]
                if miss:
                    bad("%d of the subtrees are not visited" % len(miss), st)

    def entry(self, name, label, names, kind):
        """the public function starts the recursion at the root, with its own arguments"""
        got = self.recursive(name, None, label)
        f = self.drv[name]
        m = run(self.mod, f, names, got[2] if got else None, self.deadline)
        r, bad = self.result(label, f, m)
        rt = ("d", ("arg", 0 if names[0] is None else 1), self.rootcell)
        ls = [S(n) for n in names if n]
        for k, st, d in m.steps:
            if k == "throw":
                bad("the call fails with an exception", st)
                continue
            null = st.m.null.get(rt)
            if kind == "empty":
                if d[0] == "B":
                    sides = [x for x in d[2:4] if is_ptr(x) and x[1] == rt]
                    if d[1] == "eq" and len(sides) == 1 and (PNULL in d[2:4] or Z in d[2:4]):
                        continue
                if null is None or not is_lin(d) or st.dom.eq0(sub(d, ONE)) != bool(null):
                    bad("the answer does not depend on whether there is a first node", st)
                continue
            if kind == "swap":
                for a, b in ((0, 1), (1, 0)):
                    v = self.I_load(st, ("arg", a), self.rootcell)
                    if v != ("P", ("d", ("arg", b), self.rootcell), Z):
                        bad("the nodes are not exchanged", st)
                        break
                continue
            vis = 0
            for e in st.m.events:
                if e[0] != "visit":
                    bad("something is reported outside the recursion", st)
                    continue
                ps = [a for a in e[1] if is_ptr(a) and a[1] == rt]
                if len(ps) != 1:
                    if null:
                        continue
                    bad("the recursion does not start at the first node", st)
                    continue
                vis += 1
                if kind == "search" and [a for a in e[1] if is_lin(a)] != ls:
                    bad("the recursion starts with another region than the one passed", st)
            if not null and vis != 1:
                bad("the nodes are visited %d times" % vis, st)
            if kind == "clear":
                v = self.I_load(st, ("arg", 0), self.rootcell)
                if v != PNULL and not (is_ptr(v) and st.m.null.get(v[1])):
                    bad("the container still holds its first node", st)

    def I_load(self, st, reg, off):
        c = st.mem.get(reg, {})
        return c.get(off, ("P", ("d", reg, off), Z))

    def all(self):
        need = ["q_insert", "q_find", "q_search", "q_search2", "q_size", "q_equal", "q_clear"]
        if any(n not in self.drv for n in need):
            raise KeyError("driver functions are missing")
        self.lookup()
        if self.lay is None:
            return self.res
        if not self.insert():
            return self.res
        self.check_find()
        self.search("q_search", "search_region into an array")
        self.search("q_search2", "search_region returning results")
        self.traverse("q_size", "size", "count")
        self.traverse("q_equal", "collection of all nodes for copy and comparison", "collect")
        self.traverse("q_clear", "clear", "destroy")
        if hasattr(self, "rootcell"):
            self.entry("q_search", "search_region into an array, start", [None, "x1", "y1", "x2", "y2", None], "search")
            self.entry("q_search2", "search_region returning results, start", ["", None, "x1", "y1", "x2", "y2"], "search")
            self.entry("q_size", "size, start", [None], "size")
            self.entry("q_clear", "clear, start", [None], "clear")
            self.entry("q_empty", "empty", [None], "empty")
            self.entry("q_swap", "swap", [None, None], "swap")
        return self.res
