"""Shape domain for the leaf list of flat_segment_tree.

The doubly linked leaf list starts as  L [run] W : two end nodes and one anonymous run of any
number of interior leaves with strictly increasing keys and pairwise different neighbouring
values.  A run is unfolded (empty | first node + rest | rest + last node) when the code follows
a link into it; at loop heads the nodes the loop has walked over are folded back, and the
relational facts about the remaining symbols are joined until they are stable.  The original
list is kept as a ghost, so that every exit can be compared with what the operation specifies.
"""
import lin
from lin import const, add, sub
from absint import Fork, Stop, fresh, Model, is_ptr, is_lin, PNULL, operands
from lin import _serial

Z = lin.ZERO
ONE = const(1)


def N(i):
    return ("P", ("n", i), Z)


def RF(i):
    return ("P", ("rf", i), Z)


def RL(i):
    return ("P", ("rl", i), Z)


class Run:
    """immutable; status live|dead; shift: key = original key + shift"""
    __slots__ = ("status", "shift", "before", "after")

    def __init__(self, status, shift, before, after):
        self.status, self.shift, self.before, self.after = status, shift, before, after

    def but(self, **k):
        r = Run(self.status, self.shift, self.before, self.after)
        for a, v in k.items():
            setattr(r, a, v)
        return r


class FS:
    __slots__ = ("ghost", "gn", "runs", "res", "extra", "hist", "base", "seq", "leaks", "unlinked", "memo")

    def copy(self):
        m = FS.__new__(FS)
        m.ghost = self.ghost      # tuple of ("n", id) | ("r", id)
        m.gn = dict(self.gn)      # node id -> (original key, original value)
        m.runs = dict(self.runs)
        m.res = dict(self.res)    # resolved run ends: region -> pointer value
        m.extra = self.extra      # ids of nodes allocated by the operation
        m.hist = dict(self.hist)  # loop head -> {shape: Dom}
        m.base = dict(self.base)
        m.seq = self.seq
        m.leaks = self.leaks
        m.unlinked = self.unlinked
        m.memo = dict(self.memo)
        return m


def new_fs():
    m = FS.__new__(FS)
    m.ghost, m.gn, m.runs, m.res, m.extra, m.hist, m.base, m.seq, m.leaks, m.unlinked, m.memo = (), {}, {}, {}, (), {}, {}, 0, (), (), {}
    return m


def liveness(f):
    """values live on entry of each block"""
    use, df = [], []
    for b in f.blocks:
        u, d = set(), set()
        for i in b.ins:
            if i.op == "phi":
                d.add(i.id)
                continue
            st = [o for o in operands(i)]
            while st:
                o = st.pop()
                if o.__class__ is int:
                    if o not in d:
                        u.add(o)
                elif o.__class__ is list:
                    st.extend(x for x in o[2:] if x.__class__ in (int, list)) if o and o[0] == "ce" else None
            d.add(i.id)
        use.append(u)
        df.append(d)
    live = [set() for _ in f.blocks]
    ch = True
    while ch:
        ch = False
        for b in reversed(f.blocks):
            o = set()
            for s in b.succ:
                o |= live[s]
                for i in f.blocks[s].ins:
                    if i.op != "phi":
                        break
                    for v, src in i.a[1]:
                        if src == b.id and v.__class__ is int:
                            o.add(v)
            n = use[b.id] | (o - df[b.id])
            if n != live[b.id]:
                live[b.id] = n
                ch = True
    return live


class FstModel(Model):
    def __init__(self, mod, func, offs):
        self.mod = mod
        self.f = func
        self.o = offs
        self.live = liveness(func)
        self.notes = {}

    def nid(self, st):
        st.m.seq += 1
        return st.m.seq

    # ---- unfolding ----------------------------------------------------------------
    def gpos(self, st, it):
        return st.m.ghost.index(it)

    def order_facts(self, st, nid):
        """relations of an original node to its original neighbours"""
        m = st.m
        g = m.ghost
        k = g.index(("n", nid))
        d = st.dom
        ok, ov = m.gn[nid]
        for step in (-1, 1):
            j = k + step
            adj = True
            while 0 <= j < len(g):
                if g[j][0] == "n":
                    a, b = (g[j][1], nid) if step < 0 else (nid, g[j][1])
                    d.add_ge0(add(sub(m.gn[b][0], m.gn[a][0]), const(-1)))
                    if adj and b != self.W:
                        d.add_ne0(sub(m.gn[a][1], m.gn[b][1]))
                    break
                adj = False
                j += step
        return not d.bad

    def gset(self, st, item, repl):
        m = st.m
        k = m.ghost.index(item)
        m.ghost = m.ghost[:k] + tuple(repl) + m.ghost[k + 1:]
        return k

    def make_empty(self, st, rid):
        m = st.m
        r = m.runs.pop(rid)
        k = self.gset(st, ("r", rid), ())
        if r.status == "live":
            # a live run keeps its neighbours: after/before are what first/last would have linked to
            m.res[("rf", rid)] = r.after
            m.res[("rl", rid)] = r.before
        a = next((x for x in reversed(m.ghost[:k]) if x[0] == "n"), None) if k and m.ghost[k - 1][0] == "n" else None
        if a is not None and k < len(m.ghost) and m.ghost[k][0] == "n":
            return self.order_facts(st, a[1])
        return not st.dom.bad

    def new_ghost_node(self, st):
        m = st.m
        n = self.nid(st)
        m.gn[n] = (lin.sym(fresh("k%d" % n)), lin.sym(fresh("v%d" % n)))
        return n

    def put_node(self, st, n, shift, prev, nxt):
        ok, ov = st.m.gn[n]
        o = self.o
        st.mem[("n", n)] = {o["parent"]: ("P", ("nonleaf",), Z), o["is_leaf"]: ONE, o["value"]: ov,
                            o["key"]: add(ok, shift), o["prev"]: prev, o["next"]: nxt}

    def split_front(self, st, rid):
        m = st.m
        r = m.runs.pop(rid)
        n = self.new_ghost_node(st)
        q = self.nid(st)
        self.gset(st, ("r", rid), (("n", n), ("r", q)))
        if r.status == "live":
            m.runs[q] = r.but(before=N(n))
            self.put_node(st, n, r.shift, r.before, RF(q))
            m.res[("rf", rid)] = N(n)
            m.res[("rl", rid)] = RL(q)
        else:
            m.runs[q] = r
        return self.order_facts(st, n)

    def split_back(self, st, rid):
        m = st.m
        r = m.runs.pop(rid)
        n = self.new_ghost_node(st)
        q = self.nid(st)
        self.gset(st, ("r", rid), (("r", q), ("n", n)))
        if r.status == "live":
            m.runs[q] = r.but(after=N(n))
            self.put_node(st, n, r.shift, RL(q), r.after)
            m.res[("rl", rid)] = N(n)
            m.res[("rf", rid)] = RF(q)
        else:
            m.runs[q] = r
        return self.order_facts(st, n)

    def unfold(self, rid, side):
        sp = self.split_front if side == "rf" else self.split_back
        raise Fork([lambda s: self.make_empty(s, rid), lambda s: sp(s, rid)])

    def norm_ptr(self, st, v):
        while v[1][0] in ("rf", "rl"):
            r = st.m.res.get(v[1])
            if r is None:
                return v
            if not is_ptr(r):
                return r
            v = r
        return v

    def cmp_ptr(self, st, pred, a, b):
        a = self.I.norm(st, a)
        b = self.I.norm(st, b)
        if pred not in ("eq", "ne"):
            return None
        if a == b:
            return pred == "eq"
        for x in (a, b):
            if is_ptr(x) and x[1][0] in ("rf", "rl"):
                self.unfold(x[1][1], x[1][0])
        for x, y in ((a, b), (b, a)):
            if is_ptr(x) and is_lin(y) and not y[1] and y[0] == 0:
                return pred == "ne"
        if is_ptr(a) and is_ptr(b):
            if a[1] == b[1]:
                return None
            if "sym" in (a[1][0], b[1][0]):
                raise Stop("unknown", "comparison of unknown pointers")
            return pred == "ne"
        return None

    # ---- memory ---------------------------------------------------------------------
    def load(self, st, reg, off, ty):
        if reg[0] in ("rf", "rl"):
            self.unfold(reg[1], reg[0])
        if off[1]:
            return self.I.unknown(st, None, ty)
        if reg[0] == "n":
            c = st.mem.get(reg)
            if c is None:
                raise Stop("bug", "access to a removed node")
            v = c.get(off[0])
            if v is None:
                v = self.I.unknown(st, None, ty)
                self.I.raw_store(st, reg, off[0], v)
            return v
        if reg[0] == "sym" or reg[0] == "nonleaf":
            raise Stop("unknown", "load from an unmodelled object")
        return self.I.raw_load(st, reg, off[0], ty)

    def store(self, st, reg, off, v, ty):
        if reg[0] in ("rf", "rl"):
            self.unfold(reg[1], reg[0])
        if reg[0] in ("sym", "nonleaf"):
            raise Stop("unknown", "store to an unmodelled object")
        if reg[0] == "n" and reg not in st.mem:
            raise Stop("bug", "access to a removed node")
        if off[1]:
            raise Stop("unknown", "store at an unknown offset")
        self.I.raw_store(st, reg, off[0], v)

    def initial(self, st, reg, off, ty):
        if ty == "ptr":
            return ("P", ("sym", fresh("p")), Z)
        return lin.sym("m:%r:%d" % (reg, off))

    # ---- values -----------------------------------------------------------------------
    def vload(self, st, p):
        p = self.I.norm(st, p)
        if not is_ptr(p):
            raise Stop("bug", "value access through a null pointer")
        return self.load(st, p[1], p[2], "i64")

    def vstore(self, st, p, v):
        p = self.I.norm(st, p)
        if not is_ptr(p):
            raise Stop("bug", "value access through a null pointer")
        self.store(st, p[1], p[2], v, "i64")

    def call(self, st, ins, name, args):
        ty = ins.a[0]
        nm = name or "?"
        if nm.startswith("llvm."):
            if nm.startswith("llvm.memcpy") or nm.startswith("llvm.memset"):
                raise Stop("unknown", nm)
            return None if ty == "void" else self.I.unknown(st, ins.id, ty)
        if nm.startswith("drv::V::"):
            op = nm.split("::")[-1]
            full = ins.cfull or ""
            if op == "V":
                if len(args) == 1:
                    self.vstore(st, args[0], lin.sym("V0"))
                else:
                    v = self.vload(st, args[1])
                    self.vstore(st, args[0], v)
                    if "&&" in full:
                        self.vstore(st, args[1], lin.sym(fresh("moved")))
                return None
            if op == "~V":
                return None
            if op == "operator=":
                v = self.vload(st, args[1])
                self.vstore(st, args[0], v)
                if "&&" in full and args[0] != args[1]:
                    self.vstore(st, args[1], lin.sym(fresh("moved")))
                return args[0]
            if op in ("operator==", "operator!="):
                return ("B", "eq" if op == "operator==" else "ne", self.vload(st, args[0]), self.vload(st, args[1]))
        last = nm.split("::")[-1]
        if last in ("intrusive_ptr_add_ref", "intrusive_ptr_release"):
            return None
        if last == "~intrusive_ptr":
            p = args[0]
            if is_ptr(p) and p[1][0] == "a":
                c = dict(st.mem.get(p[1], {}))
                c.pop(p[2][0], None)
                st.mem[p[1]] = c
            return None
        if nm == "operator new":
            n = self.nid(st)
            st.m.extra = st.m.extra + (n,)
            st.mem[("n", n)] = {}
            return N(n)
        if nm == "operator delete":
            return None
        if nm.startswith("std::vector::"):
            return None if ty == "void" else self.I.unknown(st, ins.id, ty)
        if ins.a and self.mod.ftab[ins.callee][4] if ins.callee is not None else False:
            raise Stop("throw", nm)
        raise Stop("unknown", "call of " + nm)

    # ---- loops ------------------------------------------------------------------------
    def roots(self, st):
        """nodes / runs referenced from outside the heap: {region}"""
        out = set()
        for v in st.env.values():
            if is_ptr(v):
                out.add(self.norm_ptr(st, v)[1]) if is_ptr(self.norm_ptr(st, v)) else None
        for reg, cells in st.mem.items():
            if reg[0] == "n":
                continue
            for v in cells.values():
                if is_ptr(v):
                    v = self.norm_ptr(st, v)
                    if is_ptr(v):
                        out.add(v[1])
        return out

    def heap_ptr(self, st, n, f):
        v = st.mem[("n", n)].get(self.o[f], PNULL)
        return self.norm_ptr(st, v) if is_ptr(v) else v

    def collect(self, st):
        """free nodes that nothing outside the heap reaches; note cycles among them"""
        m = st.m
        seen = set()
        work = [r for r in self.roots(st) if r[0] in ("n", "rf", "rl")]
        work += [("n", self.L), ("n", self.W)]
        while work:
            r = work.pop()
            if r in seen:
                continue
            seen.add(r)
            if r[0] == "n":
                if r not in st.mem:
                    continue
                for f in ("prev", "next"):
                    v = self.heap_ptr(st, r[1], f)
                    if is_ptr(v):
                        work.append(v[1])
            else:
                q = m.runs.get(r[1])
                if q is None:
                    continue
                seen.add(("rf", r[1]))
                seen.add(("rl", r[1]))
                for v in (q.before, q.after):
                    v = self.norm_ptr(st, v) if is_ptr(v) else v
                    if is_ptr(v):
                        work.append(v[1])
        dead = [r for r in st.mem if r[0] == "n" and r not in seen]
        deadset = set(dead)
        # a cycle of owning links keeps unreachable nodes alive for ever
        color = {}

        def dfs(r):
            color[r] = 1
            for f in ("prev", "next"):
                v = self.heap_ptr(st, r[1], f)
                if is_ptr(v) and v[1] in deadset:
                    c = color.get(v[1])
                    if c == 1 or (c is None and dfs(v[1])):
                        return True
            color[r] = 2
            return False
        for r in dead:
            if r not in color and dfs(r):
                m.leaks = m.leaks + (r[1],)
                break
        for rid, q in list(m.runs.items()):
            if q.status == "live" and ("rf", rid) not in seen:
                # an unreachable run still holds mutual links between its members
                m.leaks = m.leaks + (rid,)
                m.runs[rid] = Run("dead", Z, PNULL, PNULL)
        for r in dead:
            del st.mem[r]
            if r[1] in m.extra:
                m.extra = tuple(x for x in m.extra if x != r[1])

    def node_state(self, st, n):
        """'live'/'dead' + shift when the node is unmodified but for its key and list membership; else None"""
        m = st.m
        c = st.mem.get(("n", n))
        ok, ov = m.gn[n]
        if c is None:
            return ("dead", Z)
        d = st.dom
        if d.norm(c[self.o["value"]]) != d.norm(ov):
            return None
        sh = d.norm(sub(c[self.o["key"]], ok))
        return ("live", sh)

    def fold(self, st, keep, vary):
        m = st.m
        # ghost neighbours of the loop variables stay as witnesses
        g = m.ghost
        wit = set()
        for k, it in enumerate(g):
            hot = (it[0] == "n" and ("n", it[1]) in vary) or (it[0] == "r" and (("rf", it[1]) in vary or ("rl", it[1]) in vary))
            if hot:
                for j in (k - 1, k, k + 1):
                    if 0 <= j < len(g):
                        wit.add(g[j])
        refs = self.roots(st)
        # heap references from nodes allocated by the operation or from modified links are covered by the link check below
        states = {}
        for it in g:
            if it[0] != "n":
                continue
            n = it[1]
            if n in (self.L, self.W) or n in keep or it in wit or ("n", n) in refs:
                continue
            s = self.node_state(st, n)
            if s is not None:
                states[n] = s
        if not states:
            return
        # incoming heap links
        inc = {}
        for reg in st.mem:
            if reg[0] != "n":
                continue
            for f in ("prev", "next"):
                v = self.heap_ptr(st, reg[1], f)
                if is_ptr(v) and v[1][0] == "n":
                    inc.setdefault(v[1][1], []).append((reg[1], f))
        for rid, q in m.runs.items():
            if q.status == "live":
                for v, f in ((q.before, "prev"), (q.after, "next")):
                    v = self.norm_ptr(st, v) if is_ptr(v) else v
                    if is_ptr(v) and v[1][0] == "n":
                        inc.setdefault(v[1][1], []).append((("r", rid), f))
        out = []
        for it in g:
            if it[0] == "n" and it[1] in states:
                n = it[1]
                stt, sh = states[n]
                if stt == "live":
                    # must be linked symmetrically with both neighbours
                    pv, nx = self.heap_ptr(st, n, "prev"), self.heap_ptr(st, n, "next")
                    okl = is_ptr(pv) and is_ptr(nx) and self.links_back(st, pv, "next", N(n)) and self.links_back(st, nx, "prev", N(n)) and len(inc.get(n, ())) <= 2
                    if not okl:
                        out.append(it)
                        continue
                    rid = self.nid(st)
                    m.runs[rid] = Run("live", sh, pv, nx)
                    self.redirect(st, pv, "next", RF(rid))
                    self.redirect(st, nx, "prev", RL(rid))
                    del st.mem[("n", n)]
                else:
                    if n in inc:
                        out.append(it)
                        continue
                    rid = self.nid(st)
                    m.runs[rid] = Run("dead", Z, PNULL, PNULL)
                m.gn.pop(n)
                out.append(("r", rid))
            else:
                out.append(it)
        m.ghost = tuple(out)
        # merge neighbouring runs of the same kind
        k = 0
        while k + 1 < len(m.ghost):
            a, b = m.ghost[k], m.ghost[k + 1]
            if a[0] == "r" and b[0] == "r":
                ra, rb = m.runs[a[1]], m.runs[b[1]]
                if ra.status == rb.status and not (set((("rf", a[1]), ("rl", a[1]), ("rf", b[1]), ("rl", b[1]))) & refs):
                    if ra.status == "dead":
                        del m.runs[b[1]]
                        m.ghost = m.ghost[:k + 1] + m.ghost[k + 2:]
                        continue
                    if st.dom.norm(sub(ra.shift, rb.shift)) == Z and ra.after == RF(b[1]) and rb.before == RL(a[1]):
                        q = self.nid(st)
                        m.runs[q] = Run("live", ra.shift, ra.before, rb.after)
                        self.redirect(st, ra.before, "next", RF(q))
                        self.redirect(st, rb.after, "prev", RL(q))
                        del m.runs[a[1]]
                        del m.runs[b[1]]
                        m.ghost = m.ghost[:k] + (("r", q),) + m.ghost[k + 2:]
                        continue
            k += 1

    def links_back(self, st, p, f, me):
        m = st.m
        p = self.norm_ptr(st, p)
        if not is_ptr(p):
            return False
        if p[1][0] == "n":
            if p[1] not in st.mem:
                return False
            return self.heap_ptr(st, p[1][1], f) == me
        q = m.runs.get(p[1][1])
        if q is None:
            return False
        v = q.after if f == "next" else q.before
        v = self.norm_ptr(st, v) if is_ptr(v) else v
        return v == me

    def redirect(self, st, p, f, to):
        m = st.m
        p = self.norm_ptr(st, p)
        if p[1][0] == "n":
            self.I.raw_store(st, p[1], self.o[f], to)
        else:
            q = m.runs[p[1][1]]
            m.runs[p[1][1]] = q.but(after=to) if f == "next" else q.but(before=to)

    def generalise(self, st, snap, head, new, it):
        m = st.m
        st.env.update(new)
        live = self.live[head]
        phis = {p.id for p in self.I.phis[head]}
        na = self.f.nargs
        for k in list(st.env):
            if k >= na and k not in live and k not in phis:
                del st.env[k]
        for k, v in list(st.env.items()):
            if v.__class__ is tuple and v[0] in ("B", "not"):
                st.env[k] = const(1 if self.I.truth(st, v) else 0)
        if it == 0:
            m.base[head] = frozenset(snap.m.gn)
            m.hist = {h: x for h, x in m.hist.items() if h not in self.I.loops[head] or h == head}
            m.hist[head] = {}
        self.collect(st)
        vary = set()
        for p in phis:
            v = st.env.get(p)
            if v is not None and is_ptr(v):
                v = self.norm_ptr(st, v)
                if is_ptr(v):
                    vary.add(v[1])
        # memory cells of locals that changed since the last visit are loop variables as well
        for reg, cells in st.mem.items():
            if reg[0] == "n":
                continue
            oc = snap.mem.get(reg, {})
            if oc is cells:
                continue
            for off, v in cells.items():
                if is_ptr(v):
                    v = self.norm_ptr(st, v)
                    ov = oc.get(off)
                    ov = self.norm_ptr(st, ov) if ov is not None and is_ptr(ov) else ov
                    if is_ptr(v) and v != ov:
                        vary.add(v[1])
        self.fold(st, m.base[head], vary)
        shape, slots, binder = self.canon(st, phis)
        h = m.hist[head]
        dom = self.slot_dom(st, slots)
        if dom.bad:
            return []
        old = h.get(shape)
        names = [("s%d" % i) for i in range(len(slots))]
        if old is not None:
            if all(dom.holds(c) for c in old[0].constraints()):
                return []
            kept = [c for c in old[0].constraints() if dom.holds(c)]
            if old[1] < 3:
                kept += [c for c in dom.constraints() if old[0].holds(c)]
            nd = lin.Dom()
            for c in kept:
                nd.assume(c)
            cntr = old[1] + 1
        else:
            nd = dom
            cntr = 0
        if cntr > 12 or len(h) > 40:
            raise Stop("unknown", "loop does not stabilise")
        nh = dict(h)
        nh[shape] = (nd, cntr)
        m.hist = dict(m.hist)
        m.hist[head] = nh
        # instantiate the joined facts over fresh symbols
        ren = {}
        for i, (nm, v) in enumerate(slots):
            ren["s%d" % i] = lin.sym(fresh("h"))
        st.dom = lin.Dom()

        def ap(a):
            r = const(a[0])
            for s, c in a[1]:
                r = add(r, ren.get(s, lin.sym(s)), c)
            return r
        for k, a in nd.constraints():
            st.dom.assume((k, ap(a)))
        binder([ren["s%d" % i] for i in range(len(slots))])
        return [(st, 0)]

    def perm(self, s):
        """symbols that keep their identity across loops: the arguments and the defaults"""
        return s.startswith("@") or s == "V0"

    def canon(self, st, phis):
        """shape of the state (hashable), list of (slot name, linear value), and a function that re-binds the slots"""
        m = st.m
        num = {}

        def nm(r):
            if r[0] in ("n", "rf", "rl"):
                k = ("r", r[1]) if r[0] != "n" else r
                if k not in num:
                    num[k] = len(num)
                return (r[0], num[k])
            return r
        for it in m.ghost:
            num[it] = len(num)
        slots = []
        sets = []

        def slot(name, v, setter):
            v = st.dom.norm(v)
            if not v[1]:
                return ("c", v[0])
            slots.append((name, v))
            sets.append(setter)
            return ("s", len(slots) - 1)

        def val(name, v, setter):
            v = self.I.norm(st, v)
            if is_ptr(v):
                if v[2][1]:
                    o = slot(name, v[2], lambda x, v=v: setter(("P", v[1], x)))
                else:
                    o = v[2][0]
                return ("p", nm(v[1]), o)
            if is_lin(v):
                return slot(name, v, setter)
            raise Stop("unknown", "value at a loop head: %r" % (v,))
        sh = []
        order = []
        for it in m.ghost:
            if it[0] == "n":
                n = it[1]

                def setk(x, n=n):
                    m.gn[n] = (x, m.gn[n][1])

                def setv(x, n=n):
                    m.gn[n] = (m.gn[n][0], x)
                sh.append(("n", num[it], slot("ok", m.gn[n][0], setk), slot("ov", m.gn[n][1], setv)))
                order.append(n)
            else:
                r = m.runs[it[1]]

                def sets_(x, i=it[1]):
                    m.runs[i] = m.runs[i].but(shift=x)
                sh.append(("r", num[it], r.status, slot("sh", r.shift, sets_)))
        extra = [n for n in m.extra if ("n", n) in st.mem]
        for n in extra:
            nm(("n", n))
        for n in order + extra:
            c = st.mem.get(("n", n))
            if c is None:
                sh.append(("gone",))
                continue
            cells = []
            for off in sorted(c):
                def sc(x, n=n, off=off):
                    self.I.raw_store(st, ("n", n), off, x)
                cells.append((off, val("f", c[off], sc)))
            sh.append(tuple(cells))
        for it in m.ghost:
            if it[0] == "r":
                r = m.runs[it[1]]
                if r.status == "live":
                    sh.append(tuple(("p", nm(self.norm_ptr(st, v)[1])) for v in (r.before, r.after)))
        for k in sorted(st.env):
            if k < self.f.nargs:
                continue

            def se(x, k=k):
                st.env[k] = x
            sh.append((k, val("e", st.env[k], se)))
        for reg in sorted((r for r in st.mem if r[0] != "n"), key=repr):
            c = st.mem[reg]
            for off in sorted(c):
                def sm(x, reg=reg, off=off):
                    self.I.raw_store(st, reg, off, x)
                sh.append((repr(reg), off, val("m", c[off], sm)))
        sh.append(len(m.leaks) > 0)

        def binder(vals):
            for s, v in zip(sets, vals):
                s(v)
        return tuple(sh), slots, binder

    def slot_dom(self, st, slots):
        d = st.dom.copy()
        d.quiet = True
        for i, (n, v) in enumerate(slots):
            s = "s%d" % i
            d.add_eq0(sub(lin.sym(s), v))
        syms = set(d.lb) | set(d.sub)
        for _, a in d.constraints():
            syms |= {s for s, _ in a[1]}
        keep = {"s%d" % i for i in range(len(slots))}
        for s in sorted(syms, key=lambda x: (_serial(x) if isinstance(x, str) else 0)):
            if s in keep or self.perm(s):
                continue
            d.forget(s)
        d.quiet = False
        return d
