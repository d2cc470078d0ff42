"""Specification of flat_segment_tree's operations and comparison of every abstract exit with it."""
import re
import time
import lin
from lin import const, add, sub
from absint import Interp, Fork, Stop, fresh, new_state, is_ptr, is_lin, PNULL
from fstmodel import FstModel, Run, N, RF, RL, new_fs, Z, ONE
from mtvcheck import flatten

S = lin.sym
LO, HI, INIT, VL, VW = S("@lo"), S("@hi"), S("@init"), S("@vL"), S("@vW")


class Spec:
    def __init__(self):
        self.bps = None       # function(checker, st) -> expected breakpoints; None = list must be unchanged
        self.ret = None       # function(checker, st, value, actual list)


class FstCheck(FstModel):
    def __init__(self, mod, func, offs):
        FstModel.__init__(self, mod, func, offs)
        self.viol = []
        self.stats = {}
        self.unk = {}

    # ---- the actual list ----------------------------------------------------------
    def actual(self, st):
        """[('n', key, value, id) | ('r', run id, shift)], problems"""
        m = st.m
        o = self.o
        prob = []
        this = self.this
        for off, want, what in ((o["left"], N(self.L), "left"), (o["right"], N(self.W), "right")):
            v = self.I.norm(st, self.I.raw_load(st, this, off, "ptr"))
            if v != want:
                prob.append("the %s end node is replaced" % what)
        out = []
        cur = N(self.L)
        prev = PNULL
        seen = set()
        while True:
            r = cur[1]
            if r in seen:
                prob.append("the leaf list is cyclic")
                break
            seen.add(r)
            if r[0] == "n":
                c = st.mem.get(r)
                if c is None:
                    prob.append("the leaf list leads into a removed node")
                    break
                pv = self.I.norm(st, c.get(o["prev"], PNULL))
                if pv != prev:
                    prob.append("prev link of a leaf does not lead to its predecessor")
                if o["key"] not in c or o["value"] not in c:
                    prob.append("a leaf without key or value is in the list")
                    break
                out.append(("n", st.dom.norm(c[o["key"]]), st.dom.norm(c[o["value"]]), r[1]))
                nx = self.I.norm(st, c.get(o["next"], PNULL))
            elif r[0] == "rf":
                q = m.runs.get(r[1])
                if q is None:
                    prob.append("the leaf list leads into a removed run")
                    break
                pv = self.norm(st, q.before)
                if pv != prev:
                    prob.append("prev link of a leaf does not lead to its predecessor")
                out.append(("r", r[1], q.shift))
                nx = self.norm(st, q.after)
                cur = RL(r[1])
            else:
                prob.append("next link leads backwards")
                break
            prev = cur
            if not is_ptr(nx):
                if cur != N(self.W):
                    prob.append("the leaf list ends before the right end node")
                break
            if cur == N(self.W):
                prob.append("the right end node has a successor")
                break
            cur = nx
        return out, prob

    def norm(self, st, v):
        return self.I.norm(st, v)

    # ---- ghost queries ---------------------------------------------------------------
    def bounds(self, st, k):
        """original keys of the nearest ghost nodes around ghost item k"""
        m = st.m
        g = m.ghost
        a = next((g[j][1] for j in range(k - 1, -1, -1) if g[j][0] == "n"), None)
        b = next((g[j][1] for j in range(k + 1, len(g)) if g[j][0] == "n"), None)
        return m.gn[a][0], m.gn[b][0]

    def lt(self, st, a, b):
        """a < b, forking when the state does not tell"""
        return self.I.decide_ge0(st, add(sub(b, a), const(-1)))

    def before(self, st, k, T):
        """is ghost item k at an original key < T?  (runs are cut at T when necessary)"""
        m = st.m
        it = m.ghost[k]
        if it[0] == "n":
            return self.lt(st, m.gn[it[1]][0], T)
        lo, hi = self.bounds(st, k)
        d = st.dom
        if d.ge0(sub(T, hi)):
            return True
        if d.ge0(sub(add(lo, ONE), T)):
            return False
        rid = it[1]

        def allbefore(s):
            if not self.split_back(s, rid):
                return False
            n = s.m.ghost[k + 1][1]
            return s.dom.add_ge0(add(sub(T, s.m.gn[n][0]), const(-1)))

        def allafter(s):
            if not self.split_front(s, rid):
                return False
            n = s.m.ghost[k][1]
            return s.dom.add_ge0(sub(s.m.gn[n][0], T))

        def both(s):
            if not self.split_front(s, rid):
                return False
            n = s.m.ghost[k][1]
            if not s.dom.add_ge0(add(sub(T, s.m.gn[n][0]), const(-1))):
                return False
            rest = s.m.ghost[k + 1][1]
            if not self.split_back(s, rest):
                return False
            n = s.m.ghost[k + 2][1]
            return s.dom.add_ge0(sub(s.m.gn[n][0], T))

        def mid(s):
            # R1 p c R2 with p < T <= c
            if not self.split_back(s, rid):
                return False
            c = s.m.ghost[k + 1][1]
            if not self.split_back(s, s.m.ghost[k][1]):
                return False
            p = s.m.ghost[k + 1][1]
            # a run behind c
            q = self.nid(s)
            r0 = s.m.runs[s.m.ghost[k][1]]
            if r0.status == "dead":
                s.m.runs[q] = Run("dead", Z, PNULL, PNULL)
                s.m.ghost = s.m.ghost[:k + 3] + (("r", q),) + s.m.ghost[k + 3:]
            else:
                nx = self.heap_ptr(s, c, "next")
                s.m.runs[q] = Run("live", r0.shift, N(c), nx)
                self.redirect(s, nx, "prev", RL(q))
                self.I.raw_store(s, ("n", c), self.o["next"], RF(q))
                s.m.ghost = s.m.ghost[:k + 3] + (("r", q),) + s.m.ghost[k + 3:]
            return s.dom.add_ge0(add(sub(T, s.m.gn[p][0]), const(-1))) and s.dom.add_ge0(sub(s.m.gn[c][0], T))
        raise Fork([lambda s: self.make_empty(s, rid), allbefore, allafter, mid])

    def cut(self, st, T):
        """number of ghost items with original key < T (W counts as an item)"""
        g = st.m.ghost
        for k in range(len(g)):
            if not self.before(st, k, T):
                return k
        return len(g)

    def val_before(self, st, k):
        """original value of the last node among the first k ghost items"""
        it = st.m.ghost[k - 1]
        if it[0] == "n":
            return st.m.gn[it[1]][1]
        rid = it[1]
        raise Fork([lambda s: self.make_empty(s, rid), lambda s: self.split_back(s, rid)])

    def items(self, st, a, b, shift=Z):
        out = []
        for it in st.m.ghost[a:b]:
            if it[0] == "n":
                ok, ov = st.m.gn[it[1]]
                out.append(("n", add(ok, shift), ov, it[1]))
            else:
                out.append(("r", it[1], shift))
        return out

    def last(self, st):
        return len(st.m.ghost) - 1      # index of W

    def end(self, st):
        return [("n", HI, VW, self.W)]

    def original(self, st):
        return self.items(st, 0, len(st.m.ghost))

    # ---- comparison -----------------------------------------------------------------
    def reduce(self, st, bps):
        """drop breakpoints that repeat the value before them (seams only: original neighbours differ)"""
        out = []
        g = st.m.ghost
        adj = {(g[i][1], g[i + 1][1]) for i in range(len(g) - 1) if g[i][0] == "n" and g[i + 1][0] == "n"}
        for i, b in enumerate(bps):
            if b[0] == "n" and out and i < len(bps) - 1:
                p = out[-1]
                if p[0] == "n":
                    if p[3] is not None and b[3] is not None and p[4] and b[4] and (p[3], b[3]) in adj:
                        pass
                    elif self.I.decide(st, "eq", self.I.norm(st, p[2]), self.I.norm(st, b[2])):
                        continue
                else:
                    # value of the last leaf of a run
                    rid = p[1]
                    gi = g.index(("r", rid))
                    if not (gi + 1 < len(g) and b[3] is not None and b[4] and g[gi + 1] == ("n", b[3])):
                        raise Fork([lambda s: self.make_empty(s, rid), lambda s: self.split_back(s, rid)])
            if b[0] == "r" and out and out[-1][0] == "n":
                p = out[-1]
                gi = g.index(("r", b[1]))
                if not (gi > 0 and p[3] is not None and p[4] and g[gi - 1] == ("n", p[3])):
                    rid = b[1]
                    raise Fork([lambda s: self.make_empty(s, rid), lambda s: self.split_front(s, rid)])
            if b[0] == "r" and out and out[-1][0] == "r":
                gi = g.index(("r", b[1]))
                if g[gi - 1] != ("r", out[-1][1]):
                    rid = b[1]
                    raise Fork([lambda s: self.make_empty(s, rid), lambda s: self.split_front(s, rid)])
            out.append(b)
        return out

    def tag(self, st, bps):
        """(n, key, val, id, original value?)"""
        out = []
        for b in bps:
            if b[0] == "n":
                n = b[3]
                orig = n is not None and n in st.m.gn and st.dom.norm(b[2]) == st.dom.norm(st.m.gn[n][1])
                out.append(("n", st.dom.norm(b[1]), st.dom.norm(b[2]), n, orig))
            else:
                out.append(b)
        return out

    def nonempty_range(self, st, bps):
        """breakpoints whose key equals the key of their successor cover nothing"""
        out = []
        for i, b in enumerate(bps):
            if b[0] == "n" and i + 1 < len(bps) and bps[i + 1][0] == "n" and i + 1 <= len(bps) - 1:
                if self.I.decide(st, "eq", b[1], bps[i + 1][1]):
                    if i == 0:
                        pass
                    continue
            out.append(b)
        return out

    def same(self, st, a, b):
        if len(a) != len(b):
            return False
        for x, y in zip(a, b):
            if x[0] != y[0]:
                return False
            if x[0] == "r":
                if x[1] != y[1] or st.dom.norm(sub(x[2], y[2])) != Z:
                    return False
            else:
                if not self.I.decide(st, "eq", x[1], y[1]):
                    return False
                if not self.I.decide(st, "eq", x[2], y[2]):
                    return False
        return True

    def increasing(self, st, act):
        """(asked only when the segments differ from the specified ones, whose keys increase)"""
        g = st.m.ghost
        for x, y in zip(act, act[1:]):
            if x[0] == "n" and y[0] == "n":
                if not self.lt(st, x[1], y[1]):
                    return False
                continue
            for z, split in ((x, self.split_back), (y, self.split_front)):
                if z[0] != "r":
                    continue
                k = g.index(("r", z[1]))
                lo, hi = self.bounds(st, k)
                o = y if z is x else x
                d = st.dom
                if o[0] == "n" and (d.ge0(sub(o[1], add(hi, z[2]))) if z is x else d.ge0(sub(add(lo, z[2]), o[1]))):
                    continue
                if o[0] == "r" and abs(g.index(("r", o[1])) - k) <= 2 and d.norm(sub(x[2], y[2])) == Z:
                    continue
                rid = z[1]
                raise Fork([lambda s: self.make_empty(s, rid), lambda s: split(s, rid)])
        return True

    def same_keys(self, st, a, b):
        if len(a) != len(b):
            return False
        for x, y in zip(a, b):
            if x[0] != y[0] or (x[0] == "r" and (x[1] != y[1] or st.dom.norm(sub(x[2], y[2])) != Z)):
                return False
            if x[0] == "n" and not self.I.decide(st, "eq", x[1], y[1]):
                return False
        return True

    def show(self, st, bps):
        out = []
        for b in bps:
            if b[0] == "n":
                out.append("%s:%s" % (lin.show(b[1]), lin.show(b[2])))
            else:
                out.append("run%d%s" % (b[1], "" if b[2] == Z else "(+%s)" % lin.show(b[2])))
        return re.sub(r"#\d+", "", " ".join(out))

    def path(self, st):
        out = []
        for i, t in st.trail[-30:]:
            s = self.mod.loc_str(i.loc)
            if s.startswith("include/mdds"):
                out.append("%s%s" % (s.split("/")[-1], "+" if t else "-"))
        return out

    def bad(self, st, o, cat, msg):
        self.viol.append((cat, msg, self.mod.chain_str(o.ins.loc) if o.ins is not None else "?", self.path(st)))

    def at_exit(self, interp, o):
        st = o.st
        if o.kind in ("unreachable",):
            return
        if o.kind == "unknown":
            self.stats["unknown"] = self.stats.get("unknown", 0) + 1
            k = (o.why, self.mod.chain_str(o.ins.loc).split(" <- ")[0] if o.ins is not None else "?")
            self.unk[k] = self.unk.get(k, 0) + 1
            interp.out.append(o.kind)
            return
        if o.kind == "bug":
            self.bad(st, o, "bug", o.why)
            self.stats["bug"] = self.stats.get("bug", 0) + 1
            interp.out.append(o.kind)
            return
        if o.kind == "throw":
            self.stats["throw"] = self.stats.get("throw", 0) + 1
            interp.out.append(o.kind)
            return
        errs = []
        self.collect(st)
        act, prob = self.actual(st)
        sp = self.spec
        if prob:
            for p in prob:
                errs.append(("link", p))
        else:
            act = self.tag(st, act)
            exp = sp.bps(self, st) if sp.bps else None
            orig = self.tag(st, self.original(st))
            if exp is None:
                exp = orig
                if not self.same(st, act, orig):
                    errs.append(("map", "the segments are modified: %s; before: %s" % (self.show(st, act), self.show(st, orig))))
            else:
                exp = self.reduce(st, self.tag(st, exp))
                if not self.same(st, act, exp):
                    if self.same(st, self.reduce(st, act), exp):
                        errs.append(("canon", "neighbouring segments with equal values are not merged: %s" % self.show(st, act)))
                    else:
                        errs.append(("map", "segments are %s; specified: %s; before: %s" % (self.show(st, act), self.show(st, exp), self.show(st, orig))))
            if errs and errs[-1][0] == "map" and len(self.reduce(st, act)) != len(act):
                errs.append(("canon", "neighbouring segments with equal values are not merged: %s" % self.show(st, act)))
            if errs and errs[0][0] == "map" and not self.increasing(st, act):
                errs.append(("link", "leaf keys do not strictly increase: %s" % self.show(st, act)))
            if not self.same_keys(st, act, orig):
                v = self.I.norm(st, self.I.raw_load(st, self.this, self.o["valid"], "i8"))
                if not (is_lin(v) and not v[1] and v[0] == 0):
                    errs.append(("tree", "leaf nodes change but the tree is still marked valid"))
            if sp.ret and not errs:
                e = sp.ret(self, st, o.val, act)
                if e:
                    errs.append(("ret", e))
        v = st.dom.norm(self.I.raw_load(st, self.this, self.o["init"], "i64"))
        if v != st.dom.norm(INIT):
            errs.append(("map", "the default value is modified"))
        if st.m.leaks:
            errs.append(("leak", "removed leaf nodes keep each other alive (mutual links)"))
        self.stats["ret"] = self.stats.get("ret", 0) + 1
        interp.out.append("ret")
        for c, t in errs:
            self.bad(st, o, c, t)


# ---- specifications ------------------------------------------------------------------------
def clip_lt(c, st, a, b):
    return c.lt(st, a, b)


def spec_insert(s, e, v):
    def bps(c, st):
        # rejected: empty range or no overlap
        if not c.lt(st, s, e) or c.lt(st, e, LO) or not c.lt(st, s, HI):
            return None
        s2 = LO if c.lt(st, s, LO) else s
        e2 = HI if c.lt(st, HI, e) else e
        if not c.lt(st, s2, e2):
            return None
        a = c.cut(st, s2)
        b = c.cut(st, add(e2, ONE))     # items with key <= e2
        out = c.items(st, 0, a) + [("n", s2, v, None)]
        if c.lt(st, e2, HI):
            out += [("n", e2, c.val_before(st, b), None)]
            out += c.items(st, b, c.last(st))
        return out + c.end(st)
    return bps


def spec_shift_left(s, e):
    def bps(c, st):
        if not c.lt(st, s, e) or c.lt(st, s, LO) or c.lt(st, HI, e):
            return None
        size = sub(e, s)
        a = c.cut(st, s)
        b = c.cut(st, add(e, ONE))
        w = c.last(st)
        out = c.items(st, 0, a)
        if c.lt(st, e, HI):
            out += [("n", s, c.val_before(st, b), None)]
            out += c.items(st, b, w, lin.neg(size))
        out += [("n", sub(HI, size), INIT, None)]
        return out + c.end(st)
    return bps


def spec_shift_right(pos, size, skip):
    def bps(c, st):
        if not c.lt(st, Z, size) or c.lt(st, pos, LO) or not c.lt(st, pos, HI):
            return None
        sk = c.I.truth(st, skip)
        a = c.cut(st, pos)
        a1 = c.cut(st, add(pos, ONE))
        fits = c.lt(st, add(pos, size), HI)
        w = c.last(st)
        lim = c.cut(st, sub(HI, size))      # items with key + size < HI
        if not c.lt(st, LO, pos):
            first = c.val_before(st, a1)
            if sk:
                return c.items(st, 0, 1) + c.items(st, 1, max(lim, 1), size) + c.end(st)
            out = [("n", LO, INIT, None)]
            if fits:
                out += [("n", add(LO, size), first, None)] + c.items(st, 1, max(lim, 1), size)
            return out + c.end(st)
        if sk:
            return c.items(st, 0, a1) + c.items(st, a1, max(lim, a1), size) + c.end(st)
        return c.items(st, 0, a) + c.items(st, a, max(lim, a), size) + c.end(st)
    return bps


def spec_clear():
    def bps(c, st):
        return [("n", LO, INIT, None)] + c.end(st)
    return bps
