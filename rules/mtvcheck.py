"""Specifications of the multi_type_vector edits and the checks made on every abstract exit."""
import sys
import time
import ir
import lin
from lin import const, add, sub
from absint import Interp, Fork, Stop, new_state, Outcome, is_ptr, is_lin, fresh, PNULL
from mtvmodel import MtvModel, new_ms, Z, ONE


def flatten(mod, t, base=0, pre=""):
    out = {}
    t = mod.strip(t)
    for n, o, s, ty, _ in mod.members(t):
        sub_ = mod.strip(ty)
        p = pre if n == "<base>" else (pre + "." + n if pre else n)
        if sub_ is not None and mod.members(sub_) and not mod.types[sub_].get("id", "").startswith(("std::", "__gnu")) \
                and mod.types[sub_]["t"] in ("DW_TAG_structure_type", "DW_TAG_class_type") and "vector<" not in mod.types[sub_]["n"][:7]:
            out.update(flatten(mod, sub_, base + o, p))
        else:
            out[p] = base + o
    return out


class Spec:
    """what an entry has to do; all positions are linear forms over the initial symbols"""

    def __init__(self):
        self.pre = []          # (description, linear form that must be >= 0 for a valid call)
        self.expect = {}       # container -> list of pieces
        self.ret = None        # ('block', container, position) | ('end', ...)
        self.keep = []         # pieces handed to the caller
        self.kind = ""
        self.mayret = None
        self.mayfail = False
        self.extra = None
        self.soft = None       # when this form is 0 a bad position may be rejected or ignored
        self.evx = False       # event handlers travel with the contents
        self.out = None        # (region, container, position): where a value is delivered
        self.rv = None         # scalar result


class Checker(MtvModel):
    def __init__(self, mod, func, layout, spec_fn):
        super().__init__(mod, func, layout)
        self.spec_fn = spec_fn
        self.viol = []
        self.stats = {"ret": 0, "throw": 0, "unknown": 0, "bug": 0}

    def forget(self):
        self.viol = []
        self.stats = {k: 0 for k in self.stats}
        self.unk_log = {}
        self.n_ops.clear()

    # ---- exit checks -----------------------------------------------------------
    def at_exit(self, interp, o):
        st = o.st
        self.clean(st)
        if st.dom.bad:
            return
        if o.kind == "ret":
            self.check_ret(st, o)
        elif o.kind == "throw":
            self.check_throw(st, o)
        elif o.kind == "bug":
            self.report(st, "bug" if self.pre_ok(st) else "ub", o.why, o.ins)
        elif o.kind == "unknown":
            self.unk_log = getattr(self, "unk_log", {})
            k = (o.why, self.where(o.ins) if o.ins else "?")
            self.unk_log[k] = self.unk_log.get(k, 0) + 1
        self.stats[o.kind] = self.stats.get(o.kind, 0) + 1
        interp.out.append(o.kind)

    def report(self, st, cat, msg, ins=None):
        names = {}
        tr = []
        last = None
        for i, t in st.trail:
            ch = self.mod.loc_chain(i.loc)
            md = [c for c in ch if c[0].startswith("include/mdds")]
            if not md:
                continue
            s = "%s:%d=%s" % (md[0][0].split("/")[-1], md[0][1], "T" if t else "F")
            if s != last:
                tr.append(s)
            last = s
        loc = self.mod.chain_str(ins.loc) if ins is not None else "?"
        self.viol.append((cat, msg, loc, tuple(tr[-14:])))

    def pre_ok(self, st):
        """can the call be a valid one on this path?  (decides by case split)"""
        if self.spec.soft is not None and not self.I.decide_ge0(st, sub(self.spec.soft, ONE)):
            return None
        for d, t in self.spec.pre:
            if not self.I.decide_ge0(st, t):
                return False
        return True

    def check_throw(self, st, o):
        why = o.why
        if any(x in why for x in ("out_of_range", "invalid_arg", "size_error", "type_error", "general_error", "logic_error", "length_error", "element_block_error")):
            if self.pre_ok(st) and self.spec.pre is not None:
                if not self.spec.mayfail:
                    self.report(st, "reject", "a valid call ends in a throw of %s" % why, o.ins)
            if st.m.wrote:
                # only matters when the call is invalid, i.e. when the throw is legitimate
                self.report(st, "strong", "the container is modified (%s) before %s is thrown" % (st.m.wrote, why), o.ins)

    def rows(self, st, cont):
        """the block arrays of a container as one list of rows"""
        m = st.m
        reg = [r for r, c in self.conts.items() if c == cont][0]
        keys = sorted(k for k in m.vecs if k[0] == reg)
        if self.layout == "aos":
            rows = []
            for e in m.vecs[keys[0]]:
                if e[0] == "g":
                    r = {x[1]: x[2] for x in e[2]}
                    rows.append(("g", e[1], r))
                else:
                    d = dict(e[1])
                    rows.append(("e", {n: d.get(o) for n, o in self.rec.items()}))
            return rows, None
        names = {self.offs["pos"]: "position", self.offs["size"]: "size", self.offs["data"]: "data"}
        vs = {names[k[1]]: m.vecs[k] for k in keys if k[1] in names}
        p, s, d = vs["position"], vs["size"], vs["data"]
        rows = []
        if not (len(p) == len(s) == len(d)):
            return None, "the position, size and element-block arrays have different lengths"
        for x, y, z in zip(p, s, d):
            if x[0] == "g" or y[0] == "g" or z[0] == "g":
                if not (x[0] == y[0] == z[0] == "g" and x[1] == y[1] == z[1]):
                    return None, "the position, size and element-block arrays are out of step"
                rows.append(("g", x[1], {"pos": x[2][0][2], "size": None, "data": z[2][0][2]}))
            else:
                rows.append(("e", {"position": x[1][0][1], "size": y[1][0][1], "data": z[1][0][1]}))
        return rows, None

    def entailed_eq(self, st, a, b):
        a, b = self.I.norm(st, a), self.I.norm(st, b)
        if not (is_lin(a) and is_lin(b)):
            return a == b
        return self.I.decide(st, "eq", a, b)

    def check_ret(self, st, o):
        if self.spec.kind == "skip":
            return
        self.clean(st)
        ins = o.ins
        rep = lambda c, m_: self.report(st, c, m_, ins)
        if self.pre_ok(st) is False:
            rep("accept", "an out-of-range call returns normally")
            return
        for e in st.errs:
            self.report(st, e[0], e[1], e[2])
        owners = {}
        self.unann = []
        m = st.m
        for cont in self.conts.values():
            ev = cont if not self.spec.evx else [c for c in self.conts.values() if c != cont][0]
            rows, err = self.rows(st, cont)
            if err:
                rep("struct", "container %s: %s" % (cont, err))
                return
            cum = Z
            seq = []
            prev = None
            ok = True
            for i, r in enumerate(rows):
                if r[0] == "g":
                    p = m.pi[r[1]]
                    start = add(self.oldpos(st, r[1]), r[2]["pos"])
                    if not self.entailed_eq(st, start, cum):
                        if self.I.decide_ge0(st, sub(p.cnt, ONE)):
                            rep("struct", "container %s: the positions of the blocks after the edit do not follow from the sizes (off by %s)" % (
                                cont, lin.show(st.dom.norm(sub(start, cum)))))
                            return
                        self.clean(st)
                        return self.check_ret(st, o)
                    if p.status[0] != "full" or not p.status[1]:
                        if self.I.decide_ge0(st, sub(p.cnt, ONE)):
                            rep("own", "container %s still refers to element blocks that were emptied or deleted" % cont)
                            return
                    else:
                        net = dict(p.status[2])
                        if net.get(ev, 0) != 1 or len(net) != 1:
                            if self.I.decide_ge0(st, sub(p.cnt, ONE)):
                                rep("event", "blocks that stay in container %s are announced as released" % cont)
                    if r[2]["data"] == "null":
                        seq.append(("empty", p.len))
                    else:
                        seq.append(("oldg", p.cont, self.oldpos(st, r[1]), p.len, r[1]))
                    owners.setdefault(r[1], []).append(cont)
                    cum = st.dom.norm(add(cum, p.len))
                    continue
                d = r[1]
                pos, size, data = (self.I.norm(st, d[x]) if d[x] is not None else None for x in ("position", "size", "data"))
                if is_ptr(data) and data[1][0] == "eb":
                    pc = m.pi.get(data[1][1])
                    if pc is not None and pc.null is None:
                        self.fork_null(st, data[1][1])
                if pos is None or not self.entailed_eq(st, pos, cum):
                    rep("struct", "container %s: block %d has position %s, expected %s" % (cont, i, pos and lin.show(pos), lin.show(cum)))
                    return
                if not self.I.decide_ge0(st, sub(size, ONE)):
                    rep("struct", "container %s: a block of size zero is left behind" % cont)
                    return
                if is_lin(data):
                    seq.append(("empty", size))
                else:
                    if data[1][0] != "eb":
                        rep("struct", "container %s: block data is not an element block" % cont)
                        return
                    b = m.blk.get(data[1][1])
                    if not b.alive:
                        rep("own", "container %s refers to a deleted element block" % cont)
                        return
                    l = self.clen(st, b.content)
                    if not self.entailed_eq(st, l, size):
                        rep("struct", "container %s: a block of size %s has an element block with %s elements" % (cont, lin.show(size), lin.show(l)))
                        return
                    owners.setdefault(data[1][1], []).append(cont)
                    net = dict(b.ev)
                    if not net:
                        self.unann.append((cont, ev, data[1][1]))
                    elif net.get(ev, 0) != 1:
                        rep("event", "element block in container %s was not announced as acquired" % cont)
                    elif len(net) != 1:
                        rep("event", "element block moved to container %s was not announced as released by its former owner" % cont)
                    seq.extend(b.content)
                cum = st.dom.norm(add(cum, size))
            reg = [r for r, c in self.conts.items() if c == cont][0]
            cur = self.I.norm(st, st.mem[reg][self.offs["cur"]])
            if not is_lin(cur) or not self.entailed_eq(st, cur, cum):
                rep("struct", "container %s: the recorded size is %s but the blocks hold %s elements" % (cont, lin.show(cur) if is_lin(cur) else cur, lin.show(cum)))
                return
            self.check_canon(st, o, cont, rows, rep)
            exp = self.spec.expect.get(cont)
            if exp.__class__ is tuple and exp[0] == "case":
                exp = exp[2] if self.I.decide_ge0(st, exp[1]) else exp[3]
            if exp is not None:
                self.check_seq(st, o, cont, seq, exp, rep)
        self.check_owner(st, o, owners, rep)
        if self.spec.ret is not None:
            self.check_iter(st, o, rep)
        if self.spec.out is not None:
            self.check_out(st, o, rep)
        if self.spec.rv is not None:
            self.check_rv(st, o, rep)
        if self.spec.extra:
            self.spec.extra(self, st, o, rep)

    def cell_at(self, st, cont, pos):
        """original cell that holds a position (a gap is split)"""
        cum = Z
        m = st.m
        for q in m.uni[cont]:
            p = m.pi[q]
            nx = st.dom.norm(add(cum, p.len))
            if self.I.decide_ge0(st, sub(nx, add(pos, ONE))):
                if p.kind == "c":
                    return q, cum
                j = fresh("k")
                st.dom.set_lb(j, 0)

                def alt(s):
                    s.dom.add_ge0(sub(s.m.pi[q].cnt, add(lin.sym(j), ONE)))
                    if s.dom.bad:
                        return False
                    c = self.split(s, q, lin.sym(j))
                    if s.dom.bad:
                        return False
                    cs = self.oldpos(s, c)
                    s.dom.add_ge0(sub(pos, cs))
                    s.dom.add_ge0(sub(add(cs, s.m.pi[c].len), add(pos, ONE)))
                    return not s.dom.bad
                raise Fork([alt])
            cum = nx
        return None, None

    def check_out(self, st, o, rep):
        reg, cont, pos = self.spec.out
        q, cs = self.cell_at(st, cont, pos)
        if q is None:
            rep("value", "no block holds the position")
            return
        p = st.m.pi[q]
        if p.null is None:
            self.fork_null(st, q)
        got = st.mem.get(reg, {}).get("value")
        if p.null:
            if got != "empty":
                rep("value", "an empty element is not delivered as the empty value")
            return
        if got is None or got == "empty" or len(got) != 1 or got[0][0] != "old" or got[0][1] != cont:
            rep("value", "the value delivered does not come from the element at the position")
            return
        if not self.entailed_eq(st, got[0][2], pos):
            rep("value", "the value delivered is that of position %s instead of %s" % (lin.show(st.dom.norm(got[0][2])), lin.show(pos)))

    def check_rv(self, st, o, rep):
        kind = self.spec.rv[0]
        v = self.I.norm(st, o.val) if o.val is not None else None
        if kind == "lin":
            want = self.spec.rv[1]
        elif kind == "bool":
            want = Z if self.I.decide_ge0(st, sub(self.spec.rv[1], ONE)) else ONE
        elif kind == "nblocks":
            want = Z
            for q in st.m.uni[self.spec.rv[1]]:
                want = add(want, st.m.pi[q].cnt)
        else:
            q, cs = self.cell_at(st, self.spec.rv[1], self.spec.rv[2])
            if q is None:
                rep("value", "no block holds the position")
                return
            p = st.m.pi[q]
            if p.null is None:
                self.fork_null(st, q)
            if kind == "isempty":
                want = ONE if p.null else Z
            else:
                want = const(-1) if p.null else st.m.blk[q].type
        if v is not None and v[0] == "B":
            v = ONE if self.I.truth(st, v) else Z
        if v is None or not is_lin(v) or not self.entailed_eq(st, v, want):
            rep("value", "the result is %s instead of %s" % (lin.show(v) if v is not None and is_lin(v) else v, lin.show(st.dom.norm(want))))

    def row_type(self, st, r):
        """'null' | lin form of the type | None (gap)"""
        if r[0] == "g":
            return None
        d = self.I.norm(st, r[1]["data"])
        if is_lin(d):
            return "null"
        return st.m.blk[d[1][1]].type

    def check_canon(self, st, o, cont, rows, rep):
        m = st.m
        for a, b in zip(rows, rows[1:]):
            ta, tb = self.row_type(st, a), self.row_type(st, b)
            if ta is not None and tb is not None:
                if ta == "null" or tb == "null":
                    same = ta == tb
                else:
                    same = self.I.decide(st, "eq", ta, tb)
                if same:
                    rep("canon", "container %s: two adjacent blocks of the same type are left unmerged" % cont)
                    return
                continue
            # a gap is involved: original neighbours with unchanged types are fine
            ia, ib = self.ident(st, a), self.ident(st, b)
            if ia and ib and m.pi[ia].cont == m.pi[ib].cont:
                u = m.uni[m.pi[ia].cont]
                if ia in u and ib in u and u.index(ib) == u.index(ia) + 1:
                    continue
            # look at the block of the gap that touches the other row
            g, last = (a[1], True) if a[0] == "g" else (b[1], False)
            n = m.pi[g].cnt
            if not self.I.decide_ge0(st, sub(n, ONE)):
                self.clean(st)
            else:
                self.split(st, g, sub(n, ONE) if last else Z)
            return self.again(st, o)

    class Again(Exception):
        pass

    def again(self, st, o):
        # restart the exit check on the refined state
        raise Fork([lambda s: True])

    def ident(self, st, r):
        """original piece a row stands for, when its null-ness/type is that of the original"""
        if r[0] == "g":
            return r[1] if r[2]["data"] != "null" else None
        d = r[1].get("data")
        if d is None:
            return None
        raw = d
        if is_ptr(raw) and raw[1][0] == "eb" and raw[1][1] in st.m.pi:
            return raw[1][1]
        return None

    # ---- sequence comparison -----------------------------------------------------
    def oldseq(self, st, cont, a, n):
        """the original sequence [a, a+n) of a container as segments ('empty' for empty blocks)"""
        m = st.m
        out = []
        a = st.dom.norm(a)
        end = st.dom.norm(add(a, n))
        if not self.I.decide_ge0(st, sub(n, ONE)):
            return out
        cum = Z
        for q in m.uni[cont]:
            p = m.pi[q]
            nx = st.dom.norm(add(cum, p.len))
            lo, hi = cum, nx
            # overlap of [lo,hi) with [a,end)
            if self.I.decide_ge0(st, sub(lo, end)):
                break
            if self.I.decide_ge0(st, sub(a, hi)):
                cum = nx
                continue
            s = lo if self.I.decide_ge0(st, sub(lo, a)) else a
            e = hi if self.I.decide_ge0(st, sub(end, hi)) else end
            ln = st.dom.norm(sub(e, s))
            if p.kind == "g":
                out.append(("oldg", cont, s, ln, q))
            else:
                if p.null is None:
                    self.fork_null(st, q)
                if p.null:
                    out.append(("empty", ln))
                else:
                    out.append(("old", cont, s, ln))
            cum = nx
        return out

    def expand(self, st, pieces):
        out = []
        for p in pieces:
            if p[0] == "OLD":
                out.extend(self.oldseq(st, p[1], p[2], p[3]))
            else:
                out.append(p)
        return out

    def check_seq(self, st, o, cont, seq, exp, rep):
        exp = self.expand(st, exp)
        got = list(seq)
        i = j = 0
        got = [p for p in got if not self.zero(st, p)]
        exp = [p for p in exp if not self.zero(st, p)]
        while got and exp:
            g, e = got[0], exp[0]
            if not self.same_kind(st, g, e):
                rep("seq", "container %s: expected %s, found %s" % (cont, self.show(st, e), self.show(st, g)))
                return
            lg, le = self.ln(g), self.ln(e)
            if self.I.decide(st, "eq", lg, le):
                got.pop(0)
                exp.pop(0)
            elif self.I.decide_ge0(st, sub(lg, le)):
                got[0] = self.tail(st, g, le)
                exp.pop(0)
            else:
                exp[0] = self.tail(st, e, lg)
                got.pop(0)
        if got:
            rep("seq", "container %s: extra elements at the end: %s" % (cont, self.show(st, got[0])))
        elif exp:
            rep("seq", "container %s: elements are missing: %s" % (cont, self.show(st, exp[0])))

    def ln(self, p):
        return p[3] if p[0] == "oldg" else p[-1]

    def zero(self, st, p):
        return not self.I.decide_ge0(st, sub(self.ln(p), ONE))

    def tail(self, st, p, n):
        l = st.dom.norm(sub(self.ln(p), n))
        if p[0] in ("old", "rng"):
            return (p[0], p[1], st.dom.norm(add(p[2], n)), l)
        if p[0] == "oldg":
            return (p[0], p[1], st.dom.norm(add(p[2], n)), l, p[4])
        return p[:-1] + (l,)

    def same_kind(self, st, g, e):
        if g[0] != e[0]:
            return False
        if g[0] in ("old", "oldg", "rng"):
            return g[1] == e[1] and self.I.decide(st, "eq", g[2], e[2])
        if g[0] in ("val", "fill"):
            return g[1] == e[1]
        return True

    def show(self, st, p):
        if p[0] in ("old", "oldg"):
            return "old(%s)[%s, +%s)" % (p[1], lin.show(st.dom.norm(p[2])), lin.show(st.dom.norm(self.ln(p))))
        if p[0] == "empty":
            return "%s empty" % lin.show(st.dom.norm(p[1]))
        if p[0] == "rng":
            return "values[%s, +%s)" % (lin.show(st.dom.norm(p[2])), lin.show(st.dom.norm(p[3])))
        return "%s x%s" % (p[0], lin.show(st.dom.norm(p[-1])))

    # ---- ownership -----------------------------------------------------------------
    def check_owner(self, st, o, owners, rep):
        m = st.m
        for b, w in owners.items():
            if len(w) > 1:
                rep("own", "an element block is owned twice (%s)" % ", ".join(w))
                return
        for bid, b in m.blk.items():
            if b.alive and bid not in owners:
                pc = m.pi.get(bid)
                if pc is not None and (pc.null is not False or bid not in m.uni[pc.cont]):
                    continue
                rep("own", "an element block that left the container is never deleted (leak): %s" % (
                    "block of the original container" if b.origin == "old" else "created at " + b.origin))
                return
            if not b.alive:
                net = [x for x in b.ev if x[1]]
                if len(net) == 1 and net[0][1] == 1:
                    # a block swapped for a new one of the same type without events (the count stays right)
                    for x in self.unann:
                        if x[1] == net[0][0] and self.I.decide(st, "eq", m.blk[x[2]].type, b.type):
                            self.unann.remove(x)
                            net = []
                            break
                if net:
                    rep("event", "an element block is deleted without element_block_released (%s)" % (
                        "block of the original container" if b.origin == "old" else "created at " + b.origin))
        for cont in self.conts.values():
            for q in m.uni[cont]:
                p = m.pi[q]
                if p.kind == "g" and q not in owners:
                    if p.status[1] and self.I.decide_ge0(st, sub(p.cnt, ONE)):
                        rep("own", "blocks dropped from container %s are never deleted (leak)" % cont)
                        return
                    if any(n for _, n in p.status[2]) and self.I.decide_ge0(st, sub(p.cnt, ONE)):
                        rep("event", "blocks dropped from container %s are deleted without element_block_released" % cont)
        for x in self.unann:
            rep("event", "element block in container %s was not announced as acquired" % x[0])
        # every original element: kept, handed out or destroyed, exactly once
        for cont in self.conts.values():
            cum = Z
            for q in m.uni[cont]:
                p = m.pi[q]
                lo = st.dom.norm(cum)
                hi = st.dom.norm(add(cum, p.len))
                cum = hi
                if p.kind == "c" and p.null:
                    continue
                iv = []
                for bid, b in m.blk.items():
                    if b.alive and bid in owners:
                        for x in b.content:
                            if x[0] == "old" and x[1] == cont:
                                iv.append((x[2], x[3], "kept"))
                if q in owners and p.kind == "g" and p.status[0] == "full":
                    iv.append((lo, p.len, "kept"))
                for x, why in m.destroyed:
                    if x[0] == "old" and x[1] == cont:
                        iv.append((x[2], x[3], "destroyed by " + why))
                for x in self.spec.keep:
                    if x[1] == cont:
                        iv.append((x[2], x[3], "handed out"))
                if p.kind == "g" and p.status[0] == "full" and p.status[1]:
                    pass
                sel = []
                for s, n, w in iv:
                    s, e = st.dom.norm(s), st.dom.norm(add(s, n))
                    if self.I.decide_ge0(st, sub(s, hi)) or self.I.decide_ge0(st, sub(lo, e)):
                        continue
                    if not self.I.decide_ge0(st, sub(e, add(s, ONE))):
                        continue
                    s2 = s if self.I.decide_ge0(st, sub(s, lo)) else lo
                    e2 = e if self.I.decide_ge0(st, sub(hi, e)) else hi
                    sel.append((s2, e2, w))
                pos = lo
                used = 0
                while True:
                    if self.I.decide_ge0(st, sub(pos, hi)):
                        break
                    nx = None
                    for x in sel:
                        if self.I.decide(st, "eq", x[0], pos):
                            if nx is not None:
                                rep("own", "elements of container %s are both %s and %s" % (cont, nx[2], x[2]))
                                return
                            nx = x
                    if nx is None:
                        # an interval that covers pos but starts earlier = overlap
                        for x in sel:
                            if self.I.decide_ge0(st, sub(pos, x[0])) and self.I.decide_ge0(st, sub(x[1], add(pos, ONE))):
                                rep("own", "elements of container %s are %s twice or in two ways" % (cont, x[2]))
                                return
                        rep("own", "elements of container %s leave it without being destroyed or handed over (offset %s of a block)" % (
                            cont, lin.show(st.dom.norm(sub(pos, lo)))))
                        return
                    for x in sel:
                        if x is not nx and self.I.decide_ge0(st, sub(x[0], pos)) and self.I.decide_ge0(st, sub(nx[1], add(x[0], ONE))):
                            rep("own", "elements of container %s are both %s and %s" % (cont, nx[2], x[2]))
                            return
                    pos = nx[1]
                    used += 1
                    if used > 60:
                        raise Stop("unknown", "ownership check")

    # ---- returned iterators ---------------------------------------------------------
    def check_iter(self, st, o, rep):
        kind, cont, pos, n, base = self.spec.ret
        if kind == "block0" and not self.I.decide_ge0(st, sub(n, ONE)):
            pos = None
        m = st.m
        mem = st.mem.get(base, {})

        def fld(n, ty):
            v = mem.get(self.ito[n])
            if v is None:
                return None
            return self.I.norm(st, self.I.raw_load(st, base, self.ito[n], ty))
        idx = fld("block_index", "i64")
        par = fld("parent", "ptr")
        reg = [r for r, c in self.conts.items() if c == cont][0]
        if par is None or par != ("P", reg, Z):
            rep("iter", "the returned iterator is not bound to the container")
            return
        # which row holds pos?
        rows, _ = self.rows(st, cont)
        cum, k = Z, Z
        hit = None
        for r in rows:
            if r[0] == "g":
                p = m.pi[r[1]]
                l, n = p.len, p.cnt
            else:
                l, n = r[1]["size"], ONE
            nx = st.dom.norm(add(cum, l))
            if pos is not None and self.I.decide_ge0(st, sub(nx, add(pos, ONE))):
                hit = (r, cum, k)
                break
            cum, k = nx, st.dom.norm(add(k, n))
        if hit is None:
            want = k
        else:
            if hit[0][0] == "g":
                # unchanged region: find the block by splitting
                g = hit[0][1]
                j = fresh("k")
                st.dom.set_lb(j, 0)

                def alt(s):
                    c = self.split(s, g, lin.sym(j))
                    if s.dom.bad:
                        return False
                    cs = self.oldpos(s, c)
                    sh = hit[0][2]["pos"]
                    s.dom.add_ge0(sub(pos, add(cs, sh)))
                    s.dom.add_ge0(sub(add(add(cs, sh), s.m.pi[c].len), add(pos, ONE)))
                    return not s.dom.bad

                def alt2(s):
                    n = s.m.pi[g].cnt
                    s.dom.add_ge0(sub(n, add(lin.sym(j), ONE)))
                    if s.dom.bad:
                        return False
                    return alt(s)
                raise Fork([alt2])
            want = hit[2]
        if idx is None or not self.entailed_eq(st, idx, want):
            rep("iter", "the returned iterator has block index %s, the position is in block %s" % (
                lin.show(idx) if idx is not None and is_lin(idx) else idx, lin.show(want)))
            return
        if kind == "position":
            v = self.I.norm(st, self.I.raw_load(st, base, self.ito["sizeof"], "i64"))
            w = sub(pos, hit[1]) if hit is not None else Z
            if not is_lin(v) or not self.entailed_eq(st, v, w):
                rep("iter", "the returned offset is %s instead of %s" % (lin.show(v) if is_lin(v) else v, lin.show(st.dom.norm(w))))
                return
        size = self.vsize(st, sorted(kk for kk in m.vecs if kk[0] == reg)[0])
        for n, off in self.ito.items():
            if n.startswith(("pos:", "end:")):
                v = fld(n, "ptr")
                if not is_ptr(v) or v[1][0] != "vd":
                    rep("iter", "the returned iterator is not initialised (%s)" % n)
                    return
                key, ix, f_ = self.vdata(st, v, "use of the returned iterator")
                if key[0] != reg:
                    rep("iter", "the returned iterator points into another container")
                    return
                w = want if n.startswith("pos:") else size
                if not self.entailed_eq(st, ix, w):
                    rep("iter", "the returned iterator's %s cursor is at block %s instead of %s" % (n[:3], lin.show(ix), lin.show(w)))
                    return
        if hit is None:
            return
        d = hit[0][1]
        for n, w in (("position", hit[1]), ("size", self.I.norm(st, d["size"]))):
            v = fld(n, "i64")
            if v is None or not self.entailed_eq(st, v, w):
                rep("iter", "the returned iterator reports %s %s instead of %s" % (n, lin.show(v) if v is not None and is_lin(v) else v, lin.show(w)))
                return
        v = fld("data", "ptr")
        if v is None or v != self.I.norm(st, d["data"]):
            rep("iter", "the returned iterator reports a stale element block")
            return
        t = fld("type", "i32")
        dt = self.I.norm(st, d["data"])
        w = const(-1) if is_lin(dt) else m.blk[dt[1][1]].type
        if t is None or not self.entailed_eq(st, t, w):
            rep("iter", "the returned iterator reports the wrong block type")
