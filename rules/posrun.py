"""Block-position adjustment: every loop-unrolling and SIMD variant adds delta to exactly the positions
[start, n) and touches nothing else.  The content of the position array is a list of slices of the original
array, each with the amount added to it."""
import re
import lin
from lin import const, add, sub
from absint import Interp, Stop, is_ptr, is_lin, new_state
from mtvcheck import flatten
from seqmodel import SeqModel, Z, ONE, SM

S = lin.sym
VT = re.compile(r"<(\d+) x (i\d+)>")


class PosInterp(Interp):
    """adds vector registers and remainders by powers of two"""

    def _op_and(self, st, i):
        a, b = self.val(st, i.a[1]), self.val(st, i.a[2])
        if is_lin(a) and is_lin(b) and i.a[0] != "i1":
            if not a[1]:
                a, b = b, a
            if not b[1] and b[0] > 0 and (b[0] & (b[0] + 1)) == 0 and a[1]:
                st.env[i.id] = self.rest(st, a, b[0] + 1)
                return
        Interp._op_and(self, st, i)

    def rest(self, st, a, n):
        """a mod n (the non-negative one), with the quotient as a symbol"""
        a = st.dom.norm(a)
        new = ("div%d" % n, a) not in self.ufs
        q = self.uf(st, "div%d" % n, a)
        r = st.dom.norm(sub(a, lin.scale(q, n)))
        st.dom.add_ge0(r)
        st.dom.add_ge0(sub(const(n - 1), r))
        if new and st.dom.ge0(a):
            pass
        if st.dom.ge0(a):
            st.dom.set_lb(q[1][0][0], 0)
        return st.dom.norm(r)

    def _rem(self, st, i):
        a, b = self._bin(st, i)
        if not b[1] and b[0] > 0 and (i.op == "urem" or st.dom.ge0(a)):
            st.env[i.id] = self.rest(st, a, b[0])
            return
        Interp._op_urem(self, st, i)

    _op_urem = _op_srem = _rem

    def lanes(self, st, i, f):
        m = VT.match(i.a[0])
        if not m:
            return False
        n = int(m.group(1))
        v = [self.vec_of(st, self.val(st, x), n) for x in i.a[1:3]]
        st.env[i.id] = ("S", tuple(st.dom.norm(f(x, y)) for x, y in zip(*v)))
        return True

    def vec_of(self, st, v, n):
        if v.__class__ is tuple and v[0] == "S" and len(v[1]) == n:
            return v[1]
        if is_lin(v) and not v[1]:
            return (v,) * n
        raise Stop("unknown", "vector register of unknown content")

    def _op_add(self, st, i):
        if not self.lanes(st, i, add):
            Interp._op_add(self, st, i)

    def _op_sub(self, st, i):
        if not self.lanes(st, i, sub):
            Interp._op_sub(self, st, i)

    def _op_insertelement(self, st, i):
        n = int(VT.match(i.a[0]).group(1))
        v = self.val(st, i.a[1])
        l = list(v[1]) if v.__class__ is tuple and v[0] == "S" else [Z] * n
        k = self.val(st, i.a[3])
        if not is_lin(k) or k[1] or k[0] >= n:
            raise Stop("unknown", "vector lane")
        l[k[0]] = self.as_lin(st, self.val(st, i.a[2]))
        st.env[i.id] = ("S", tuple(l))

    def _op_extractelement(self, st, i):
        v = self.val(st, i.a[1])
        k = self.val(st, i.a[2])
        if v.__class__ is tuple and v[0] == "S" and is_lin(k) and not k[1] and k[0] < len(v[1]):
            st.env[i.id] = v[1][k[0]]
            return
        raise Stop("unknown", "vector lane")

    def _other(self, st, i):
        raise Stop("unknown", "instruction " + i.op)

    def _cast(self, st, i):
        Interp._cast(self, st, i)

    def norm(self, st, v):
        if v.__class__ is tuple and v[0] == "S":
            return ("S", tuple(st.dom.norm(x) if is_lin(x) else x for x in v[1]))
        return Interp.norm(self, st, v)

    def _op_load(self, st, i):
        m = VT.match(i.a[0])
        if not m:
            return Interp._op_load(self, st, i)
        p = self.val(st, i.a[1])
        if not is_ptr(p):
            raise Stop("bug", "load through a null pointer")
        w = int(m.group(2)[1:]) // 8
        if w != 8:
            raise Stop("unknown", "vector of " + m.group(2))
        st.env[i.id] = ("S", tuple(self.model.load(st, p[1], add(p[2], const(w * k)), m.group(2)) for k in range(int(m.group(1)))))

    def _op_store(self, st, i):
        m = VT.match(i.a[0])
        if not m:
            return Interp._op_store(self, st, i)
        p = self.val(st, i.a[2])
        if not is_ptr(p):
            raise Stop("bug", "store through a null pointer")
        n = int(m.group(1))
        v = self.vec_of(st, self.val(st, i.a[1]), n)
        if m.group(2) != "i64":
            raise Stop("unknown", "vector of " + m.group(2))
        # every case split first: the stores themselves must not be repeated
        t = st.copy()
        for k in range(n):
            self.model.store(t, p[1], add(p[2], const(8 * k)), v[k], "i64")
        st.env, st.mem, st.dom, st.m = t.env, t.mem, t.dom, t.m


class PosModel(SeqModel):
    def __init__(self, mod, func, esz, field, main):
        SeqModel.__init__(self, mod, func)
        self.refs = {}
        self.e = esz            # size of the element that holds a position
        self.field = field      # where the position is in it
        self.main = main        # offset of the array in the argument

    def esz(self, ins):
        t = self.mod.ftab[ins.a[1]][1]
        if "element_block*" in t.split("std::vector<", 1)[-1].split(",")[0]:
            return 8
        if self.field is not None and "::block" in t.split("std::vector<", 1)[-1].split(", std::allocator")[0]:
            return self.e
        return 8

    def idx(self, off, esz):
        r = off[0] % esz
        if any(c % esz for _, c in off[1]):
            raise Stop("bug", "misaligned element address")
        return ((off[0] - r) // esz, tuple((s, c // esz) for s, c in off[1]))

    def is_pos(self, st, reg, off):
        if reg[0] != "sd":
            return True
        k = (reg[1], reg[2])
        return k == self.key and off[0] % self.e == self.field

    def load(self, st, reg, off, ty):
        if reg[0] == "sd" and not self.is_pos(st, reg, off):
            self.elem(st, st.m.vecs[(reg[1], reg[2])].ps, self.resolve(st, ("P", reg, off))[2])
            return self.I.unknown(st, None, ty)
        return SeqModel.load(self, st, reg, off, ty)

    def store(self, st, reg, off, v, ty):
        if reg[0] == "sd" and not self.is_pos(st, reg, off):
            raise Stop("bug", "something other than a block position is written")
        if reg[0] == "arg":
            raise Stop("bug", "something other than a block position is written")
        SeqModel.store(self, st, reg, off, v, ty)

    def check(self, st, ret):
        v = st.m.vecs[self.key]
        o = st.m.orig[self.key]
        if self.I.decide_ge0(st, sub(self.start, self.n)):
            want = o
        else:
            a, b = self.cut(st, o, self.start)
            want = a + tuple((p[0], p[1], p[2], p[3], add(p[4], self.delta)) for p in b)
        if not self.same(st, v.ps, want):
            return ["the positions become %s; expected %s" % (self.show(self.tidy(st, v.ps)), self.show(self.tidy(st, want)))]
        return ()


def layout(mod, f):
    """(offset of the position array, element size, offset of the position in an element)"""
    from mtvspec import this_type, params
    p = params(f)[0]
    s = f.sig()
    if "soa::detail" in s.split("(")[0]:
        for t, y in enumerate(mod.types):
            if y["n"] == "blocks_type" and y.get("m") and "soa" in str(y.get("id", "soa")):
                return flatten(mod, t)["positions"] if "positions" in flatten(mod, t) else [m[1] for m in y["m"] if m[0] == "positions"][0], 8, 0
        raise KeyError("the block arrays are not found")
    from mtvspec import block_rec
    r, sz = block_rec(mod, None)
    return 0, sz, r["position"]


FACTORS = {0: "none", 4: "lu4", 8: "lu8", 16: "lu16", 32: "lu32", 0x100: "sse2_x64", 0x104: "sse2_x64_lu4", 0x108: "sse2_x64_lu8", 0x110: "sse2_x64_lu16",
           0x200: "avx2_x64", 0x204: "avx2_x64_lu4", 0x208: "avx2_x64_lu8"}


def analyse(mod, f, deadline=None):
    full = mod.ftab[f.j["f"]][1]
    lay = "soa" if "soa::detail" in full.split("(")[0] or "::soa::" in full else "aos"
    m = re.findall(r"lu_factor_t\)(\d+)>::operator", full)
    k = int(m[-1]) if m else -1
    res = {"label": "adjust_block_positions %s %s" % (lay, FACTORS.get(k, str(k))), "where": f.where, "viol": [], "unknown": {}, "stats": {}, "paths": 0, "steps": 0}
    off, e, fld = layout(mod, f)
    c = PosModel(mod, f, e, fld, off)
    it = PosInterp(f, c, max_paths=4000, max_unroll=40, max_steps=3000000)
    st = new_state(SM())
    c.key = (("arg", 1), const(off))
    c.make(st, c.key, e)
    c.n = c.total(st, st.m.vecs[c.key].ps)
    c.start, c.delta = S("start"), S("delta")
    st.dom.set_lb("start", 0)
    st.env[0] = ("P", ("arg", 0), Z)
    st.env[1] = ("P", ("arg", 1), Z)
    st.env[2] = c.start
    st.env[3] = c.delta
    it.run(st, None, deadline)
    res["viol"], res["unknown"], res["stats"], res["paths"], res["steps"] = c.viol, c.unk, c.stats, len(it.out), it.steps
    if it.exhausted:
        c.unk[("time limit", f.where)] = it.exhausted
    return res


def tasks(mod, deadline=None):
    out = []
    for j in mod.raw:
        if re.match(r"mdds::mtv::(soa|aos)::detail::adjust_block_positions::operator\(\)", mod.ftab[j["f"]][2]) and "lambda" not in mod.ftab[j["f"]][2]:
            out.append(analyse(mod, mod.func(j), deadline))
    return out
