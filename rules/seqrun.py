"""Specifications of the element-block functions, the dispatcher and delayed_delete_vector."""
import re
import time
import ir
import lin
from lin import const, add, sub
from absint import Interp, new_state, is_ptr, is_lin, PNULL, Fork, Stop, fresh
from seqmodel import SeqModel, Z, ONE, SM, Vec, piece, plen
from mtvcheck import flatten
from mtvspec import params

S = lin.sym


def leaves(mod, t, base=0):
    """(offset, type) of the fields of t, nested classes of the library opened"""
    t = mod.strip(t)
    for n, o, s, ty, _ in mod.members(t):
        u = mod.strip(ty)
        y = mod.types[u]
        if y["t"] in ("DW_TAG_structure_type", "DW_TAG_class_type") and not y.get("id", "").startswith(("std::", "__gnu")) and not y["n"].startswith("vector<"):
            yield from leaves(mod, u, base + o)
        else:
            yield base + o, s, y


def store_layout(mod, t):
    """(offset of the std::vector, distance of the hidden front offset to it or None)"""
    arr = front = None
    for o, s, y in leaves(mod, t):
        if y["n"].startswith("vector<"):
            arr = o
        elif y["t"] == "DW_TAG_base_type" and y.get("s", s) in (8, 64) and "long" in y["n"]:
            front = o
    if arr is None:
        return None, None
    return arr, None if front is None else front - arr


def block_type(mod, tid):
    for t, y in enumerate(mod.types):
        if y.get("m") and re.match(r"(default|managed|noncopyable_managed)_element_block<%d," % tid, y["n"]):
            return t
    return None


class BlockRun(SeqModel):
    """one block function on blocks of a given element class"""

    def __init__(self, mod, func, esz, cls, front, arr):
        SeqModel.__init__(self, mod, func)
        self.refs = {}
        self.e = esz
        self.cls = cls
        self.front = front
        self.arr = arr

    def view(self, st, reg, orig=False):
        """elements of the block object in region reg"""
        k = (reg, const(self.arr))
        if k not in st.m.vecs:
            if reg[0] != "arg":
                raise Stop("unknown", "block without a store")
            self.make(st, k, self.e)
        ps = st.m.orig[k] if orig else st.m.vecs[k].ps
        if self.front is None:
            return ps
        f = self.off0(st, reg) if orig else self.I.norm(st, self.I.raw_load(st, reg, self.arr + self.front, "i64"))
        return self.cut(st, ps, f)[1]

    def off0(self, st, reg):
        return lin.sym("m:%s:%d" % ("".join(str(x) for x in reg), self.arr + self.front))

    def prepare(self, st, reg):
        k = (reg, const(self.arr))
        if k not in st.m.vecs:
            self.make(st, k, self.e)
            if self.front is not None:
                o = self.off0(st, reg)
                st.dom.set_lb(o[1][0][0], 0)
                st.dom.add_ge0(sub(self.total(st, st.m.vecs[k].ps), o))

    def size0(self, st, reg):
        k = (reg, const(self.arr))
        n = self.total(st, st.m.orig[k])
        return n if self.front is None else sub(n, self.off0(st, reg))

    def A(self, st, i, lo=Z, hi=None):
        """original elements [lo, hi) of block argument i"""
        reg = ("arg", i)
        v = self.view(st, reg, True)
        n = self.size0(st, reg)
        return self.slice(st, v, lo, n if hi is None else hi)

    def check_throw(self, st):
        t = self.spec.get("thr")
        if t is not None:
            return t(self, st)
        return "a valid call fails with an exception"

    def check(self, st, ret):
        errs = []
        self.spec["exp"](self, st, ret, errs)
        return errs

    def expect(self, st, errs, reg, want, what):
        got = self.view(st, reg)
        if not self.same(st, got, want):
            errs.append("%s: %s; expected %s" % (what, self.show(self.tidy(st, got)), self.show(self.tidy(st, want))))

    def expect_log(self, st, errs, name, want, what):
        got = st.m.logs.get(name, ())
        if not self.same(st, got, want):
            errs.append("%s: %s; expected %s" % (what, self.show(self.tidy(st, got)), self.show(self.tidy(st, want))))

    def table(self, st, ins, name, args):
        return Dispatch.table(self, st, ins, name, args)


# an operation is described by the kinds of its arguments:
#   B block, n size, v value, i/e iterator pair, o output value, t element type
def spec_for(name, ks, managed, cls):
    """(preconditions, expectation) of the operation `name` with argument kinds ks"""
    b = [i for i, k in enumerate(ks) if k == "B"]
    n = [i for i, k in enumerate(ks) if k == "n"]
    v = [i for i, k in enumerate(ks) if k == "v"]
    it = [i for i, k in enumerate(ks) if k == "i"]
    o = [i for i, k in enumerate(ks) if k == "o"]

    def nv(c, i):
        return c.args[i]

    def xs(c):
        return (("c", ("xs", 0, c.e), Z, c.cnt, Z),)

    def val(c, i):
        return (("c", ("av", i), Z, ONE, Z),)

    def only(c, st, errs, want=None, ret=None, dele=()):
        """block arguments are unchanged except those in `want`"""
        for i in b:
            if want and i in want:
                c.expect(st, errs, ("arg", i), want[i](), "content of the block")
            else:
                c.expect(st, errs, ("arg", i), c.A(st, i), "content of a block that must not change")
        c.expect_log(st, errs, "del", dele, "destroyed elements")

    def rng(c, st, i, m, ln):
        st.dom.add_ge0(sub(c.size0(st, ("arg", i)), add(m, ln)))

    P = lambda c, st: None
    T = None

    if name.startswith("ddv_"):
        return ddv_spec(name[4:], ks, b, n, v or o, only, nv, xs, val, rng)
    if name == "set_value":
        def P(c, st):
            rng(c, st, b[0], nv(c, n[0]), ONE)

        def X(c, st, ret, errs):
            p = nv(c, n[0])
            only(c, st, errs, {b[0]: lambda: c.A(st, b[0], Z, p) + val(c, v[0]) + c.A(st, b[0], add(p, ONE))})
    elif name == "get_value":
        def P(c, st):
            rng(c, st, b[0], nv(c, n[0]), ONE)

        def X(c, st, ret, errs):
            p = nv(c, n[0])
            only(c, st, errs)
            if managed:
                t = c.ptr_token(st, c.I.raw_load(st, ("arg", o[0]), 0, "ptr"))
            else:
                t = c.content(st, ("P", ("out", o[0]), Z))
            if not c.same(st, (piece(t),), c.A(st, b[0], p, add(p, ONE))):
                errs.append("the value returned is %s; expected %s" % (c.show((piece(t),)), c.show(c.A(st, b[0], p, add(p, ONE)))))
    elif name in ("append_value", "emplace_back_value"):
        def X(c, st, ret, errs):
            only(c, st, errs, {b[0]: lambda: c.A(st, b[0]) + val(c, v[-1])})
    elif name == "prepend_value":
        def X(c, st, ret, errs):
            only(c, st, errs, {b[0]: lambda: val(c, v[0]) + c.A(st, b[0])})
    elif name == "set_values":
        def P(c, st):
            rng(c, st, b[0], nv(c, n[0]), c.cnt)

        def X(c, st, ret, errs):
            p = nv(c, n[0])
            only(c, st, errs, {b[0]: lambda: c.A(st, b[0], Z, p) + xs(c) + c.A(st, b[0], add(p, c.cnt))})
    elif name == "append_values":
        def X(c, st, ret, errs):
            only(c, st, errs, {b[0]: lambda: c.A(st, b[0]) + xs(c)})
    elif name == "prepend_values":
        def X(c, st, ret, errs):
            only(c, st, errs, {b[0]: lambda: xs(c) + c.A(st, b[0])})
    elif name == "assign_values":
        def X(c, st, ret, errs):
            only(c, st, errs, {b[0]: lambda: xs(c)})
    elif name == "insert_values":
        def P(c, st):
            rng(c, st, b[0], nv(c, n[0]), Z)

        def X(c, st, ret, errs):
            p = nv(c, n[0])
            only(c, st, errs, {b[0]: lambda: c.A(st, b[0], Z, p) + xs(c) + c.A(st, b[0], p)})
    elif name == "create_value":
        def X(c, st, ret, errs):
            k = nv(c, n[0])
            if not is_ptr(ret):
                errs.append("no block is returned")
                return
            if managed and c.I.decide_ge0(st, add(k, const(-2))):
                errs.append("a managed block of several elements is created from one value")
                return
            if managed:
                want = val(c, v[0]) if c.I.decide(st, "eq", k, ONE) else (("d", "default", Z, k, Z),)
            else:
                want = (("f", "fill", Z, k, ("c", ("av", v[0]), Z, Z)),)
            c.expect(st, errs, ret[1], want, "content of the new block")
            typed(c, st, ret, errs)

        def T(c, st):
            if not managed or not c.I.decide_ge0(st, add(nv(c, n[0]), const(-2))):
                return "a valid call fails with an exception"
    elif name == "create_values":
        def X(c, st, ret, errs):
            if not is_ptr(ret):
                errs.append("no block is returned")
                return
            c.expect(st, errs, ret[1], xs(c), "content of the new block")
            typed(c, st, ret, errs)
    elif name == "create_new_block":
        def X(c, st, ret, errs):
            if not is_ptr(ret):
                errs.append("no block is returned")
                return
            c.expect(st, errs, ret[1], (("d", "default", Z, nv(c, n[0]), Z),), "content of the new block")
            typed(c, st, ret, errs)
    elif name == "copy_block" and cls == "N":
        def X(c, st, ret, errs):
            errs.append("a block of noncopyable elements is copied")

        def T(c, st):
            return None
    elif name in ("copy_block", "clone_block"):
        def X(c, st, ret, errs):
            only(c, st, errs)
            if not is_ptr(ret):
                errs.append("no block is returned")
                return
            w = c.A(st, b[0])
            if managed:
                w = tuple(("k",) + p[1:] if p[0] == "c" else p for p in w)
            c.expect(st, errs, ret[1], w, "content of the copy")
            typed(c, st, ret, errs)
    elif name == "delete_block":
        def X(c, st, ret, errs):
            c.expect_log(st, errs, "del", c.A(st, b[0]) if managed else (), "elements destroyed with the block")
    elif name == "resize_block":
        def X(c, st, ret, errs):
            k = nv(c, n[0])
            s = c.size0(st, ("arg", b[0]))
            if c.I.decide_ge0(st, sub(s, k)):
                w = lambda: c.A(st, b[0], Z, k)
            else:
                w = lambda: c.A(st, b[0]) + (("d", "default", Z, sub(k, s), Z),)
            only(c, st, errs, {b[0]: w})
    elif name == "erase":
        def P(c, st):
            rng(c, st, b[0], nv(c, n[0]), nv(c, n[1]) if len(n) > 1 else ONE)

        def X(c, st, ret, errs):
            p = nv(c, n[0])
            ln = nv(c, n[1]) if len(n) > 1 else ONE
            only(c, st, errs, {b[0]: lambda: c.A(st, b[0], Z, p) + c.A(st, b[0], add(p, ln))})
    elif name == "append_block":
        def X(c, st, ret, errs):
            only(c, st, errs, {b[0]: lambda: c.A(st, b[0]) + c.A(st, b[1])})
    elif name in ("append_values_from_block", "assign_values_from_block", "prepend_values_from_block"):
        def P(c, st):
            rng(c, st, b[1], nv(c, n[0]), nv(c, n[1]))

        def X(c, st, ret, errs):
            def w():
                x = c.A(st, b[1], nv(c, n[0]), add(nv(c, n[0]), nv(c, n[1])))
                return c.A(st, b[0]) + x if name.startswith("app") else x if name.startswith("ass") else x + c.A(st, b[0])
            only(c, st, errs, {b[0]: w})
    elif name == "swap_values":
        def P(c, st):
            rng(c, st, b[0], nv(c, n[0]), nv(c, n[2]))
            rng(c, st, b[1], nv(c, n[1]), nv(c, n[2]))

        def X(c, st, ret, errs):
            p, q, ln = (nv(c, x) for x in n)
            only(c, st, errs, {
                b[0]: lambda: c.A(st, b[0], Z, p) + c.A(st, b[1], q, add(q, ln)) + c.A(st, b[0], add(p, ln)),
                b[1]: lambda: c.A(st, b[1], Z, q) + c.A(st, b[0], p, add(p, ln)) + c.A(st, b[1], add(q, ln))})
    elif name == "equal_block":
        def X(c, st, ret, errs):
            only(c, st, errs)
            n0, n1 = c.size0(st, ("arg", b[0])), c.size0(st, ("arg", b[1]))
            if c.I.truth(st, ret):
                if not c.I.decide(st, "eq", n0, n1):
                    errs.append("blocks of different sizes compare equal")
                    return
                for nm, i in (("eqA", b[0]), ("eqB", b[1])):
                    got = st.m.logs.get(nm, ())
                    got = tuple(("c",) + p[1:] if p[0] == "o" else p for p in got)
                    w = c.A(st, i)
                    if not c.same(st, got, w):
                        errs.append("blocks compare equal after comparing only %s" % c.show(c.tidy(st, got)))
            elif st.m.ne is None:
                if c.I.decide(st, "eq", n0, n1):
                    errs.append("blocks of equal size and elements compare different")
            elif st.m.ne.__class__ is tuple:
                x, y = st.m.ne
                x0 = c.off0(st, ("arg", b[0])) if c.front is not None else Z
                y0 = c.off0(st, ("arg", b[1])) if c.front is not None else Z
                if x[1][:2] != ("v", ("arg", b[0])) or y[1][:2] != ("v", ("arg", b[1])) or not c.I.decide(st, "eq", sub(x[2], x0), sub(y[2], y0)):
                    errs.append("elements of different positions are compared")
    elif name == "overwrite_values":
        def P(c, st):
            rng(c, st, b[0], nv(c, n[0]), nv(c, n[1]))

        def X(c, st, ret, errs):
            p, ln = nv(c, n[0]), nv(c, n[1])
            only(c, st, errs, None, None, c.A(st, b[0], p, add(p, ln)) if managed else ())
    elif name in ("shrink_to_fit", "print_block"):
        def X(c, st, ret, errs):
            only(c, st, errs)
    elif name == "size":
        def X(c, st, ret, errs):
            only(c, st, errs)
            if not c.I.decide(st, "eq", ret, c.size0(st, ("arg", b[0]))):
                errs.append("the size reported is %s" % lin.show(ret))
    else:
        return None

    def typed(c, st, ret, errs):
        t = c.I.norm(st, c.I.raw_load(st, ret[1], 0, "i32"))
        if t != const(c.tid):
            errs.append("the new block carries element type %s; expected %d" % (lin.show(t) if is_lin(t) else t, c.tid))
    return {"pre": P, "exp": X, "thr": T}


def ddv_spec(name, ks, b, n, v, only, nv, xs, val, rng):
    P = lambda c, st: None
    T = None

    def at(c, st, errs, ret, pos):
        """ret designates logical position pos of the first argument, as it is now"""
        k, key, i = c.resolve(st, ret)
        f = Z if c.front is None else c.I.norm(st, c.I.raw_load(st, ("arg", b[0]), c.arr + c.front, "i64"))
        if k != "v" or key[0] != ("arg", b[0]):
            errs.append("the result designates another object")
        elif not c.I.decide(st, "eq", sub(i, f), pos):
            errs.append("the result designates position %s; expected %s" % (lin.show(sub(i, f)), lin.show(pos)))

    a = b[0] if b else None
    A = lambda c, st, lo=Z, hi=None, i=None: c.A(st, a if i is None else i, lo, hi)
    size = lambda c, st: c.size0(st, ("arg", a))
    if name in ("begin", "rend", "data", "end", "rbegin"):
        def X(c, st, ret, errs):
            only(c, st, errs)
            at(c, st, errs, ret, size(c, st) if name in ("end", "rbegin") else Z)
    elif name in ("index", "at"):
        def P(c, st):
            if name == "index":
                rng(c, st, a, nv(c, n[0]), ONE)

        def X(c, st, ret, errs):
            only(c, st, errs)
            if not c.I.decide_ge0(st, sub(size(c, st), add(nv(c, n[0]), ONE))):
                errs.append("a position past the end is accepted")
            else:
                at(c, st, errs, ret, nv(c, n[0]))

        def T(c, st):
            if name != "at" or c.I.decide_ge0(st, sub(size(c, st), add(nv(c, n[0]), ONE))):
                return "a valid position is rejected"
    elif name == "size":
        def X(c, st, ret, errs):
            only(c, st, errs)
            if not c.I.decide(st, "eq", ret, size(c, st)):
                errs.append("the size reported is %s; expected %s" % (lin.show(ret), lin.show(size(c, st))))
    elif name in ("push_back", "push_back_move", "emplace_back"):
        def X(c, st, ret, errs):
            only(c, st, errs, {a: lambda: A(c, st) + val(c, v[0])})
    elif name == "swap":
        def X(c, st, ret, errs):
            only(c, st, errs, {a: lambda: c.A(st, b[1]), b[1]: lambda: c.A(st, a)})
    elif name in ("insert", "insert_move"):
        def P(c, st):
            rng(c, st, a, nv(c, n[0]), Z)

        def X(c, st, ret, errs):
            p = nv(c, n[0])
            only(c, st, errs, {a: lambda: A(c, st, Z, p) + val(c, v[0]) + A(c, st, p)})
            at(c, st, errs, ret, p)
    elif name == "insert_range":
        def P(c, st):
            rng(c, st, a, nv(c, n[0]), Z)

        def X(c, st, ret, errs):
            p = nv(c, n[0])
            only(c, st, errs, {a: lambda: A(c, st, Z, p) + xs(c) + A(c, st, p)})
    elif name == "assign":
        def X(c, st, ret, errs):
            only(c, st, errs, {a: lambda: xs(c)})
    elif name == "resize":
        def X(c, st, ret, errs):
            k, s = nv(c, n[0]), size(c, st)
            if c.I.decide_ge0(st, sub(s, k)):
                w = lambda: A(c, st, Z, k)
            else:
                w = lambda: A(c, st) + (("d", "default", Z, sub(k, s), Z),)
            only(c, st, errs, {a: w})
    elif name in ("reserve", "shrink_to_fit"):
        def X(c, st, ret, errs):
            only(c, st, errs)
    elif name in ("erase", "erase_range"):
        ln = lambda c: nv(c, n[1]) if len(n) > 1 else ONE

        def P(c, st):
            rng(c, st, a, nv(c, n[0]), ln(c))

        def X(c, st, ret, errs):
            p = nv(c, n[0])
            only(c, st, errs, {a: lambda: A(c, st, Z, p) + A(c, st, add(p, ln(c)))})
            at(c, st, errs, ret, p)
    elif name == "equal":
        return spec_for("equal_block", ks, False, "V")
    elif name in ("new", "new_size", "new_value", "new_range", "copy", "move"):
        def X(c, st, ret, errs):
            if not is_ptr(ret):
                errs.append("no object")
                return
            w = {"new": lambda: (), "new_size": lambda: (("d", "default", Z, nv(c, n[0]), Z),),
                 "new_value": lambda: (("f", "fill", Z, nv(c, n[0]), ("c", ("av", v[0]), Z, Z)),),
                 "new_range": lambda: xs(c), "copy": lambda: A(c, st), "move": lambda: A(c, st)}[name]()
            c.expect(st, errs, ret[1], w, "content of the new vector")
            only(c, st, errs, {a: lambda: ()} if name == "move" else None)
    elif name in ("copy_assign", "move_assign"):
        def X(c, st, ret, errs):
            only(c, st, errs, {a: lambda: c.A(st, b[1]), b[1]: lambda: c.A(st, b[1]) if name == "copy_assign" else ()})
    else:
        return None
    return {"pre": P, "exp": X, "thr": T}


def kinds(ps, cls):
    """argument kinds from the parameter types"""
    out = []
    for p in ps:
        if "base_element_block" in p or "delayed_delete_vector" in p:
            out.append("B")
        elif p in ("unsigned long",):
            out.append("n")
        elif p in ("int",):
            out.append("t")
        elif re.match(r"drv::%s( const)?\*( const)?\* const&$" % cls, p) and cls != "V" or (cls == "V" and p == "drv::V const* const&"):
            out.append("i")
        elif p in ("drv::%s const&" % cls, "drv::%s* const&" % cls, "drv::%s*" % cls):
            out.append("v")
        elif p in ("drv::%s&" % cls, "drv::%s*&" % cls):
            out.append("o")
        else:
            out.append("?" + p)
    return out


def analyse(mod, f, name, cls, tid, front, arr, deadline=None):
    """-> result of checking function f against operation `name` for blocks of element class cls"""
    ks = kinds(params(f), cls)
    managed = cls != "V"
    e = 8 if managed else 1
    c = BlockRun(mod, f, e, cls, front, arr)
    c.tid = tid
    sp = spec_for(name, ks, managed, cls)
    res = {"label": "%s [%s]" % (f.sig().split("(")[0], cls), "where": f.where, "viol": c.viol, "unknown": c.unk, "stats": c.stats, "paths": 0, "steps": 0}
    if sp is None or any(k[0] == "?" for k in ks):
        c.unk[("no specification for %s(%s)" % (name, ", ".join(ks)), f.where)] = 1
        return res
    c.spec = sp
    it = Interp(f, c, max_paths=20000, max_unroll=12, max_steps=3000000)
    st = new_state(SM())
    c.args = []
    its = [i for i, k in enumerate(ks) if k == "i"]
    cnt = S("cnt")
    st.dom.set_lb("cnt", 0)
    c.cnt = cnt
    for i, k in enumerate(ks):
        a = f.nargs and i
        if k == "B":
            v = ("P", ("arg", i), Z)
            c.prepare(st, ("arg", i))
            if tid is not None:
                it.raw_store(st, ("arg", i), 0, const(tid))
        elif k in ("n", "t"):
            v = S("a%d" % i)
            st.dom.set_lb("a%d" % i, 0 if k == "n" else -(1 << 31))
        elif k == "i":
            v = ("P", ("arg", i), Z)
            c.refs[i] = ("P", ("xs", 0, e), Z if i == its[0] else lin.scale(cnt, e))
        elif k == "v":
            p = params(f)[i]
            tok = ("P", ("el", "c", ("av", i), Z, Z), Z)
            if managed and p.endswith("*"):
                v = tok
            else:
                v = ("P", ("arg", i), Z)
                if managed:
                    c.refs[i] = tok
        else:
            v = ("P", ("arg", i) if managed or name.startswith("ddv_") else ("out", i), Z)
        c.args.append(v)
        st.env[i] = v
    sp["pre"](c, st)
    if st.dom.bad:
        c.unk[("contradictory preconditions", f.where)] = 1
        return res
    it.run(st, None, deadline)
    res["paths"] = len(it.out)
    res["steps"] = it.steps
    if it.exhausted:
        c.unk[("time limit", f.where)] = it.exhausted
    return res


class Dispatch(SeqModel):
    """one function of the dispatcher: which block function is called for which element type"""

    def __init__(self, mod, func):
        SeqModel.__init__(self, mod, func)
        self.refs = {}
        self.hits = []

    def fn(self, v):
        return v[1][1] if is_ptr(v) and v[1][0] == "F" else None

    def initial(self, st, reg, off, ty):
        if reg[0] == "node" and off == 8:
            return st.m.maps[reg[1]][reg[2]][0]
        if reg[0] == "node" and off > 8 and ty != "ptr":
            v = st.m.maps[reg[1]][reg[2]][1]
            st.m.called = (st.m.maps[reg[1]][reg[2]][0], v, None)
            return v if is_lin(v) else Z
        return SeqModel.initial(self, st, reg, off, ty)

    def table(self, st, ins, name, args):
        cls, _, m = name.partition("::")
        if cls == "function":
            if m == "~function":
                return None
            if m == "function":
                src = args[1]
                if self.fn(src) is not None or not is_ptr(src):
                    v = src
                else:
                    v = self.I.raw_load(st, src[1], src[2][0], "ptr")
                self.I.raw_store(st, args[0][1], args[0][2][0], v)
                return None
            if m == "operator()":
                r = args[0]
                k = 0
                if not (is_ptr(r) and r[1][0] == "node"):
                    # sret: the callee object follows
                    k = 1
                    r = args[1]
                if not (is_ptr(r) and r[1][0] == "node"):
                    raise Stop("unknown", "call through an unknown function object")
                key, fv = st.m.maps[r[1][1]][r[1][2]]
                st.m.called = (key, fv, tuple(args[:k]) + tuple(args[k + 1:]))
                return None if ins.a[0] == "void" else lin.sym("result") if ins.a[0] != "ptr" else ("P", ("result",), Z)
        if cls == "unordered_map":
            if m == "unordered_map":
                a = args[1]
                n = args[2] if len(args) > 2 else None
                if not (is_ptr(a) and is_lin(n) and not n[1]):
                    raise Stop("unknown", "table not built from an initializer list")
                cells = st.mem.get(a[1], {})
                keys = sorted(o for o in cells)
                # entries start where a key (an integer constant) is stored
                ent = []
                step = self.step(ins, a[1], n[0])
                for j in range(n[0]):
                    o = a[2][0] + j * step
                    v = [x for x in keys if o < x < o + step]
                    if o not in cells or not v:
                        raise Stop("unknown", "unreadable table entry")
                    ent.append((cells[o], cells[v[0]]))
                st.m.maps[args[0][1]] = tuple(ent)
                return None
            if m in ("end", "cend"):
                return ("P", ("mapend", args[0][1]), Z)
            if m in ("find", "at"):
                ent = st.m.maps.get(args[0][1])
                if ent is None:
                    raise Stop("unknown", "unknown table")
                kv = self.I.load(st, args[1], "i32")
                for j, (k, _) in enumerate(ent):
                    if self.I.decide(st, "eq", kv, k):
                        return ("P", ("node", args[0][1], j), Z)
                return ("P", ("mapend", args[0][1]), Z)
            if m == "~unordered_map":
                return None
        raise Stop("unknown", "call of std::" + name)

    def step(self, ins, reg, n):
        for i in self.func.instrs():
            if i.op == "alloca" and i.id == reg[1]:
                return i.a[1] // n
        raise Stop("unknown", "table size")

    def check(self, st, ret):
        t = st.m.called
        self.hits.append((self.I.norm(st, self.tsym) if self.tsym is not None else None, t, ret, st.dom))
        return ()

    def check_throw(self, st):
        self.hits.append(("throw", self.I.norm(st, self.tsym), None, st.dom))
        return None


IDS = {50: "V", 51: "O", 52: "N"}


def dispatch(mod, f, name, deadline=None):
    """-> (targets: {element type: function index}, problems) of a dispatcher function"""
    ps = params(f)
    D = Dispatch(mod, f)
    it = Interp(f, D, max_paths=4000, max_unroll=10, max_steps=1000000)
    st = new_state(SM())
    D.tsym = D.t2 = None
    for i, p in enumerate(ps):
        if "base_element_block" in p:
            st.env[i] = ("P", ("arg", i), Z)
            if D.tsym is None:
                D.tsym = it.raw_load(st, ("arg", i), 0, "i32")
            elif D.t2 is None:
                D.t2 = it.raw_load(st, ("arg", i), 0, "i32")
        elif p == "int":
            st.env[i] = D.tsym = S("a%d" % i)
            st.dom.set_lb("a%d" % i, -(1 << 31))
        else:
            st.env[i] = S("a%d" % i)
            st.dom.set_lb("a%d" % i, 0)
    D.args = [st.env[i] for i in range(len(ps))]
    it.run(st, None, deadline)
    return D, it


def const_of(v):
    return v[0] if is_lin(v) and not v[1] else None


def check_dispatch(mod, f, name, deadline=None):
    """-> (result, {element type: function index}): is exactly the function of the block's own type called?"""
    D, it = dispatch(mod, f, name, deadline)
    res = {"label": "%s(%s)" % (f.sig().split("(")[0], ", ".join(kinds(params(f), "V"))), "where": f.where, "viol": [], "unknown": D.unk,
           "stats": D.stats, "paths": len(it.out), "steps": it.steps}
    res["viol"] += D.viol
    if it.exhausted:
        D.unk[("time limit", f.where)] = it.exhausted
    bad = lambda m: res["viol"].append(("dispatch", m, f.where, []))
    if D.tsym is None:
        D.unk[("no block argument", f.where)] = 1
        return res, {}
    tgt = {}
    done = set()
    for key, call, ret, dom in D.hits:
        poss = []
        for i in IDS:
            d = dom.copy()
            if d.add_eq0(sub(D.tsym, const(i))) and not d.bad:
                poss.append(i)
        if key == "throw":
            for i in poss:
                bad("element type %d is not handled" % i)
            continue
        if call is None:
            # nothing is called: only right when two blocks of different types are compared
            if name == "equal_block":
                o = [a for a in D.args if is_ptr(a)]
                d = dom.copy()
                if const_of(ret) == 0 and D.t2 is not None and not (d.add_eq0(sub(D.tsym, D.t2)) and not d.bad):
                    continue
            if name == "delete_block" and not poss:
                continue
            bad("no block function is called for element type %s" % (lin.show(key) if is_lin(key) else key))
            continue
        ck = const_of(call[0])
        if poss != [ck]:
            bad("a block of element type %s is handled by the function registered for type %s" % (poss, ck))
            continue
        done.add(ck)
        if name == "is_copyable":
            if const_of(ret) != (0 if ck == 52 else 1):
                bad("element type %d is reported as %scopyable" % (ck, "" if const_of(ret) else "not "))
            continue
        j = D.fn(call[1])
        if j is None:
            D.unk[("unknown function in the table", f.where)] = 1
            continue
        want = [a for a in D.args if not (is_lin(a) and a == D.tsym)]
        if len(call[2]) != len(want) or any(x != y for x, y in zip(call[2], want)):
            bad("the arguments are not passed on unchanged for element type %d" % ck)
        if f.j.get("ret") != "void" and ret is not None and ret not in (lin.sym("result"), ("P", ("result",), Z)):
            bad("the result for element type %d is not passed on" % ck)
        if tgt.setdefault(ck, j) != j:
            bad("element type %d is handled by two functions" % ck)
    for i in IDS:
        if i not in done and not D.unk:
            bad("no path handles element type %d" % i)
    return res, tgt


# operation that a dispatcher function has to perform on the block
OPS = {"create_new_block", "copy_block", "clone_block", "delete_block", "resize_block", "print_block", "erase", "append_block", "append_values_from_block",
       "assign_values_from_block", "prepend_values_from_block", "swap_values", "equal_block", "overwrite_values", "shrink_to_fit", "size"}


def block_tasks(mod, deadline=None):
    """-> (results of the block operations, results of the dispatcher)"""
    ops, disp = [], []
    lay = {}
    for i, c in IDS.items():
        t = block_type(mod, i)
        lay[c] = store_layout(mod, t) if t is not None else (None, None)
        if lay[c][0] is None:
            raise KeyError("the element store of block type %d is not found" % i)
    byf = {j["f"]: j for j in mod.raw}
    for j in mod.raw:
        s = mod.ftab[j["f"]][2]
        m = re.match(r"drv::blk_(\w)_(\w+)$", s)
        if m:
            c = m.group(1)
            i = [k for k in IDS if IDS[k] == c][0]
            ops.append(analyse(mod, mod.func(j), m.group(2), c, i, lay[c][1], lay[c][0], deadline))
            ops[-1]["label"] = "%s callback [%s]" % (m.group(2), c)
            continue
        m = re.match(r"mdds::mtv::element_block_funcs::(\w+)$", s)
        if not m:
            continue
        f = mod.func(j)
        r, tgt = check_dispatch(mod, f, m.group(1), deadline)
        disp.append(r)
        for i, k in sorted(tgt.items()):
            if k not in byf:
                r["unknown"][("the body of %s is not available" % mod.ftab[k][1][:80], f.where)] = 1
                continue
            c = IDS[i]
            x = analyse(mod, mod.func(byf[k]), m.group(1), c, i, lay[c][1], lay[c][0], deadline)
            x["label"] = "%s(%s) [%s]" % (m.group(1), ", ".join(kinds(params(f), c)), c)
            ops.append(x)
    return ops, disp


def vector_tasks(mod, deadline=None):
    out = []
    ts = [i for i, y in enumerate(mod.types) if y.get("m") and y["n"].startswith("delayed_delete_vector<")]
    if not ts:
        raise KeyError("delayed_delete_vector is not found")
    arr, front = store_layout(mod, ts[0])
    if arr is None:
        raise KeyError("the store of delayed_delete_vector is not found")
    for j in mod.raw:
        m = re.match(r"drv::(ddv_\w+)$", mod.ftab[j["f"]][2])
        if m:
            f = mod.func(j)
            r = analyse(mod, f, m.group(1), "V", None, front, arr, deadline)
            r["label"] = "%s(%s)" % (m.group(1)[4:], ", ".join(params(f)).replace("mdds::mtv::", "").replace("drv::", ""))
            out.append(r)
    return out
