"""Public editing and access operations of multi_type_vector and what each has to do.

Operations are recognised by public name and parameter types only.
"""
import re
import time
import ir
import lin
from lin import const, add, sub
from absint import Interp, new_state, fresh, is_ptr, is_lin
from mtvmodel import new_ms, Z, ONE
from mtvcheck import Checker, Spec, flatten


def this_type(mod, f, name="multi_type_vector"):
    for a in range(f.nargs):
        for d, n, ty, argno, inl in f.vars.get(a, ()):
            if n == "this" and not inl:
                return a, mod.strip(mod.deref(mod.strip(ty)))
    return None, None


def layout_offsets(mod, layout, t):
    fl = flatten(mod, t)
    last = {}
    for k, o in fl.items():
        last.setdefault(k.split(".")[-1], o)
    need = {"soa": ["positions", "sizes", "element_blocks"], "aos": ["m_blocks"]}[layout] + ["m_cur_size"]
    for n in need:
        if n not in last:
            raise LookupError("container member %s not found" % n)
    return fl, last


def ito_offsets(mod, layout):
    for t, ty in enumerate(mod.types):
        if ty["t"] == "DW_TAG_class_type" and ty["n"].startswith("iterator_base<") and "::iterator_trait" in ty["n"] and ty.get("m"):
            fl = flatten(mod, t)
            out = {}
            for k, o in fl.items():
                parts = k.split(".")
                if parts[0] == "m_pos":
                    out["pos:" + ".".join(parts[1:])] = o
                elif parts[0] == "m_end":
                    out["end:" + ".".join(parts[1:])] = o
                else:
                    out[parts[-1]] = o
            out["sizeof"] = ty["s"]
            for n in ("type", "position", "size", "data", "parent", "block_index"):
                if n not in out:
                    raise LookupError("iterator member %s not found" % n)
            return out
    raise LookupError("iterator type not found")


def block_rec(mod, t):
    fl = None
    for i, ty in enumerate(mod.types):
        if ty["n"] == "block" and ty.get("m") and "multi_type_vector" in str(ty.get("id", "")):
            fl = flatten(mod, i)
            sz = ty.get("s")
            return {"position": fl["position"], "size": fl["size"], "data": fl["data"]}, max(fl.values()) + 8
    for i, ty in enumerate(mod.types):
        if ty["n"] == "block" and ty.get("m"):
            fl = flatten(mod, i)
            if {"position", "size", "data"} <= set(fl):
                return {"position": fl["position"], "size": fl["size"], "data": fl["data"]}, max(fl.values()) + 8
    raise LookupError("block record type not found")


CLS = re.compile(r"^mdds::mtv::(?:aos|soa)::multi_type_vector::([\w~=<> ]+|operator\W+)$")


def params(f):
    s = f.sig()
    s = re.sub(r"\) const( &+)?$", ")", s)
    d = 0
    for k in range(len(s) - 1, -1, -1):
        if s[k] == ")":
            d += 1
        elif s[k] == "(":
            d -= 1
            if d == 0:
                break
    inner = s[k + 1:-1]
    out, d, cur = [], 0, ""
    for c in inner:
        if c in "(<":
            d += 1
        if c in ")>":
            d -= 1
        if c == "," and d == 0:
            out.append(cur.strip())
            cur = ""
        else:
            cur += c
    if cur.strip():
        out.append(cur.strip())
    return out


def pkind(p):
    if p == "unsigned long":
        return "n"
    if re.search(r"iterator_base\b.*const&$", p):
        return "hint"
    if re.search(r"::multi_type_vector&$", p):
        return "mtv"
    if re.search(r"::multi_type_vector const&$", p):
        return "cmtv"
    if re.search(r"::multi_type_vector&&$", p):
        return "rmtv"
    if p in ("drv::V const* const&",):
        return "it"
    if p == "drv::V const&":
        return "v"
    if p == "drv::V&":
        return "out"
    if p == "int&&":
        return "int"
    return "?" + p


class Bad(Exception):
    pass


def OLD(c, a, n):
    return ("OLD", c, a, n)


def make_spec(name, kinds, A, sy):
    """name: method name; kinds: list of parameter kinds without the hint; A: list of values.

    sy: dict with L (size of A), LB (size of B), ret (region of a returned object)
    """
    sp = Spec()
    sp.mayfail = False
    sp.extra = None
    L = sy["L"]
    k = tuple(kinds)
    ret = sy["ret"]

    def pre(d, t):
        sp.pre.append((d, t))

    def block_at(cont, pos):
        if ret is not None:
            sp.ret = ("block", cont, pos, None, ret)
    if name == "set" and k == ("n", "v"):
        p = A[0]
        pre("pos < size()", sub(sub(L, p), ONE))
        sp.expect["A"] = [OLD("A", Z, p), ("val", A[1][1], ONE), OLD("A", add(p, ONE), sub(sub(L, p), ONE))]
        block_at("A", p)
    elif name == "set" and k == ("n", "it", "it"):
        p, n = A[0], sy["n"]
        pre("pos < size()", sub(sub(L, p), ONE))
        pre("pos + n <= size()", sub(sub(L, p), n))
        sp.soft = n
        sp.expect["A"] = [OLD("A", Z, p), ("rng", "V", Z, n), OLD("A", add(p, n), sub(sub(L, p), n))]
        if ret is not None:
            sp.ret = ("block0", "A", p, n, ret)
    elif name == "insert" and k == ("n", "it", "it"):
        p, n = A[0], sy["n"]
        pre("pos < size()", sub(sub(L, p), ONE))
        sp.soft = n
        sp.expect["A"] = [OLD("A", Z, p), ("rng", "V", Z, n), OLD("A", p, sub(L, p))]
        if ret is not None:
            sp.ret = ("block0", "A", p, n, ret)
    elif name == "push_back" and k == ("v",):
        sp.expect["A"] = [OLD("A", Z, L), ("val", A[0][1], ONE)]
        block_at("A", L)
    elif name == "emplace_back" and k == ("int",):
        sp.expect["A"] = [OLD("A", Z, L), ("val", "emplaced", ONE)]
        block_at("A", L)
    elif name == "push_back_empty" and k == ():
        sp.expect["A"] = [OLD("A", Z, L), ("empty", ONE)]
        block_at("A", L)
    elif name == "set_empty" and k == ("n", "n"):
        s, e = A
        pre("start <= end", sub(e, s))
        pre("end < size()", sub(sub(L, e), ONE))
        n = add(sub(e, s), ONE)
        sp.expect["A"] = [OLD("A", Z, s), ("empty", n), OLD("A", add(e, ONE), sub(sub(L, e), ONE))]
        block_at("A", s)
    elif name == "erase" and k == ("n", "n"):
        s, e = A
        pre("start <= end", sub(e, s))
        pre("end < size()", sub(sub(L, e), ONE))
        sp.expect["A"] = [OLD("A", Z, s), OLD("A", add(e, ONE), sub(sub(L, e), ONE))]
    elif name == "insert_empty" and k == ("n", "n"):
        p, n = A
        pre("pos < size()", sub(sub(L, p), ONE))
        sp.soft = n
        sp.expect["A"] = [OLD("A", Z, p), ("empty", n), OLD("A", p, sub(L, p))]
        if ret is not None:
            sp.ret = ("block0", "A", p, n, ret)
    elif name == "resize" and k == ("n",):
        n = A[0]
        sp.expect["A"] = ("case", sub(L, n), [OLD("A", Z, n)], [OLD("A", Z, L), ("empty", sub(n, L))])
    elif name == "clear" and k == ():
        sp.expect["A"] = []
    elif name == "release" and k == ():
        sp.expect["A"] = []
        sp.keep = [("old", "A", Z, L)]
    elif name == "release" and k in (("n",), ("n", "out")):
        p = A[0]
        pre("pos < size()", sub(sub(L, p), ONE))
        sp.expect["A"] = [OLD("A", Z, p), ("empty", ONE), OLD("A", add(p, ONE), sub(sub(L, p), ONE))]
        sp.keep = [("old", "A", p, ONE)]
        reg = A[1][1] if len(A) > 1 else sy["sret"]
        sp.out = (reg, "A", p)
        if len(A) > 1:
            block_at("A", p)
    elif name == "release_range" and k == ("n", "n"):
        s, e = A
        pre("start <= end", sub(e, s))
        pre("end < size()", sub(sub(L, e), ONE))
        n = add(sub(e, s), ONE)
        sp.expect["A"] = [OLD("A", Z, s), ("empty", n), OLD("A", add(e, ONE), sub(sub(L, e), ONE))]
        sp.keep = [("old", "A", s, n)]
        block_at("A", s)
    elif name == "transfer" and k == ("n", "n", "mtv", "n"):
        s, e, _, d = A
        LB = sy["LB"]
        n = add(sub(e, s), ONE)
        pre("start <= end", sub(e, s))
        pre("end < size()", sub(sub(L, e), ONE))
        pre("dest_pos + n <= dest.size()", sub(sub(LB, d), n))
        sp.expect["A"] = [OLD("A", Z, s), ("empty", n), OLD("A", add(e, ONE), sub(sub(L, e), ONE))]
        sp.expect["B"] = [OLD("B", Z, d), OLD("A", s, n), OLD("B", add(d, n), sub(sub(LB, d), n))]
        block_at("A", s)
    elif name == "swap" and k == ("n", "n", "mtv", "n"):
        s, e, _, d = A
        LB = sy["LB"]
        n = add(sub(e, s), ONE)
        pre("start <= end", sub(e, s))
        pre("end < size()", sub(sub(L, e), ONE))
        pre("other_pos + n <= other.size()", sub(sub(LB, d), n))
        sp.expect["A"] = [OLD("A", Z, s), OLD("B", d, n), OLD("A", add(e, ONE), sub(sub(L, e), ONE))]
        sp.expect["B"] = [OLD("B", Z, d), OLD("A", s, n), OLD("B", add(d, n), sub(sub(LB, d), n))]
    elif name == "swap" and k == ("mtv",):
        sp.expect["A"] = [OLD("B", Z, sy["LB"])]
        sp.expect["B"] = [OLD("A", Z, L)]
        sp.evx = True
    elif name == "shrink_to_fit" and k == ():
        sp.expect["A"] = [OLD("A", Z, L)]
    elif name == "get" and k in (("n",), ("n", "out")):
        p = A[0]
        pre("pos < size()", sub(sub(L, p), ONE))
        sp.expect["A"] = [OLD("A", Z, L)]
        reg = A[1][1] if len(A) > 1 else sy["sret"]
        sp.out = (reg, "A", p)
        sp.kind = "read"
    elif name == "get_type" and k == ("n",):
        p = A[0]
        pre("pos < size()", sub(sub(L, p), ONE))
        sp.expect["A"] = [OLD("A", Z, L)]
        sp.rv = ("type", "A", p)
        sp.kind = "read"
    elif name == "is_empty" and k == ("n",):
        p = A[0]
        pre("pos < size()", sub(sub(L, p), ONE))
        sp.expect["A"] = [OLD("A", Z, L)]
        sp.rv = ("isempty", "A", p)
        sp.kind = "read"
    elif name == "position" and k == ("n",):
        p = A[0]
        pre("pos <= size()", sub(L, p))
        sp.expect["A"] = [OLD("A", Z, L)]
        sp.ret = ("position", "A", p, None, ret)
        sp.kind = "read"
    elif name == "size" and k == ():
        sp.expect["A"] = [OLD("A", Z, L)]
        sp.rv = ("lin", L)
        sp.kind = "read"
    elif name == "block_size" and k == ():
        sp.expect["A"] = [OLD("A", Z, L)]
        sp.rv = ("nblocks", "A")
        sp.kind = "read"
    elif name == "empty" and k == ():
        sp.expect["A"] = [OLD("A", Z, L)]
        sp.rv = ("bool", L)
        sp.kind = "read"
    else:
        return None
    return sp


class Entry:
    def __init__(self, mod, f, layout):
        self.mod, self.f, self.layout = mod, f, layout
        self.kinds = [pkind(p) for p in params(f)]
        self.name = f.short.split("::")[-1]
        self.label = "%s::%s(%s)" % (layout, self.name, ", ".join(re.sub(r"mdds::mtv::\w+::(detail::)?", "", p) for p in params(f))) + (" const" if f.is_const else "")


def entries(mod, layout):
    out = []
    for j in mod.raw:
        short = mod.ftab[j["f"]][2]
        m = CLS.match(short)
        if not m:
            continue
        f = mod.func(j)
        out.append(Entry(mod, f, layout))
    return out


def run_entry(e, debug=False, max_paths=400000, max_steps=60000000, shard=None, deadline=None):
    mod, f, layout = e.mod, e.f, e.layout
    ta, t = this_type(mod, f)
    if ta is None:
        return None
    fl, last = layout_offsets(mod, layout, t)
    chk = Checker(mod, f, layout, None)
    chk.ito = ito_offsets(mod, layout)
    if layout == "aos":
        chk.rec, chk.recsize = block_rec(mod, t)
        chk.offs = {"blocks": last["m_blocks"], "cur": last["m_cur_size"]}
    else:
        chk.offs = {"pos": last["positions"], "size": last["sizes"], "data": last["element_blocks"], "cur": last["m_cur_size"]}
    st = new_state(new_ms())
    it = Interp(f, chk, max_paths=max_paths, max_steps=max_steps)

    def mk(cont, reg):
        if layout == "soa":
            return chk.setup(st, cont, reg, chk.offs["pos"], chk.offs["size"], chk.offs["data"], chk.offs["cur"], 0)
        return chk.setup(st, cont, reg, chk.rec["position"], chk.rec["size"], chk.rec["data"], chk.offs["cur"], 0, chk.offs["blocks"], chk.recsize)
    sy = {"L": mk("A", ("arg", ta)), "LB": None, "ret": None, "sret": None, "n": None}
    for a in range(ta):
        st.env[a] = ("P", ("ret",), Z)
    st.env[ta] = ("P", ("arg", ta), Z)
    first = ta + 1
    vals = []
    nits = 0
    kinds = []
    for i, k in enumerate(e.kinds):
        a = first + i
        if a >= f.nargs:
            return None
        if k == "n":
            s = fresh("p%d" % i)
            st.dom.set_lb(s, 0)
            st.env[a] = lin.sym(s)
        elif k in ("mtv", "cmtv", "rmtv"):
            sy["LB"] = mk("B", ("arg", a))
            st.env[a] = ("P", ("arg", a), Z)
        elif k == "it":
            st.env[a] = ("P", ("arg", a), Z)
            if nits == 0:
                s = fresh("len")
                st.dom.set_lb(s, 0)
                sy["n"] = lin.sym(s)
                st.mem[("arg", a)] = {0: ("P", ("inp", "V"), Z)}
            else:
                st.mem[("arg", a)] = {0: ("P", ("inp", "V"), lin.scale(sy["n"], 4))}
            nits += 1
        elif k == "hint":
            st.env[a] = ("P", ("arg", a), Z)
            s = fresh("hint_block")
            st.dom.set_lb(s, 0)
            st.mem[("arg", a)] = {chk.ito["block_index"]: lin.sym(s)}
        elif k in ("v", "out", "int"):
            st.env[a] = ("P", ("arg", a), Z)
        else:
            return None
        if k != "hint":
            vals.append(st.env[a])
            kinds.append(k)
    sy["ret"] = ("ret",) if ta == 1 else None
    sy["sret"] = ("ret",)
    sp = make_spec(e.name, kinds, vals, sy)
    if sp is None:
        return None
    chk.spec = sp
    t0 = time.time()
    it.run(st, shard, deadline)
    return {"label": e.label, "where": f.where, "paths": len(it.out), "stats": chk.stats, "viol": chk.viol,
            "unknown": getattr(chk, "unk_log", {}), "steps": it.steps, "forks": it.forks, "ops": dict(chk.n_ops), "wall": time.time() - t0,
            "exhausted": it.exhausted, "pieces": sum(len(x) for x in sp.expect.values() if isinstance(x, list))}


if __name__ == "__main__":
    import sys
    from collections import Counter
    mod = ir.Module(sys.argv[1])
    layout = sys.argv[2]
    pat = sys.argv[3] if len(sys.argv) > 3 else "."
    for e in entries(mod, layout):
        if not re.search(pat, e.label):
            continue
        try:
            r = run_entry(e)
        except Exception:
            import traceback
            print("EXC", e.label)
            traceback.print_exc()
            continue
        if r is None:
            if len(sys.argv) > 4:
                print("--", e.label)
            continue
        print("%-60s paths %d %s %.1fs steps %d" % (r["label"], r["paths"], r["stats"], r["wall"], r["steps"]))
        for k, v in sorted(r["unknown"].items(), key=lambda x: -x[1])[:6]:
            print("     unknown", v, k)
        c = Counter((v[0], v[1][:150], v[2]) for v in r["viol"])
        ex = {}
        for v in r["viol"]:
            ex.setdefault((v[0], v[1][:150], v[2]), v[3])
        for k, v in c.most_common(12):
            print("     VIOL", v, k)
            print("           ", " ".join(ex[k]))
