"""Entries of flat_segment_tree, their initial states and expected results."""
import re
import time
import lin
from lin import const, add, sub
from absint import Interp, Fork, Stop, fresh, new_state, is_ptr, is_lin, PNULL
from fstmodel import Run, N, RF, RL, new_fs, Z, ONE
from fstcheck import FstCheck, Spec, spec_insert, spec_shift_left, spec_shift_right, spec_clear, LO, HI, INIT, VL, VW, S
from mtvcheck import flatten
from mtvspec import params, this_type
import ir

FST = "mdds::flat_segment_tree::"


def pick(fl, names, types=None):
    for n in names:
        for k, o in fl.items():
            if k.split(".")[0] == n or k == n:
                return o
    raise LookupError("member %s not found" % names[0])


def offsets(mod):
    o = {}
    for i, ty in enumerate(mod.types):
        ident = str(ty.get("id", ""))
        if not ty.get("m"):
            continue
        if ty["n"].startswith("flat_segment_tree<") and "left" not in o:
            ptrs = [m for m in ty["m"] if mod.tname(m[3]).startswith("intrusive_ptr")]
            if len(ptrs) < 2:
                raise LookupError("end nodes of flat_segment_tree not found")
            o["left"], o["right"] = ptrs[0][1], ptrs[1][1]
            vals = [m for m in ty["m"] if mod.tname(m[3]) == "V"]
            bools = [m for m in ty["m"] if mod.tname(m[3]) == "bool"]
            if len(vals) != 1 or len(bools) < 1:
                raise LookupError("members of flat_segment_tree not recognised")
            o["init"], o["valid"] = vals[0][1], next((m for m in bools if "valid" in m[0]), bools[0])[1]
            o["tree_members"] = ty["m"]
        if ty["n"].startswith("node<") and "key" not in o:
            fl = {m[0]: m for m in ty["m"]}
            ptrs = [m for m in ty["m"] if mod.tname(m[3]).startswith("intrusive_ptr")]
            longs = [m for m in ty["m"] if mod.tname(m[3]) == "long"]
            vals = [m for m in ty["m"] if mod.tname(m[3]) == "leaf_value_type"]
            if len(ptrs) != 2 or len(longs) != 1 or len(vals) != 1:
                raise LookupError("members of the leaf node not recognised")
            o["prev"], o["next"] = ptrs[0][1], ptrs[1][1]
            if ptrs[0][0] == "next":
                o["prev"], o["next"] = o["next"], o["prev"]
            o["key"], o["value"] = longs[0][1], vals[0][1]
        if ty["n"] == "node_base":
            for m in ty["m"]:
                o["is_leaf" if mod.tname(m[3]) == "bool" else "parent"] = m[1]
        if ty["n"].startswith("const_iterator_base<") and "it_pos" not in o:
            pt = [m for m in ty["m"] if mod.tname(m[3]) != "bool"]
            bl = [m for m in ty["m"] if mod.tname(m[3]) == "bool"]
            ps = [m for m in pt if "pos" in m[0]] or pt[1:2]
            o["it_pos"] = ps[0][1]
            o["it_db"] = [m for m in pt if m[1] != o["it_pos"]][0][1]
            o["it_end"] = bl[0][1]
    for k in ("left", "key", "is_leaf", "it_pos"):
        if k not in o:
            raise LookupError("layout of flat_segment_tree not found: " + k)
    return o


# name, parameter kinds -> (initial position variants, output pointer variants)
OPS = {
    ("insert_front", "k k v"): "insert",
    ("insert_back", "k k v"): "insert",
    ("insert", "it k k v"): "insert",
    ("shift_left", "k k"): "shift_left",
    ("shift_right", "k k b"): "shift_right",
    ("clear", ""): "clear",
    ("search", "k out pk pk"): "search",
    ("search", "it k out pk pk"): "search",
    ("search", "k"): "find",
    ("search", "it k"): "find",
}

KIND = [("k", "long"), ("b", "bool"), ("v", "drv::V"), ("it", "mdds::flat_segment_tree::const_iterator"), ("out", "drv::V&"), ("pk", "long*")]


def kinds(f):
    out = []
    for p in params(f):
        k = next((a for a, t in KIND if p == t), None)
        out.append(k or "?" + p)
    return out


def entries(mod):
    seen = set()
    for j in mod.raw:
        s = mod.ftab[j["f"]][2]
        if not s.startswith(FST) or "::" in s[len(FST):]:
            continue
        f = mod.func(j)
        if f.acc not in ("public", "none", None) and f.acc != "public":
            continue
        k = (s[len(FST):], " ".join(kinds(f)))
        if k in OPS and k not in seen:
            seen.add(k)
            yield k, f


ITV = ["null", "other", "left", "right", "mid"]


def variants(key):
    ks = key[1].split()
    out = [{}]
    if "it" in ks:
        out = [dict(v, it=x) for v in out for x in ITV]
    if "pk" in ks:
        out = [dict(v, pk=x) for v in out for x in ("null", "set")]
    return out


def init_state(c, f, ks, var):
    """an arbitrary well-formed tree and arbitrary arguments"""
    st = new_state(new_fs())
    m = st.m
    o = c.o
    ta, _ = this_type(c.mod, f)
    c.this = ("arg", ta)
    L, W, R = c.nid(st), c.nid(st), c.nid(st)
    c.L, c.W = L, W
    m.gn[L] = (LO, VL)
    m.gn[W] = (HI, VW)
    m.runs[R] = Run("live", Z, N(L), N(W))
    m.ghost = (("n", L), ("r", R), ("n", W))
    c.put_node(st, L, Z, PNULL, RF(R))
    c.put_node(st, W, Z, RL(R), PNULL)
    st.dom.add_ge0(add(sub(HI, LO), const(-1)))
    st.mem[c.this] = {o["left"]: N(L), o["right"]: N(W), o["init"]: INIT, o["valid"]: S("@valid")}
    st.dom.set_lb("@valid", 0)
    st.dom.add_ge0(sub(ONE, S("@valid")))
    for a in range(ta):
        st.env[a] = ("P", ("ret",), Z)
    st.env[ta] = ("P", c.this, Z)
    A = {}
    for i, k in enumerate(ks):
        a = ta + 1 + i
        nm = "@a%d" % i
        if k == "k":
            st.env[a] = S(nm)
            A[i] = S(nm)
        elif k == "b":
            st.env[a] = S(nm)
            st.dom.set_lb(nm, 0)
            st.dom.add_ge0(sub(ONE, S(nm)))
            A[i] = S(nm)
        elif k in ("v", "out"):
            st.env[a] = ("P", ("arg", a), Z)
            st.mem[("arg", a)] = {0: S(nm)}
            A[i] = S(nm)
        elif k == "pk":
            if var["pk"] == "null":
                st.env[a] = PNULL
            else:
                st.env[a] = ("P", ("arg", a), Z)
                st.mem[("arg", a)] = {0: S(nm)}
            A[i] = S(nm)
        elif k == "it":
            st.env[a] = ("P", ("arg", a), Z)
            w = var["it"]
            db = ("P", c.this, Z)
            end = S(nm)
            st.dom.set_lb(nm, 0)
            st.dom.add_ge0(sub(ONE, S(nm)))
            if w == "null":
                db, p = PNULL, PNULL
            elif w == "other":
                db, p = ("P", ("othertree",), Z), N(L)
                # a leaf of some other tree
                q = c.nid(st)
                st.mem[("n", q)] = {o["key"]: S("@ok"), o["value"]: S("@ov"), o["is_leaf"]: ONE, o["prev"]: ("P", ("sym", "op"), Z), o["next"]: ("P", ("sym", "on"), Z), o["parent"]: PNULL}
                m.extra = m.extra + (q,)
                p = N(q)
            elif w == "left":
                p = N(L)
            elif w == "right":
                p = N(W)
            else:
                rid = next(x[1] for x in m.ghost if x[0] == "r")
                c.split_front(st, rid)
                n = m.ghost[1][1]
                # leaves before it
                q = c.nid(st)
                m.runs[q] = Run("live", Z, N(L), N(n))
                m.ghost = m.ghost[:1] + (("r", q),) + m.ghost[1:]
                c.I.raw_store(st, ("n", L), o["next"], RF(q))
                c.I.raw_store(st, ("n", n), o["prev"], RL(q))
                # the facts about L and its neighbour no longer apply to n
                st.dom.neq = frozenset()
                p = N(n)
            st.mem[("arg", a)] = {o["it_db"]: db, o["it_pos"]: p, o["it_end"]: end}
            c.hint_end = (a, end)
        else:
            return None, None
    if st.dom.bad:
        return None, None
    return st, A


def itval(c, st, reg, base=0):
    g = lambda off: c.I.norm(st, c.I.raw_load(st, reg, off + base, "ptr"))
    return g(c.o["it_db"]), g(c.o["it_pos"]), g(c.o["it_end"])


def at_end(c, st, it):
    return it[1] == N(c.W) and it[2] == ONE


def seg_of(c, st, act, key):
    """(node id, key, value, next item) of the listed leaf whose segment contains key"""
    last = None
    for i, b in enumerate(act):
        if b[0] == "n":
            if c.lt(st, key, b[1]):
                break
            last = i
        else:
            # decide with the node that follows
            k = next(j for j in range(i, len(act)) if act[j][0] == "n")
            if c.I.decide_ge0(st, sub(key, act[k][1])):
                continue
            rid = b[1]
            gi = st.m.ghost.index(("r", rid))
            # cut the run at the key (in its current coordinates)
            c.before(st, gi, add(sub(key, b[2]), ONE))
            # every member lies on one side: before() forks otherwise
            if c.before(st, gi, add(sub(key, b[2]), ONE)):
                raise Fork([lambda s: c.make_empty(s, rid), lambda s: c.split_back(s, rid)])
    return last


def ret_insert(s, e):
    def chk(c, st, val, act):
        db, pos, end = itval(c, st, ("ret",))
        ch = c.I.norm(st, c.I.raw_load(st, ("ret",), c.retbool, "i8"))
        rejected = not c.lt(st, s, e) or not c.lt(st, LO, e) or not c.lt(st, s, HI)
        if not (is_lin(ch) and not ch[1]) and not (ch.__class__ is tuple and ch[0] in ("B", "not")):
            return "the flag of the returned pair is not determined"
        flag = c.I.truth(st, ch)
        if db != ("P", c.this, Z):
            return "the returned iterator belongs to no tree"
        if rejected:
            if flag:
                return "a rejected insertion reports a change"
            return None if at_end(c, st, (db, pos, end)) else "a rejected insertion does not return the end iterator"
        orig = c.tag(st, c.original(st))
        changed = not c.same(st, act, orig)
        if flag != changed:
            return "the tree %s but the returned flag says otherwise" % ("is modified" if changed else "is not modified")
        if end != Z:
            return "the returned iterator is an end iterator"
        k = seg_of(c, st, act, LO if c.lt(st, s, LO) else s)
        if k is None or pos != N(act[k][3]):
            return "the returned iterator does not reference the segment that contains the inserted range"
        return None
    return chk


def ret_search(key, iout, ipk, var, base, A):
    def chk(c, st, val, act):
        db, pos, end = itval(c, st, ("ret",))
        fl = c.I.truth(st, c.I.norm(st, c.I.raw_load(st, ("ret",), c.retbool, "i8")))
        out = st.dom.norm(c.I.raw_load(st, ("arg", base + iout), 0, "i64"))
        inside = not c.lt(st, key, LO) and c.lt(st, key, HI)
        if not inside:
            if fl:
                return "a key out of range is reported as found"
            if out != st.dom.norm(A[iout]):
                return "the output value is modified although the key is out of range"
            return None if at_end(c, st, (db, pos, end)) else "the end iterator is not returned for a key out of range"
        k = seg_of(c, st, act, key)
        b = act[k]
        if not fl:
            return "a key in range is reported as not found"
        if not c.I.decide(st, "eq", out, b[2]):
            return "the value reported is not that of the segment containing the key"
        if db != ("P", c.this, Z) or pos != N(b[3]) or end != Z:
            return "the returned iterator does not reference the segment containing the key"
        if var.get("pk") == "set":
            s1 = st.dom.norm(c.I.raw_load(st, ("arg", base + ipk), 0, "i64"))
            e1 = st.dom.norm(c.I.raw_load(st, ("arg", base + ipk + 1), 0, "i64"))
            if not c.I.decide(st, "eq", s1, b[1]):
                return "the reported start key is not that of the segment"
            nx = act[k + 1]
            if nx[0] == "r":
                rid = nx[1]
                raise Fork([lambda s: c.make_empty(s, rid), lambda s: c.split_front(s, rid)])
            if not c.I.decide(st, "eq", e1, nx[1]):
                return "the reported end key is not that of the segment"
        return None
    return chk


def ret_find(key):
    def chk(c, st, val, act):
        db, pos, end = itval(c, st, ("ret",))
        inside = not c.lt(st, key, LO) and c.lt(st, key, HI)
        if not inside:
            return None if at_end(c, st, (db, pos, end)) else "the end iterator is not returned for a key out of range"
        k = seg_of(c, st, act, key)
        if db != ("P", c.this, Z) or pos != N(act[k][3]) or end != Z:
            return "the returned iterator does not reference the segment containing the key"
        return None
    return chk


def make_spec(c, key, ks, A, var, ta):
    sp = Spec()
    what = OPS[key]
    kk = [i for i, k in enumerate(ks) if k == "k"]
    if what == "insert":
        v = [i for i, k in enumerate(ks) if k == "v"][0]
        sp.bps = spec_insert(A[kk[0]], A[kk[1]], A[v])
        sp.ret = ret_insert(A[kk[0]], A[kk[1]])
    elif what == "shift_left":
        sp.bps = spec_shift_left(A[0], A[1])
    elif what == "shift_right":
        sp.bps = spec_shift_right(A[0], A[1], A[2])
    elif what == "clear":
        sp.bps = spec_clear()
    elif what == "search":
        i = [i for i, k in enumerate(ks) if k == "out"][0]
        sp.ret = ret_search(A[kk[0]], i, i + 1, var, ta + 1, A)
    elif what == "find":
        sp.ret = ret_find(A[kk[0]])
    return sp


def run(mod, key, f, var, deadline=None, max_paths=10 ** 9, shard=None):
    offs = offsets(mod)
    c = FstCheck(mod, f, offs)
    it = Interp(f, c, max_paths=max_paths, max_steps=10 ** 12)
    ks = kinds(f)
    st, A = init_state(c, f, ks, var)
    if st is None:
        return None
    ta, _ = this_type(mod, f)
    c.retbool = 24
    c.spec = make_spec(c, key, ks, A, var, ta)
    t0 = time.time()
    it.run(st, shard, deadline)
    lab = "flat_segment_tree::%s(%s)%s" % (key[0], ", ".join(ks), "".join(" [%s=%s]" % kv for kv in sorted(var.items())))
    return {"label": lab, "where": f.where, "paths": len(it.out), "stats": c.stats, "viol": c.viol, "unknown": c.unk, "steps": it.steps,
            "forks": it.forks, "wall": time.time() - t0, "exhausted": it.exhausted}


if __name__ == "__main__":
    import sys
    from collections import Counter
    mod = ir.Module(sys.argv[1])
    pat = sys.argv[2] if len(sys.argv) > 2 else "."
    lim = float(sys.argv[3]) if len(sys.argv) > 3 else 60
    for key, f in entries(mod):
        for var in variants(key):
            lab = "%s(%s) %s" % (key[0], key[1], var)
            if not re.search(pat, lab):
                continue
            try:
                r = run(mod, key, f, var, deadline=time.time() + lim)
            except Exception:
                import traceback
                print("EXC", lab)
                traceback.print_exc()
                continue
            print("%-60s paths %d %s %.1fs steps %d forks %d exh %s" % (lab, r["paths"], r["stats"], r["wall"], r["steps"], r["forks"], r["exhausted"]))
            for k, v in sorted(r["unknown"].items(), key=lambda x: -x[1])[:6]:
                print("     unknown", v, k)
            cn = Counter((v[0], re.sub(r"\d+", "#", v[1])[:100], v[2][:90]) for v in r["viol"])
            ex = {}
            for v in r["viol"]:
                ex.setdefault((v[0], re.sub(r"\d+", "#", v[1])[:100], v[2][:90]), v)
            for k, v in cn.most_common(12):
                print("     VIOL", v, k)
                print("           ", ex[k][1][:600])
                print("           ", " ".join(ex[k][3]))
