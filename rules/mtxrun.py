"""multi_type_matrix: every operation addresses the element it names.

The underlying store is opaque: its members appear as calls with a documented meaning (they have properties of
their own).  Positions in the store are polynomials row + rows*column; an operation is followed for one arbitrary
element (r, c): which value that element holds after the call, or how often a walk visits it.  Loops are
summarised by induction: values that change by the same amount share one unknown, linear bounds between the
changing values and the unchanged ones are kept when they hold on entry and are preserved by the body.
"""
import os
import re
from multiprocessing import Pool, Value
import lin
from lin import const, add, sub, neg
from absint import operands, Interp, Model, Fork, Stop, fresh, new_state, is_ptr, is_lin, PNULL

Z, ONE = lin.ZERO, const(1)
S = lin.sym
DOT = "·"
TYPES = (-1, 0, 5, 10, 11)
TNAME = {-1: "empty", 0: "boolean", 5: "integer", 10: "numeric", 11: "string"}


# ---- polynomials ---------------------------------------------------------------------------
def factors(s):
    return s[2:-1].split(DOT) if s.startswith("*(") else [s]


def flatten(o):
    for x in o:
        if x.__class__ is int:
            yield x
        elif x.__class__ in (list, tuple):
            yield from flatten(x)


def pmul(a, b):
    r = const(a[0] * b[0])
    for s, c in a[1]:
        if b[0]:
            r = add(r, S(s), c * b[0])
        for t, d in b[1]:
            r = add(r, S("*(" + DOT.join(sorted(factors(s) + factors(t))) + ")"), c * d)
    for t, d in b[1]:
        if a[0]:
            r = add(r, S(t), a[0] * d)
    return r


def pn(st, p):
    """normal form of a polynomial under the equalities of the state"""
    p = st.dom.norm(p)
    for _ in range(4):
        if not any(s.startswith("*(") for s, _c in p[1]):
            return p
        r = const(p[0])
        for s, c in p[1]:
            if s.startswith("*("):
                m = ONE
                for f in factors(s):
                    m = pmul(m, st.dom.norm(S(f)))
                r = add(r, m, c)
            else:
                r = add(r, S(s), c)
        r = st.dom.norm(r)
        if r == p:
            return r
        p = r
    return p


def mono(p):
    return any(s.startswith("*(") for s, _ in p[1])


def split(p, R):
    """p = R*A + B"""
    A, B = Z, const(p[0])
    for s, c in p[1]:
        f = factors(s)
        if R in f:
            f.remove(R)
            A = add(A, S(f[0]) if len(f) == 1 else (S("*(" + DOT.join(f) + ")") if f else ONE), c)
        else:
            B = add(B, S(s), c)
    return A, B


class PI(Interp):
    def _op_mul(self, st, i):
        a, b = self._bin(st, i)
        st.env[i.id] = pmul(pn(st, a), pn(st, b))

    def geo(self, st, t):
        """symbols that occur in every product of t"""
        c = None
        for s, _ in t[1]:
            if s.startswith("*("):
                f = set(factors(s))
                c = f if c is None else c & f
        return sorted(c or ())

    def decide_ge0(self, st, t):
        t = pn(st, t)
        if not mono(t):
            return Interp.decide_ge0(self, st, t)
        if st.dom.ge0(t):
            return True
        d = st.dom
        for R in self.geo(st, t):
            if not d.ge0(sub(S(R), ONE)):
                continue
            A, B = split(t, R)
            if mono(A) or mono(B):
                continue
            r = S(R)
            for _ in range(4):
                if (d.ge0(A) and d.ge0(B)) or (d.ge0(sub(A, ONE)) and d.ge0(add(B, r))):
                    return True
                if (d.ge0(neg(A)) and d.ge0(sub(neg(B), ONE))) or (d.ge0(sub(neg(A), ONE)) and d.ge0(sub(sub(r, B), ONE))):
                    return False
                if d.ge0(B) and d.ge0(sub(sub(r, B), ONE)):
                    return Interp.decide_ge0(self, st, A)
                if d.ge0(add(B, r)) and d.ge0(sub(sub(lin.scale(r, 2), B), ONE)):
                    # |B| is small: find out in which row range it is
                    if not Interp.decide_ge0(self, st, B):
                        A, B = sub(A, ONE), add(B, r)
                    elif not Interp.decide_ge0(self, st, sub(sub(r, B), ONE)):
                        A, B = add(A, ONE), sub(B, r)
                    continue
                break
        if any(s == "val:q" for s, _ in t[1]):
            return Interp.decide_ge0(self, st, t)
        if all(p.startswith("size:") for s, _ in t[1] for p in factors(s)):
            return Interp.decide_ge0(self, st, t)
        if any(k == "ge" and c[1] == t[1] for k, c in d.constraints()):
            return Interp.decide_ge0(self, st, t)      # one step past a bound that is known
        raise Stop("unknown", "comparison of positions in different columns")

    def decide(self, st, pred, a, b):
        if is_lin(a) and is_lin(b):
            a, b = pn(st, a), pn(st, b)
            x = pn(st, sub(a, b))
            if mono(x) and pred in ("eq", "ne"):
                return self.poly_eq(st, x) == (pred == "eq")
        return Interp.decide(self, st, pred, a, b)

    def poly_eq(self, st, x):
        if st.dom.eq0(x):
            return True
        if st.dom.ne0(x):
            return False
        if len([1 for s, _ in x[1] if not s.startswith("*(")]) == 1 and self.model.free_eq(st, x):
            raise Fork([lambda s: s.dom.add_eq0(x), lambda s: s.dom.add_ne0(x)])
        if not self.decide_ge0(st, x):
            return False
        return self.decide_ge0(st, neg(x))

    def _op_and(self, st, i):
        a, b = self.val(st, i.a[1]), self.val(st, i.a[2])
        for x, y in ((a, b), (b, a)):
            if y == ONE and is_lin(x) and len(x[1]) == 1 and x[1][0][0] in st.m.elems:
                st.env[i.id] = x        # one bit of a packed sequence of booleans
                return
        Interp._op_and(self, st, i)

    def _conv(self, st, i):
        st.env[i.id] = self.val(st, i.a[1])

    _op_sitofp = _op_uitofp = _op_fptosi = _op_fpext = _op_fptrunc = _conv

    def _op_cmp(self, st, i):
        p = i.a[0]
        v = [self.val(st, i.a[1]), self.val(st, i.a[2])]
        if p in ("une", "one", "oeq", "ueq"):
            v = [Z if is_lin(x) and len(x[1]) == 1 and re.match(r"flt:-?0(\.0+)?(e[+-]?0+)?$", x[1][0][0]) else x for x in v]
            p = "ne" if p in ("une", "one") else "eq"
        elif p[0] in "ou" and p[1:] in ("lt", "gt", "le", "ge") and i.a[1].__class__ is int and str(getattr(self.f.defs.get(i.a[1]), "a", [""])[0]) == "double":
            raise Stop("unknown", "comparison of floating-point values")
        st.env[i.id] = ("B", p, v[0], v[1])

    def _op_udiv(self, st, i):
        a, b = self._bin(st, i)
        a, b = pn(st, a), pn(st, b)
        if b[0] == 0 and len(b[1]) == 1 and b[1][0][1] == 1:
            R = b[1][0][0]
            A, B = split(a, R)
            if not mono(A) and not mono(B) and st.dom.ge0(B) and st.dom.ge0(sub(sub(b, B), ONE)):
                st.env[i.id] = A
                return
        self._div(st, i, False)

    def _op_urem(self, st, i):
        a, b = self._bin(st, i)
        a, b = pn(st, a), pn(st, b)
        if b[0] == 0 and len(b[1]) == 1 and b[1][0][1] == 1:
            R = b[1][0][0]
            A, B = split(a, R)
            if not mono(A) and not mono(B) and st.dom.ge0(B) and st.dom.ge0(sub(sub(b, B), ONE)):
                st.env[i.id] = B
                return
        Interp._op_urem(self, st, i)


def layout(mod):
    """where a matrix keeps its store, row count and column count, and a position its second part"""
    so = ro = co = sec = pr = node = None
    for t in mod.types:
        n = t["n"]
        if n.startswith("multi_type_matrix<"):
            for x in t.get("m", []):
                y = mod.tname(x[3])
                if y == "size_pair_type":
                    sub = {z[0]: z[1] for z in mod.members(x[3])}
                    ro, co = x[1] + sub["row"], x[1] + sub["column"]
                    pr = sub["row"], sub["column"]
                elif y.startswith("multi_type_vector<"):
                    so = x[1]
        elif n.startswith("element_block_node_type") and "multi_type_matrix" in t.get("sc", ""):
            node = {x[0]: x[1] for x in t.get("m", [])}
        elif re.match(r"pair<mdds::mtv::\w+::detail::(const_)?iterator_base<", n):
            for x in t.get("m", []):
                if x[0] == "second":
                    sec = x[1]
    if None in (so, ro, co, sec, node):
        raise KeyError("the layout of multi_type_matrix or of its positions is not known")
    return so, ro, co, sec, pr, node


# ---- state ------------------------------------------------------------------------------------
class XM:
    __slots__ = ("its", "obj", "cont", "typ", "elems", "strs", "log", "n", "last")

    def __init__(self):
        self.its = {}      # (region, offset) -> ("IT", content, epoch, P, O, L, type or None)
        self.obj = {}      # store object (region, offset) -> content
        self.cont = {}     # content -> (epoch, size, ghost of the followed element)
        self.typ = {}      # (content, epoch, position) -> element type
        self.elems = {}    # value symbol -> (content, epoch, position, kind)
        self.strs = {}     # string object -> the same
        self.log = ()
        self.n = 0
        self.last = None

    def copy(self):
        s = XM.__new__(XM)
        s.its, s.obj, s.cont, s.typ = dict(self.its), dict(self.obj), dict(self.cont), dict(self.typ)
        s.elems, s.strs = dict(self.elems), dict(self.strs)
        s.log, s.n, s.last = self.log, self.n, self.last
        return s


def kind_of(dem):
    """element type named by a demangled template function"""
    m = re.search(r"element_block<mdds::mtv::default_element_block<(-?\d+),", dem)
    if m:
        return int(m.group(1))
    m = re.search(r"::(?:set|get|multi_type_vector)<(?:__gnu_cxx::__normal_iterator<)?(double|bool|int|std::__cxx11|std::_Bit)", dem)
    return {"double": 10, "bool": 0, "std::_Bit": 0, "int": 5, "std::__cxx11": 11}[m.group(1)] if m else None


class MtxModel(Model):
    def __init__(self, mod, func, spec):
        self.mod, self.func, self.spec = mod, func, spec
        self.viol, self.unk, self.paths = [], {}, 0
        self.stats = {}
        self.dropped = {}
        self.begun = {}
        self.table = {}        # loop head -> general states explored
        self.so, self.rowoff, self.coloff, self.sec, self.pair, self.nodeoff = layout(mod)

    # -- memory
    def initial(self, st, reg, off, ty):
        if reg[0] == "sym":
            raise Stop("unknown", "access through a pointer of unknown target")
        if ty == "ptr":
            return ("P", ("d", reg, off), Z)
        return S("m:%r:%d" % (reg, off))

    def free_eq(self, st, x):
        return any(s.startswith("len:") for s, _ in x[1])

    def cmp_ptr(self, st, pred, a, b):
        a, b = [PNULL if is_ptr(x) and x[1][0] == "data" and x[1][4] == -1 else x for x in (a, b)]
        if not is_ptr(a):
            a, b = b, a
        if not is_ptr(a):
            return (a == b) == (pred == "eq") if pred in ("eq", "ne") else None
        if is_ptr(b):
            if a[1] == b[1]:
                return self.I.decide(st, pred if pred in ("eq", "ne") else "s" + pred[1:], a[2], b[2])
            if pred in ("eq", "ne"):
                return pred == "ne"
            return None
        if is_lin(b) and not b[1] and b[0] == 0 and pred in ("eq", "ne"):
            return pred == "ne"
        return None

    def load(self, st, reg, off, ty):
        off = st.dom.norm(off)
        if reg[0] == "node":
            if off[1]:
                raise Stop("unknown", "member of an iterator node at a variable offset")
            return self.node(st, reg, off[0])
        if reg[0] == "bd":
            return self.elem_val(st, reg[1], off, reg[1][4])
        if reg[0] == "el":
            return self.elem_val(st, reg[1], off, reg[2])
        if off[1]:
            raise Stop("unknown", "memory access at a variable offset")
        return self.I.raw_load(st, reg, off[0], ty)

    def store(self, st, reg, off, v, ty):
        if reg[0] in ("node", "el", "data", "bd", "rng"):
            raise Stop("bug", "an element block is modified directly")
        if off[1]:
            raise Stop("unknown", "memory access at a variable offset")
        self.I.raw_store(st, reg, off[0], v)

    def node(self, st, reg, off):
        it = self.deref(st, (reg[1], reg[2]))
        if off == 0:
            t = self.type_of(st, (reg[1], reg[2]))
            it = st.m.its[(reg[1], reg[2])]
            self.spec.typed_block(self, st, it[1], sub(it[3], it[4]), add(it[4], it[5]), t)
            return const(t)
        if off == 8:
            return sub(it[3], it[4])
        if off == 16:
            return add(it[4], it[5])
        if off == 24:
            t = self.type_of(st, (reg[1], reg[2]))
            it = st.m.its[(reg[1], reg[2])]
            return ("P", ("data", it[1], it[2], pn(st, sub(it[3], it[4])), t, pn(st, add(it[4], it[5]))), Z)
        raise Stop("unknown", "member %d of an iterator node" % off)

    # -- iterators
    def it(self, st, p, what="iterator"):
        if not is_ptr(p) or p[2][1]:
            raise Stop("unknown", what + " at an unknown address")
        k = (p[1], p[2][0])
        if k not in st.m.its:
            raise Stop("unknown", what + " of unknown origin")
        return k, st.m.its[k]

    def current(self, st, it, what):
        if it[0] == "NULL":
            raise Stop("bug", what + ": a default-constructed iterator is used")
        if st.m.cont[it[1]][0] != it[2]:
            raise Stop("bug", what + ": an iterator is used after the store was modified")

    def deref(self, st, k):
        it = st.m.its.get(k)
        if it is None:
            raise Stop("unknown", "iterator of unknown origin")
        self.current(st, it, "dereference")
        if not self.I.decide_ge0(st, sub(sub(st.m.cont[it[1]][1], it[3]), ONE)):
            raise Stop("bug", "an iterator past the last block is dereferenced")
        rest = pn(st, sub(sub(st.m.cont[it[1]][1], it[3]), it[5]))
        if not mono(rest):
            st.dom.add_ge0(rest)        # blocks end within the store
        return it

    def type_of(self, st, k):
        it = st.m.its[k]
        if it[6] is None:
            def setter(t):
                def g(s):
                    i = s.m.its[k]
                    base = sub(i[3], i[4])
                    for kk, j in list(s.m.its.items()):
                        if j[0] == "IT" and j[1:3] == i[1:3] and sub(j[3], j[4]) == base:
                            s.m.its[kk] = j[:6] + (t,)
                    return True
                return g
            raise Fork([setter(t) for t in TYPES])
        return it[6]

    def new_it(self, st, cid, P, at_head=False, t=None):
        L = S(fresh("left"))
        st.dom.set_lb(L[1][0][0], 1)
        O = Z
        if not at_head:
            O = S(fresh("into"))
            st.dom.set_lb(O[1][0][0], 0)
        return ("IT", cid, st.m.cont[cid][0], P, O, L, t)

    def put_pair(self, st, p, it):
        k = (p[1], p[2][0])
        st.m.its[k] = it
        self.I.raw_store(st, p[1], p[2][0] + self.sec, it[4])

    def cid(self, st, p):
        if is_ptr(p) and not p[2][1]:
            c = st.m.obj.get((p[1], p[2][0]))
            if c is not None:
                return c
        raise Stop("unknown", "store of unknown identity")

    def modified(self, st, cid, ghost=None):
        c = st.m.cont[cid]
        st.m.n += 1
        st.m.cont[cid] = (fresh("ep"), c[1], c[2] if ghost is None else ghost)

    # -- values
    def elem_val(self, st, blk, idx, kind):
        """the element at index idx of a block, as a value"""
        s = "el:%s:%d:%r:%r" % (blk[1], kind, blk[3], st.dom.norm(idx))
        st.m.elems[s] = (blk[1], blk[2], add(blk[3], idx), kind)
        return S(s)

    def value_at(self, st, p, kind):
        """what the value argument designates: ("elem", content, position, kind) or ("arg", name)"""
        if not is_ptr(p):
            raise Stop("bug", "null value")
        if kind == 11:
            if (p[1], p[2][0]) in st.m.strs:
                c, e, P, k = st.m.strs[(p[1], p[2][0])]
                return ("elem", c, P, k)
            if p[1][0] == "arg":
                return ("arg", "v")
            raise Stop("unknown", "string of unknown content")
        v = st.mem.get(p[1], {}).get(p[2][0])
        if v is None:
            v = self.I.raw_load(st, p[1], p[2][0], "i64")
        return self.desc(st, v, kind)

    def desc(self, st, v, kind):
        if v.__class__ is tuple and v[0] in ("B", "not"):
            return ("?", repr(v)[:60])
        v = self.I.norm(st, v)
        if is_lin(v) and len(v[1]) == 1 and v[0] == 0 and v[1][0][1] == 1:
            s = v[1][0][0]
            if s in st.m.elems:
                c, e, P, k = st.m.elems[s]
                return ("elem", c, P, k)
            if s == "val:v" or s == "m:('arg', %s):0" % self.spec.varg:
                return ("arg", "v")
        return ("?", repr(v)[:60])

    def itpos(self, st, p):
        """an element iterator stored at p: (region, index)"""
        if not is_ptr(p) or p[2][1]:
            raise Stop("unknown", "iterator argument")
        v = st.mem.get(p[1], {}).get(p[2][0])
        if v is None:
            v = self.I.raw_load(st, p[1], p[2][0], "ptr")
        v = self.I.norm(st, v)
        if not is_ptr(v):
            raise Stop("unknown", "iterator argument")
        if v[1][0] == "rng":
            x = v[2]
            if x[0] % 8 or any(c % 8 for _, c in x[1]):
                raise Stop("unknown", "iterator argument")
            return v[1], (x[0] // 8, tuple((s, c // 8) for s, c in x[1]))
        return v[1], v[2]

    # -- the store
    def call(self, st, ins, name, args):
        name = name or "?"
        last = re.sub(r"\[abi:.*", "", name.split("::")[-1])
        ty = ins.a[0]
        if name.startswith("llvm."):
            return self.intrinsic(st, ins, name, args)
        if name in ("__cxa_throw", "__cxa_rethrow"):
            raise Stop("throw", "")
        if name == "__cxa_allocate_exception":
            return ("P", ("exc",), Z)
        if name.startswith("__cxa_"):
            return None if ty == "void" else self.I.unknown(st, ins.id, ty)
        dem = self.mod.ftab[ins.a[1]][1] if ins.a[1].__class__ is int else ""
        if re.search(r"(^| )std::(__)?distance$", name):
            v = [self.I.norm(st, a) for a in args[:2]]
            v = [x if x[1][0] == "rng" else self.itcell(st, x) for x in v]
            if v[0][1] != v[1][1]:
                raise Stop("bug", "the distance between two different sequences is taken")
            x = sub(v[1][2], v[0][2])
            return (x[0] // 8, tuple((s, c // 8) for s, c in x[1])) if v[0][1][0] == "rng" else x
        if re.search(r"(^| )std::(__)?advance$", name):
            v = self.itcell(st, args[0])
            n = self.I.as_lin(st, args[1])
            k = 8 if v[1][0] == "rng" else 1
            self.I.raw_store(st, args[0][1], args[0][2][0], ("P", v[1], pn(st, add(v[2], n, k))))
            return None
        if "multi_type_vector::" in name and "::detail::" not in name.split("(")[0].split(" ")[-1]:
            return self.mtv(st, ins, last, dem, args)
        if "iterator_base::" in name and name.startswith("mdds::mtv"):
            return self.itop(st, ins, last, args)
        if name.startswith("mdds::mtv::element_block::"):
            return self.block(st, ins, last, dem, args)
        if name.startswith(("std::__cxx11", "std::basic_", "std::operator<<", "std::ostream")) or re.match(r"mdds::\w+_error::", name):
            if last.startswith("basic_string") and "::basic_string" in name and len(args) == 2 and is_ptr(args[1]) and (args[1][1], args[1][2][0]) in st.m.strs and not args[1][2][1]:
                st.m.strs[(args[0][1], args[0][2][0])] = st.m.strs[(args[1][1], args[1][2][0])]
            return None if ty == "void" else self.I.unknown(st, ins.id, ty)
        if re.match(r"drv::fn2?::", name):
            if last == "operator()":
                self.spec.visit(self, st, args[1:])
                return None
            return None
        if name.startswith("std::_Bit_") or "__normal_iterator" in name:
            return self.elit(st, ins, last, args)
        if ins.a[1].__class__ is int and self.mod.ftab[ins.a[1]][4]:
            raise Stop("throw", name)
        raise Stop("unknown", "call of " + name)

    def itcell(self, st, p):
        if not is_ptr(p) or p[2][1]:
            raise Stop("unknown", "iterator argument")
        v = st.mem.get(p[1], {}).get(p[2][0])
        if v is None:
            v = self.I.raw_load(st, p[1], p[2][0], "ptr")
        v = self.I.norm(st, v)
        if not is_ptr(v) or v[1][0] not in ("bd", "rng"):
            raise Stop("unknown", "iterator argument")
        return v

    def elit(self, st, ins, last, args):
        """iterators over the elements of a block"""
        v = self.itcell(st, args[0])
        if last == "operator*":
            if v[1][0] == "bd":
                if ins.a[0] in ("i1", "i8"):
                    return self.elem_val(st, v[1][1], v[2], v[1][1][4])
                return ("P", ("el", v[1][1], v[1][1][4]), v[2])
        if last in ("operator+=", "operator-="):
            n = self.I.as_lin(st, args[1])
            self.I.raw_store(st, args[0][1], args[0][2][0], ("P", v[1], add(v[2], n, 1 if last == "operator+=" else -1)))
            return args[0]
        if last in ("operator++", "operator--") and len(args) == 1:
            self.I.raw_store(st, args[0][1], args[0][2][0], ("P", v[1], add(v[2], ONE, 1 if last == "operator++" else -1)))
            return args[0]
        if last in ("operator+", "operator-") and ins.a[0] == "ptr" and len(args) == 2:
            n = self.I.as_lin(st, args[1])
            return ("P", v[1], add(v[2], n, 1 if last == "operator+" else -1))
        raise Stop("unknown", "element iterator operation " + last)

    def block(self, st, ins, last, dem, args):
        d = args[0]
        if not is_ptr(d) or d[1][0] != "data":
            raise Stop("bug" if not is_ptr(d) else "unknown", "element block access without a block")
        blk = d[1]
        if blk[4] == -1:
            raise Stop("bug", "the block of empty elements is accessed")
        if st.m.cont[blk[1]][0] != blk[2]:
            raise Stop("bug", "an element block is used after the store was modified")
        k = kind_of(dem)
        if k is None:
            raise Stop("unknown", "element block type")
        if k != blk[4]:
            raise Stop("bug", "a block of type %s is accessed as %s" % (TNAME[blk[4]], TNAME.get(k, k)))
        if last == "at":
            return ("P", ("el", blk, k), self.I.as_lin(st, args[1]))
        if last == "begin":
            p = ("P", ("bd", blk), Z)
            return ("S", (p, Z)) if ins.a[0] == "struct" else p
        raise Stop("unknown", "element block function " + last)

    def itop(self, st, ins, last, args):
        m = st.m
        if last in ("iterator_base", "const_iterator_base"):
            if len(args) == 1:
                m.its[(args[0][1], args[0][2][0])] = ("NULL",)
            else:
                m.its[(args[0][1], args[0][2][0])] = self.it(st, args[1])[1]
            return None
        if last == "operator=":
            m.its[(args[0][1], args[0][2][0])] = self.it(st, args[1])[1]
            return args[0]
        if last in ("operator->", "operator*"):
            k, i = self.it(st, args[0])
            return ("P", ("node",) + k, Z)
        if last in ("operator++", "operator--"):
            if len(args) != 1 or last == "operator--":
                raise Stop("unknown", last)
            k, i = self.it(st, args[0])
            i = self.deref(st, k)
            m.its[k] = self.new_it(st, i[1], pn(st, add(i[3], i[5])), True)
            return args[0]
        if last in ("operator==", "operator!="):
            k1, a = self.it(st, args[0])
            k2, b = self.it(st, args[1])
            for x in (a, b):
                self.current(st, x, "comparison")
            if a[1] != b[1]:
                raise Stop("bug", "iterators of different stores are compared")
            r = self.I.decide(st, "eq", sub(a[3], a[4]), sub(b[3], b[4]))
            return ONE if r == (last == "operator==") else Z
        raise Stop("unknown", "iterator operation " + last)

    def hint(self, st, p, cid):
        k, i = self.it(st, p, "position hint")
        self.current(st, i, "position hint")
        if i[1] != cid:
            raise Stop("bug", "the position hint belongs to another store")

    def mtv(self, st, ins, last, dem, args):
        m = st.m
        I = self.I
        if last == "multi_type_vector":
            k = (args[0][1], args[0][2][0])
            cid = "c%d" % (len(m.cont) + 1)
            if len(args) == 1:
                m.cont[cid] = (fresh("ep"), Z, ("none",))
            elif is_ptr(args[1]):
                s = self.cid(st, args[1])
                m.cont[cid] = (fresh("ep"), m.cont[s][1], ("copy", m.cont[s][2], s) if "&&" not in dem else m.cont[s][2])
                if "&&" in dem:
                    # the content moves over
                    m.obj[k], m.obj[(args[1][1], args[1][2][0])] = s, cid
                    m.cont[cid] = (fresh("ep"), Z, ("none",))
                    return None
            else:
                n = pn(st, I.as_lin(st, args[1]))
                if len(args) == 2:
                    g = ("init", "empty")
                elif len(args) == 3:
                    g = ("init", self.value_at(st, args[2], kind_of(dem))[:2] + (kind_of(dem),))
                else:
                    r1, i1 = self.itpos(st, args[2])
                    r2, i2 = self.itpos(st, args[3])
                    g = ("init", ("range", r1, i1, r2, i2))
                m.cont[cid] = (fresh("ep"), n, g)
            m.obj[k] = cid
            return None
        if last == "~multi_type_vector":
            m.obj.pop((args[0][1], args[0][2][0]), None)
            return None
        if last == "logical_position":
            k, i = self.it(st, args[0])
            self.current(st, i, "logical_position")
            return pn(st, add(sub(i[3], i[4]), I.raw_load(st, k[0], k[1] + self.sec, "i64")))
        if last in ("next_position", "advance_position"):
            k, i = self.it(st, args[1])
            i = self.deref(st, k)
            n = ONE if last == "next_position" else I.as_lin(st, args[2])
            sec = I.raw_load(st, k[0], k[1] + self.sec, "i64")
            to = pn(st, add(add(sub(i[3], i[4]), sec), n))
            rest = pn(st, sub(sub(add(i[4], i[5]), sec), n))
            if not I.decide_ge0(st, n):
                raise Stop("unknown", "backward movement")
            if I.decide_ge0(st, sub(rest, ONE)):
                j = ("IT", i[1], i[2], to, st.dom.norm(add(sec, n)), rest, i[6])
            else:
                j = self.new_it(st, i[1], to, I.decide(st, "eq", rest, Z))
            self.put_pair(st, args[0], j)
            return None
        if last == "get_element_type":
            return const(kind_of(dem.replace("get_element_type", "get")))
        if last == "swap":
            a, b = (args[0][1], args[0][2][0]), (args[1][1], args[1][2][0])
            self.cid(st, args[0]), self.cid(st, args[1])
            m.obj[a], m.obj[b] = m.obj[b], m.obj[a]
            return None
        if last == "operator=":
            k = (args[0][1], args[0][2][0])
            s = self.cid(st, args[1])
            if args[0] == args[1]:
                return args[0]
            cid = "c%d" % (len(m.cont) + 1)
            if "&&" in dem:
                m.obj[k] = s
                m.obj[(args[1][1], args[1][2][0])] = cid
                m.cont[cid] = (fresh("ep"), Z, ("none",))
            else:
                m.cont[cid] = (fresh("ep"), m.cont[s][1], ("copy", m.cont[s][2], s))
                m.obj[k] = cid
            return args[0]
        if last == "operator==":
            a, b = self.cid(st, args[0]), self.cid(st, args[1])
            s = S("size:eq:%s:%s" % tuple(sorted((a, b))))
            st.dom.set_lb(s[1][0][0], 0)
            st.dom.add_ge0(sub(ONE, s))
            return s
        # members with the object behind an optional result slot
        sret = ins.a[0] == "void" and last in ("position", "set", "set_empty", "begin", "end", "cbegin", "cend")
        out = args[0] if sret else None
        if sret:
            args = args[1:]
        cid = self.cid(st, args[0])
        ep, size, g = m.cont[cid]
        args = args[1:]
        if last == "size":
            return size
        if last == "empty":
            return ONE if I.decide(st, "eq", size, Z) else Z
        if last == "clear":
            m.cont[cid] = (fresh("ep"), Z, ("none",))
            return None
        if last in ("begin", "cbegin"):
            m.its[(out[1], out[2][0])] = self.new_it(st, cid, Z, True)
            return None
        if last in ("end", "cend"):
            m.its[(out[1], out[2][0])] = self.new_it(st, cid, size, True)
            return None
        hinted = bool(args) and is_ptr(args[0])
        if hinted:
            self.hint(st, args[0], cid)
            args = args[1:]
        P = pn(st, I.as_lin(st, args[0]))
        if last in ("position", "get", "get_type", "set", "set_empty"):
            if not I.decide_ge0(st, P) or not I.decide_ge0(st, sub(sub(size, P), ONE)):
                self.spec.outside(self, st, cid, P)
                raise Stop("throw", "")
        if last == "position":
            self.put_pair(st, out, self.new_it(st, cid, P))
            m.log = m.log + (("position", cid, P),)
            return None
        if last == "get_type":
            t = self.elem_type(st, cid, P)
            self.spec.typed(self, st, cid, P, t)
            m.log = m.log + (("get_type", cid, P),)
            return const(t)
        if last == "get":
            k = kind_of(dem)
            if k is None:
                raise Stop("unknown", "type of the value read")
            self.spec.read(self, st, cid, P, k)
            e = (cid, ep, P, k)
            dst = args[1] if len(args) > 1 else out       # get(pos, value) or value = get(pos)
            m.log = m.log + (("get", cid, P, k),)
            if k == 11:
                if dst is None:
                    raise Stop("unknown", "string read by reference")
                m.strs[(dst[1], dst[2][0])] = e
                return None
            s = "el:%s:%d:%r" % (cid, k, P)
            m.elems[s] = e
            if len(args) == 1:
                return S(s)
            I.raw_store(st, dst[1], dst[2][0], S(s))
            return None
        if last in ("set", "set_empty"):
            if last == "set_empty":
                P2 = pn(st, I.as_lin(st, args[1]))
                if not I.decide_ge0(st, sub(P2, P)) or not I.decide_ge0(st, sub(sub(size, P2), ONE)):
                    self.spec.outside(self, st, cid, P2)
                    raise Stop("throw", "")
                n = pn(st, add(sub(P2, P), ONE))
                what = ("empty",)
            elif len(args) == 2:
                n = ONE
                what = self.value_at(st, args[1], kind_of(dem))
                if what[0] == "arg":
                    what = ("arg", what[1], kind_of(dem))
                elif what[0] == "elem" and kind_of(dem) != what[3]:
                    what = ("?", "a %s value stored as %s" % (TNAME[what[3]], TNAME.get(kind_of(dem))))
            else:
                r1, i1 = self.itpos(st, args[1])
                r2, i2 = self.itpos(st, args[2])
                if r1 != r2:
                    raise Stop("bug", "the range of values is not one sequence")
                n = pn(st, sub(i2, i1))
                what = ("seq", r1, i1)
                if r1[0] == "bd" and m.cont[r1[1][1]][0] != r1[1][2]:
                    raise Stop("bug", "values are read after their store was modified")
            m.log = m.log + (("set", cid, P, n, what),)
            g2 = self.spec.write(self, st, cid, P, n, what, g)
            self.modified(st, cid, g2)
            for kk in [q for q in m.typ if q[0] == cid]:
                m.typ.pop(kk)
            m.its[(out[1], out[2][0])] = self.new_it(st, cid, P)
            return None
        raise Stop("unknown", "store member " + last)

    def elem_type(self, st, cid, P):
        k = (cid, st.m.cont[cid][0], P)
        t = st.m.typ.get(k)
        if t is None:
            t = known_type(st, cid, P)
        if t is None:
            def setter(t):
                def g(s):
                    s.m.typ[k] = t
                    return True
                return g
            raise Fork([setter(t) for t in TYPES])
        return t

    def intrinsic(self, st, ins, name, args):
        if name.startswith("llvm.is.constant"):
            return Z
        if name.startswith(("llvm.memset", "llvm.lifetime", "llvm.experimental", "llvm.dbg", "llvm.assume")):
            return None
        if name.startswith("llvm.memcpy") or name.startswith("llvm.memmove"):
            d, s, n = args[0], args[1], args[2]
            if is_ptr(d) and is_ptr(s) and not d[2][1] and not s[2][1] and not n[1]:
                base = d[2][0] - s[2][0]
                for o in range(s[2][0], s[2][0] + n[0], 8):
                    v = st.mem.get(s[1], {}).get(o)
                    if v is None:
                        v = ("Z", s[1], o) if s[1][0] != "a" else None
                    if v is None:
                        continue
                    if v[0] == "Z":
                        v = self.initial(st, s[1], o, "i64")
                        self.I.raw_store(st, s[1], o, v)
                    self.I.raw_store(st, d[1], o + base, v)
                for (r, o), v in list(st.m.its.items()):
                    if r == s[1] and s[2][0] <= o < s[2][0] + n[0]:
                        st.m.its[(d[1], o + base)] = v
                return None
            raise Stop("unknown", name)
        m = re.match(r"llvm\.([su])(min|max)", name)
        if m:
            g = self.I.decide_ge0(st, sub(args[0], args[1]))
            return args[0] if g == (m.group(2) == "max") else args[1]
        raise Stop("unknown", name)

    # -- loops
    def generalise(self, st, snap, head, new, it):
        if self.superseded(st):
            return []
        self.drop_locals(st, head)
        flag = st.loops[-1][3]
        if flag and flag[0] == "inv":
            entry, key, cands = flag[1:4]
            if self.covered(st, snap, head, new, flag):
                return []
            if it > 40:
                raise Stop("unknown", "loop invariant not found")
            if self.discrete(st) != self.discrete(snap):
                old = self.dropped[key]
                entry, key = self.as_entry(st, new, snap), fresh("loop")
                self.dropped[key] = {"cand": set(), "places": dict(old["places"]), "n": old["n"], "mod": set(old["mod"])}
                return self.note(self.split_entry(st, entry, head, new, key), head)
        else:
            if id(snap) in self.begun:
                return []           # the general state of this loop covers its first round too
            self.begun[id(snap)] = snap
            entry, key = snap, None
        s, n = (st, new) if key is not None else (entry, {i.id: entry.env.get(i.id) for i in self.I.phis[head]})
        for g in self.table.get((head, self.discrete(s)), ()):
            if self.instance(s, head, n, g):
                return []
        return self.note(self.summarise(st, entry, head, new, key), head)

    def superseded(self, st):
        """a weaker general state of one of the loops is being explored: it includes this one"""
        return any(l[3] and l[3][0] == "inv" and l[3][5] != self.dropped[l[3][2]].get("gen", 0) for l in st.loops)

    def loop_exit(self, st, loop):
        if self.superseded(st):
            raise Stop("dead", "")

    def note(self, out, head):
        for g, fl in out:
            self.table.setdefault((head, self.discrete(g)), []).insert(0, (g.copy(), fl, dict(self.dropped[fl[2]]["places"])))
        return out

    def instance(self, st, head, new, gen):
        """is this state one of those a general state, reached on another path, stands for?"""
        g, fl, places = gen
        e, key, cands = fl[1:4]
        live = self.live()[head]
        env = dict(st.env)
        env.update(new)
        for i in live:
            if ("e", i) in places:
                continue
            a, b = e.env.get(i), env.get(i)
            if a is None or b is None:
                if a is not b:
                    return False
                continue
            if a != b and self.I.norm(st, a) != self.I.norm(st, b):
                return False
        sig = {}

        def bind(gv, v):
            """value v of the state for the general value gv"""
            if gv is None:
                return True
            if v is None:
                return False
            gv, v = self.I.norm(g, gv), self.I.norm(st, v)
            if is_ptr(gv):
                if gv[1][0] == "sym":
                    return is_ptr(v) or v == PNULL
                if not is_ptr(v) or v[1] != gv[1]:
                    return False
                gv, v = gv[2], v[2]
            if not is_lin(gv):
                return gv == v
            if not is_lin(v):
                return len(gv[1]) == 1 and gv[1][0][0].startswith("any#") and gv[1][0][0] not in used
            pairs.append((gv, v))
            return True

        used = set()
        for a in g.dom.constraints():
            used.update(f for s, _ in a[1][1] for f in factors(s))
        pairs = []
        ch = self.cells(st, g, new, head)
        for pl in ch:
            if pl not in places and not (pl[0] == "i" and pl[2:] == (2,)):
                return False
        for pl, tag in places.items():
            if pl[0] == "i" and len(pl) == 2:
                continue
            if pl[0] == "i" and pl[2] == 2:
                if tag == "cur":
                    k = st.m.its.get(pl[1])
                    if k is not None and k[0] == "IT" and st.m.cont[k[1]][0] != k[2]:
                        return False
                continue
            if pl[0] == "i" and pl[2] == 6:
                continue
            v = new.get(pl[1], st.env.get(pl[1])) if pl[0] == "e" else self.get(st, pl)
            if pl[0] == "e" and pl[1] not in live and pl[1] not in new:
                continue
            if not bind(self.get(g, pl), v):
                return False
        for _ in range(3):
            for gv, v in pairs:
                if len(gv[1]) == 1 and gv[1][0][1] in (1, -1) and "#" in gv[1][0][0] and gv[1][0][0] not in sig and not gv[1][0][0].startswith("*("):
                    x = sub(v, const(gv[0]))
                    sig[gv[1][0][0]] = x if gv[1][0][1] == 1 else neg(x)
                elif any(s not in sig and "#" in s and c in (1, -1) and not s.startswith("*(") for s, c in gv[1]):
                    open_ = [(s, c) for s, c in gv[1] if s not in sig and "#" in s]
                    if len(open_) == 1 and open_[0][1] in (1, -1) and not open_[0][0].startswith("*("):
                        s, c = open_[0]
                        rest = sub(gv, lin.scale(S(s), c))
                        x = sub(v, self.subst(st, rest, sig))
                        sig[s] = x if c == 1 else neg(x)
        for gv, v in pairs:
            if pn(st, sub(self.subst(st, gv, sig), v)) != Z:
                return False
        for k, i in g.m.its.items():
            if i[0] == "IT" and k not in st.m.its:
                return False
        for k, v in g.m.strs.items():
            if st.m.strs.get(k) != v:
                return False
        for k, a in g.dom.constraints():
            if not st.dom.holds((k, pn(st, self.subst(st, a, sig)))):
                return False
        return True

    def subst(self, st, p, sig):
        if not any(f in sig for s, _ in p[1] for f in factors(s)):
            return p
        r = const(p[0])
        for s, c in p[1]:
            m = const(c)
            for f in factors(s):
                m = pmul(m, sig.get(f, S(f)))
            r = add(r, m)
        return pn(st, r)

    def live(self):
        if not hasattr(self, "_live"):
            f = self.func
            use, dfn = {}, {}
            for b in f.blocks:
                u, d = set(), set()
                for i in b.ins:
                    if i.op != "phi":
                        for o in operands(i):
                            if o.__class__ is int and o not in d:
                                u.add(o)
                            elif o.__class__ is list:
                                u.update(x for x in flatten(o) if x not in d)
                    d.add(i.id)
                use[b.id], dfn[b.id] = u, d
            lv = {b.id: set() for b in f.blocks}
            ch = True
            while ch:
                ch = False
                for b in reversed(f.blocks):
                    o = set()
                    for s in b.succ:
                        o |= lv[s] - {i.id for i in f.blocks[s].ins if i.op == "phi"}
                        for i in f.blocks[s].ins:
                            if i.op == "phi":
                                for v, p in i.a[1]:
                                    if p == b.id and v.__class__ is int:
                                        o.add(v)
                    n = use[b.id] | (o - dfn[b.id])
                    if n != lv[b.id]:
                        lv[b.id] = n
                        ch = True
            # values, not arguments or addresses of locals
            self._live = {b: {i for i in s if i in f.defs and f.defs[i].op not in ("alloca", "phi") or i in f.defs and f.defs[i].op == "phi"} for b, s in lv.items()}
        return self._live

    def drop_locals(self, g, head):
        """objects that live only within one round of the loop"""
        if not hasattr(self, "_loc"):
            self._loc = {}
        if head not in self._loc:
            body = self.I.loops[head]
            uses = {}
            for b in self.func.blocks:
                for i in b.ins:
                    for o in flatten(operands(i)):
                        d = self.func.defs.get(o)
                        if d is not None and d.op == "alloca":
                            uses.setdefault(o, set()).add(b.id)
            self._loc[head] = {("a", o) for o, bs in uses.items() if bs <= body}
        if self._loc[head]:
            g.mem = {r_: c_ for r_, c_ in g.mem.items() if r_ not in self._loc[head]}
        for d in (g.m.its, g.m.strs):
            for k in [k for k in d if k[0] in self._loc[head]]:
                del d[k]

    def project(self, g, head):
        """forget what concerns values nobody can refer to any more"""
        keep = set()

        def see(v):
            if v.__class__ is tuple:
                if len(v) == 2 and v[0].__class__ is int and v[1].__class__ is tuple:
                    for s, _ in v[1]:
                        keep.update(factors(s))
                        keep.add(s)
                else:
                    for x in v:
                        see(x)
            elif v.__class__ is str and "#" in v:
                keep.add(v)
        live = self.live()[head] | {i.id for i in self.I.phis[head]}
        for i in live:
            see(g.env.get(i))
        sts = [g] + [x for l in g.loops[:-1] for x in ([l[2]] + ([l[3][1]] if l[3] else []))]
        for s in sts:
            for c in s.mem.values():
                for v in c.values():
                    see(v)
            for v in s.m.its.values():
                see(v)
            for v in s.m.cont.values():
                see(v)
            if s is not g:
                for v in s.env.values():
                    see(v)
        syms = set()
        for k, a in g.dom.constraints():
            syms.update(s for s, _ in a[1])
        for s in sorted(syms):
            if "#" in s and s not in keep:
                g.dom.forget(s)

    def as_entry(self, st, new, snap):
        e = st.copy()
        e.env.update(new)
        e.loops = list(snap.loops)
        return e

    def discrete(self, st):
        """what is tracked without generalisation"""
        return (tuple(sorted((k, v[2]) for k, v in st.m.cont.items())), st.m.last, tuple(sorted(st.m.obj.items(), key=repr)))

    def cells(self, st, snap, new, head):
        """values that differ between two visits of the loop head: {place: (old, new)}"""
        out = {}
        for i in self.I.phis[head]:
            o, v = snap.env.get(i.id), new.get(i.id, st.env.get(i.id))
            o, v = self.I.norm(st, o), self.I.norm(st, v)
            if o != v:
                out[("e", i.id)] = (o, v)
        for reg in set(st.mem) | set(snap.mem):
            a, b = snap.mem.get(reg, {}), st.mem.get(reg, {})
            for off in set(a) | set(b):
                if off in a and off in b:
                    x, y = self.I.norm(st, a[off]), self.I.norm(st, b[off])
                    if x != y:
                        out[("m", reg, off)] = (x, y)
                else:
                    out[("m", reg, off)] = (None, None)
        for k in set(st.m.its) | set(snap.m.its):
            a, b = snap.m.its.get(k), st.m.its.get(k)
            if a == b:
                continue
            if a is None or b is None or a[0] != b[0] or a[0] == "NULL" or a[1] != b[1]:
                out[("i", k)] = (None, None)
                continue
            for n in (3, 4, 5):
                x, y = pn(st, a[n]), pn(st, b[n])
                if x != y:
                    out[("i", k, n)] = (x, y)
            if a[6] != b[6]:
                out[("i", k, 6)] = (None, None)
            if a[2] != b[2]:
                ca, cb = snap.m.cont[a[1]][0] == a[2], st.m.cont[b[1]][0] == b[2]
                out[("i", k, 2)] = ("cur" if ca and cb else None, None)
        return out

    def delta(self, st, o, v):
        if is_ptr(o) and is_ptr(v) and o[1] == v[1]:
            return pn(st, sub(v[2], o[2]))
        if is_lin(o) and is_lin(v):
            return pn(st, sub(v, o))
        return None

    def summarise(self, st, entry, head, new, key):
        """general state of the loop head, reached from `entry` by any number of rounds like this one"""
        if key is None:
            return self.split_entry(st, entry, head, new, key)
        return self.summarise1(st, entry, head, new, key)

    def split_entry(self, st, entry, head, new, key):
        es = [entry]
        for t in self.partition(st, entry, head, new):
            es = [x for e in es for x in three(e, t)]
        out = []
        for k, e in enumerate(es):
            k2 = key
            if key is not None and k:
                k2 = fresh("loop")
                old = self.dropped[key]
                self.dropped[k2] = {"cand": set(), "places": dict(old["places"]), "n": old["n"], "mod": set(old["mod"])}
            out += self.summarise1(st, e, head, new, k2)
        return out

    def partition(self, st, entry, head, new):
        """differences between the counters of enclosing loops and the followed element"""
        out = []
        for l in st.loops[:-1]:
            f = l[3]
            if not f or f[0] != "inv":
                continue
            for pl, tag in sorted(self.dropped[f[2]]["places"].items(), key=repr):
                if tag.__class__ is not tuple or tag[0] not in ("t", "u") or pl[0] == "i":
                    continue
                if pl[0] == "e" and pl[1] in new:
                    continue
                q = self.quantity(entry, entry.env, pl, None)
                if q is None or not q[1]:
                    continue
                for n in self.spec.skolem:
                    t = pn(entry, sub(q, S(n)))
                    d = entry.dom
                    if not t[1] or t in out or d.ge0(sub(t, ONE)) or d.ge0(sub(neg(t), ONE)):
                        continue
                    if t[1] and len(t[1]) == 2 and abs(t[0]) <= 1:
                        out.append(t)
        return out

    def summarise1(self, st, entry, head, new, key):
        first = key is None
        if first:
            key = fresh("loop")
            self.dropped[key] = {"cand": set(), "places": {}, "n": 0, "mod": set()}
        info = self.dropped[key]
        ch = self.cells(st, entry, new, head)
        # places that changed on any round seen so far; equal changes share one unknown
        seen = {}
        for pl, (o, v) in sorted(ch.items(), key=repr):
            if pl[0] == "i" and pl[-1] == 2 and len(pl) == 3:
                if info["places"].get(pl) != "stale":
                    info["places"][pl] = "cur" if o == "cur" else "stale"
                continue
            if pl in info["places"]:
                continue
            d = self.delta(st, o, v) if o is not None and v is not None else None
            if d is None:
                info["places"][pl] = ("free",)
            elif first and self.steady(st, entry, d):
                info["places"][pl] = ("t", d)
            else:
                sg = 1
                if neg(d) in seen:
                    d, sg = neg(d), -1
                if d not in seen:
                    info["n"] += 1
                    seen[d] = info["n"]
                info["places"][pl] = ("u", seen[d], sg)
        g = entry.copy()
        g.loops = list(st.loops)
        t = fresh("round")
        g.dom.set_lb(t, 0)
        us = {}
        m = g.m
        for pl, tag in info["places"].items():
            if pl[0] == "i" and len(pl) == 2:
                m.its.pop(pl[1], None)
                continue
            if pl[0] == "i" and pl[2] == 6:
                if pl[1] in m.its:
                    m.its[pl[1]] = m.its[pl[1]][:6] + (None,)
                continue
            if tag == "cur" or tag == "stale":
                continue
            o = self.get(entry, pl)
            if o is None:
                if pl[0] == "m":
                    v = self.get(st, pl)
                    self.put(g, pl, ("P", ("sym", fresh("p")), Z) if v is not None and is_ptr(v) else S(fresh("any")))
                else:
                    self.put(g, pl, None)
                continue
            if tag[0] == "t":
                step = pmul(S(t), pn(g, tag[1]))
            elif tag[0] == "u":
                # the first place of a class holds an unknown, the others keep their distance to it
                if tag[1] not in us:
                    x = o[2] if is_ptr(o) else o
                    us[tag[1]] = sub(S(fresh("sum")), lin.scale(x, tag[2])) if is_lin(x) else S(fresh("sum"))
                step = lin.scale(us[tag[1]], tag[2])
            else:
                step = None
            if step is None:
                if is_ptr(o):
                    nv = ("P", o[1], S(fresh("any"))) if self.ptr_ok(pl, st, new, o) else ("P", ("sym", fresh("p")), Z)
                else:
                    nv = S(fresh("any"))
            elif is_ptr(o):
                nv = ("P", o[1], add(o[2], step))
            else:
                nv = add(o, step)
            self.put(g, pl, nv)
        # epochs: contents modified in the loop
        for c, (ep, size, gh) in st.m.cont.items():
            if c in entry.m.cont and entry.m.cont[c][0] != ep or c in info["mod"]:
                info["mod"].add(c)
        for c in info["mod"]:
            if c in m.cont:
                ne = fresh("ep")
                oe = m.cont[c][0]
                m.cont[c] = (ne,) + m.cont[c][1:]
                for k, i in list(m.its.items()):
                    if i[0] == "IT" and i[1] == c and i[2] == oe and info["places"].get(("i", k, 2)) == "cur":
                        m.its[k] = i[:2] + (ne,) + i[3:]
        for k, i in m.its.items():
            if i[0] == "IT":
                g.dom.add_ge0(i[4])
                g.dom.add_ge0(sub(i[5], ONE))
        m.log = entry.m.log
        for k, v in list(m.strs.items()):
            if st.m.strs.get(k) != v:
                del m.strs[k]
        m.typ = {}
        g.m.cont = {c: v for c, v in m.cont.items() if c in st.m.cont}
        self.drop_locals(g, head)
        # bounds that hold on entry
        if g.dom.bad:
            return []
        cands = []
        for c in self.candidates(g, info, entry):
            if c in info["cand"]:
                continue
            e0 = self.bound(entry, entry.env, c)
            if e0 is not None and entry.dom.ge0(e0):
                cands.append(c)
        keep = []
        for c in cands:
            x = self.bound(g, g.env, c)
            if not g.dom.ge0(x):
                keep.append(c)
                g.dom.add_ge0(x)
        cands = keep
        if g.dom.bad:
            return []
        self.project(g, head)
        info["gen"] = info.get("gen", 0) + 1
        return [(g, ("inv", entry, key, cands, (t, us), info["gen"]))]

    def steady(self, st, entry, d):
        """is the step expressed by values fixed before the loop?"""
        return all(f.startswith(("m:", "len:", "arg:", "size:", "val:")) for s, _ in d[1] for f in factors(s))

    def ptr_ok(self, pl, st, new, o):
        v = new.get(pl[1]) if pl[0] == "e" else st.mem.get(pl[1], {}).get(pl[2])
        return v is not None and is_ptr(v) and v[1] == o[1]

    def get(self, st, pl):
        if pl[0] == "e":
            return st.env.get(pl[1])
        if pl[0] == "m":
            return st.mem.get(pl[1], {}).get(pl[2])
        i = st.m.its.get(pl[1])
        return i[pl[2]] if i is not None and i[0] == "IT" else None

    def put(self, st, pl, v):
        if pl[0] == "e":
            if v is None:
                st.env.pop(pl[1], None)
            else:
                st.env[pl[1]] = v
        elif pl[0] == "m":
            d = dict(st.mem.get(pl[1], {}))
            if v is None:
                d.pop(pl[2], None)
            else:
                d[pl[2]] = v
            st.mem[pl[1]] = d
        else:
            if pl[1] not in st.m.its:
                return
            i = list(st.m.its[pl[1]])
            i[pl[2]] = v
            st.m.its[pl[1]] = tuple(i)

    def quantity(self, st, env, pl, part):
        """the value of a place, or its row or column in a store with `part` rows"""
        v = env.get(pl[1]) if pl[0] == "e" else self.get(st, pl)
        if v is None:
            return None
        v = self.I.norm(st, v)
        if is_ptr(v):
            v = v[2]
        if not is_lin(v):
            return None
        v = pn(st, v)
        if part is not None:
            v = split(v, part[1])[part[0]]
        return None if mono(v) else v

    def bound(self, st, env, c):
        pl, part, n, sg, d = c
        q = self.quantity(st, env, pl, part)
        if q is None:
            return None
        x = pn(st, add(lin.scale(sub(q, self.ref(st, n)), sg), const(d)))
        return None if mono(x) else x

    def ref(self, st, n):
        return Z if n == 0 else S(n)

    def candidates(self, g, info, entry):
        """linear bounds between what changes and what does not"""
        out = []
        for pl, tag in sorted(info["places"].items(), key=repr):
            if tag in ("cur", "stale") or (pl[0] == "i" and (len(pl) == 2 or pl[2] == 6)):
                continue
            parts = [None]
            v = self.get(g, pl)
            if v is not None and is_lin(v) and mono(pn(g, v)):
                parts = [(k, R) for R in self.I.geo(g, pn(g, v)) for k in (0, 1)]
            for part in parts:
                q = self.quantity(g, g.env, pl, part)
                if q is None or not q[1]:
                    continue
                for n in [0] + self.spec.refs:
                    for sg in (1, -1):
                        for d in (-1, 0, 1):
                            out.append((pl, part, n, sg, d))
        return out

    def covered(self, st, snap, head, new, flag):
        """does this round end in an instance of the general state `snap`?"""
        entry, key, cands = flag[1:4]
        info = self.dropped[key]
        if self.discrete(st) != self.discrete(snap):
            return False
        ok = True
        shift = {}
        ch = self.cells(st, snap, new, head)
        for pl, (o, v) in ch.items():
            tag = info["places"].get(pl)
            if tag is None or tag == ("free",):
                if tag is None:
                    ok = False
                continue
            if pl[0] == "i" and len(pl) == 2:
                continue
            if pl[0] == "i" and pl[2] == 2:
                if tag == "cur" and o != "cur":
                    ok = False
                continue
            if pl[0] == "i" and pl[2] == 6:
                continue
            if o is None or v is None:
                continue
            d = self.delta(st, o, v)
            if d is None:
                ok = False
                info["places"][pl] = ("free",)
            elif tag[0] == "t":
                if pn(st, sub(d, tag[1])) != Z:
                    ok = False
            elif tag[0] == "u":
                d = lin.scale(d, tag[2])
                if tag[1] in shift and pn(st, sub(shift[tag[1]], d)) != Z:
                    info["places"][pl] = ("free",)
                    ok = False
                shift.setdefault(tag[1], d)
        # places of a class that did not change this time
        for pl, tag in list(info["places"].items()):
            if tag.__class__ is tuple and tag[0] in ("t", "u") and pl not in ch and self.get(snap, pl) is not None:
                if tag[0] == "t":
                    info["places"][pl] = ("free",)
                    ok = False
                elif tag[1] in shift and pn(st, shift[tag[1]]) != Z:
                    info["places"][pl] = ("free",)
                    ok = False
        for k in list(info["places"]):
            if k[0] == "i" and len(k) == 3 and info["places"][k] == "cur":
                i = st.m.its.get(k[1])
                if i is not None and i[0] == "IT" and st.m.cont[i[1]][0] != i[2]:
                    info["places"][k] = "stale"
                    ok = False
        env2 = dict(st.env)
        env2.update(new)
        for c in cands:
            x = self.bound(st, env2, c)
            if x is None or not st.dom.ge0(x):
                info["cand"].add(c)
                ok = False
        return ok

    def at_exit(self, interp, o):
        self.paths += 1
        if o.kind == "unreachable":
            return
        where = self.mod.chain_str(o.ins.loc) if o.ins is not None else "?"
        if o.kind == "unknown":
            k = (o.why, where.split(" <- ")[0])
            self.unk[k] = self.unk.get(k, 0) + 1
        elif o.kind == "bug":
            self.stats["bug"] = self.stats.get("bug", 0) + 1
            self.viol.append(("content", o.why, where, self.path(o.st)))
        else:
            self.stats[o.kind] = self.stats.get(o.kind, 0) + 1
            for msg in self.spec.exit(self, o.st, o.kind, o.val) or ():
                self.viol.append(("content", msg, where if o.kind == "throw" else self.func.where, self.path(o.st)))

    def path(self, st):
        out = []
        for i, t in st.trail[-24:]:
            s = self.mod.loc_str(i.loc)
            if s.startswith("include/mdds"):
                out.append("%s%s" % (s.split("/")[-1], "+" if t else "-"))
        return out

    def forget(self):
        self.viol, self.unk, self.stats = [], {}, {}


# ---- what the operations have to do -------------------------------------------------------------
R, C, R2, C2 = S("val:R"), S("val:C"), S("val:R2"), S("val:C2")
AR, AC, r, c = S("val:ar"), S("val:ac"), S("val:r"), S("val:c")


def bad_src(st, what):
    if what[0] == "?":
        return "something other than the expected value is stored (%s)" % what[1]
    return "another value than the expected one is stored"


class Spec:
    """the operation is followed for the element at position q of the store it changes"""
    varg = 99
    refs = []
    q = None
    ret = None             # function that checks the returned value
    throws = ()            # conditions (functions) under which an exception is right
    final = None           # (rows, columns) of the matrix afterwards
    touched = None         # does the operation concern the followed element?
    want = None            # value that is expected there
    this = 0               # argument that designates the matrix
    const = False
    skolem = ()            # coordinates of the followed element
    splits = ()            # differences whose sign is fixed from the start

    def __init__(self, **k):
        for n, v in k.items():
            setattr(self, n, v)

    def outside(self, m, st, cid, P):
        if not self.allowed(m, st):
            raise Stop("bug", "an element outside the matrix is addressed")

    def allowed(self, m, st):
        return any(f(m, st) for f in self.throws)

    def read(self, m, st, cid, P, kind):
        t = known_type(st, cid, P)
        if t is not None and t != kind:
            raise Stop("bug", "an element of type %s is read as %s" % (TNAME[t], TNAME[kind]))

    def typed(self, m, st, cid, P, t):
        pass

    def typed_block(self, m, st, cid, base, size, t):
        pass

    def visit(self, m, st, args):
        raise Stop("unknown", "a function object is called")

    def inside(self, m, st, P, n):
        """is the followed element among the n elements from P on?"""
        d = pn(st, sub(self.q, P))
        return m.I.decide_ge0(st, d) and m.I.decide_ge0(st, sub(sub(n, d), ONE))

    def item(self, m, st, P, n, what):
        """value written to the followed element"""
        if what[0] == "seq":
            _, reg, i = what
            if reg[0] == "bd" and not (m.I.decide_ge0(st, i) and m.I.decide_ge0(st, sub(sub(reg[1][5], i), n))):
                raise Stop("bug", "values are read past the end of their block")
            k = pn(st, add(i, sub(self.q, P)))
            if reg[0] == "bd":
                b = reg[1]
                return ("elem", b[1], pn(st, add(b[3], k)), b[4])
            return ("item", reg, k)
        if what[0] == "elem":
            return ("elem", what[1], pn(st, what[2]), what[3])
        return what

    def write(self, m, st, cid, P, n, what, ghost):
        if self.const:
            raise Stop("bug", "the matrix is modified")
        if not self.followed(st, cid):
            return None
        if not self.inside(m, st, P, n):
            return None
        v = self.item(m, st, P, n, what)
        ok = self.good(m, st, v)
        if ok is True:
            return ("right",)
        return ("wrong", ok or bad_src(st, v))

    def followed(self, st, cid):
        return True

    def good(self, m, st, v):
        if self.touched is not None and not self.touched(m, st):
            return "an element the operation does not concern is changed"
        w = self.want(m, st) if callable(self.want) else self.want
        if v == w:
            return True
        if v and w and v[0] == w[0] == "elem" and v[1] == w[1] and v[3:] == w[3:] and m.I.decide(st, "eq", v[2], w[2]):
            return True
        if v and w and v[0] == w[0] == "item" and v[1] == w[1] and m.I.decide(st, "eq", v[2], w[2]):
            return True
        return None

    def done(self, m, st):
        """ghost of the followed element once the operation has returned"""
        k = (("arg", self.this), m.so)
        cid = st.m.obj.get(k)
        return cid, (st.m.cont[cid] if cid in st.m.cont else None)

    def untouched(self, m, st, cid, g):
        return g == ("orig",) and cid == "c0"

    def exit(self, m, st, kind, val):
        if kind == "throw":
            return [] if self.allowed(m, st) else ["a valid call fails with an exception"]
        out = []
        if any(f(m, st) for f in self.throws):
            out.append("an invalid call is not reported")
            return out
        if self.ret is not None:
            x = self.ret(m, st, val)
            if x:
                out.append(x)
        cid, cn = self.done(m, st)
        if cn is None:
            return out + ["the matrix has no content afterwards"]
        g = cn[2]
        if self.q is not None:
            hit = self.touched is None or self.touched(m, st)
            if g[0] == "wrong":
                out.append(g[1])
            elif hit and g != ("right",) and not self.missing_ok(m, st, cid, g):
                out.append("an element the operation concerns does not get its new value")
            elif not hit and not self.untouched(m, st, cid, g):
                out.append("an element the operation does not concern loses its value")
        if self.final is not None:
            out += self.geometry(m, st, ("arg", self.this), cn, *self.final)
        return out

    def missing_ok(self, m, st, cid, g):
        return False

    def geometry(self, m, st, reg, cn, rows, cols):
        I = m.I
        a, b = I.raw_load(st, reg, m.rowoff, "i64"), I.raw_load(st, reg, m.coloff, "i64")
        out = []
        for x, y, n in ((a, rows, "rows"), (b, cols, "columns")):
            if not (is_lin(x) and I.decide(st, "eq", pn(st, x), y)):
                out.append("the number of %s is wrong afterwards" % n)
        if not I.decide(st, "eq", pn(st, cn[1]), pn(st, pmul(pn(st, rows), pn(st, cols)))):
            out.append("the number of elements is not rows times columns")
        return out



# ---- set-up ---------------------------------------------------------------------------------------
def matrix(m, st, arg, rows, cols, mode="full", ghost=("orig",)):
    """a matrix with the given dimensions"""
    reg = ("arg", arg)
    if mode == "norows":
        rows = Z
    elif mode == "nocols":
        cols = Z
    elif mode == "default":
        rows = cols = Z
    for x in (rows, cols):
        for s, _ in x[1]:
            st.dom.set_lb(s, 1 if mode in ("full", "nocols", "norows") else 0)
    m.I.raw_store(st, reg, m.rowoff, rows)
    m.I.raw_store(st, reg, m.coloff, cols)
    cid = "c%d" % len(st.m.cont)
    st.m.obj[(reg, m.so)] = cid
    st.m.cont[cid] = ("ep-" + cid, pmul(rows, cols), ghost)
    return cid


def within(st, x, n):
    """0 <= x < n"""
    for s, _ in x[1]:
        st.dom.set_lb(s, 0)
    st.dom.add_ge0(sub(sub(n, x), ONE))


def flat(st, cid):
    """an arbitrary position of the store, as one number"""
    q = S("val:q")
    st.dom.set_lb("val:q", 0)
    st.dom.add_ge0(sub(sub(st.m.cont[cid][1], q), ONE))
    return q


def position(m, st, arg, cid, P=None):
    """a position that designates element P of the store"""
    if P is None:
        P = S("val:h")
        st.dom.set_lb("val:h", 0)
        st.dom.add_ge0(sub(sub(st.m.cont[cid][1], P), ONE))
    it = m.new_it(st, cid, P)
    st.m.its[(("arg", arg), 0)] = it
    m.I.raw_store(st, ("arg", arg), m.sec, it[4])
    return P


def numbers(m, st, f, first, names):
    for k, n in enumerate(names):
        st.env[first + k] = n


def seqarg(m, st, arg, first, last):
    """two references to iterators over the caller's values"""
    m.I.raw_store(st, ("arg", arg), 0, ("P", ("rng",), lin.scale(first, 8)))
    m.I.raw_store(st, ("arg", arg + 1), 0, ("P", ("rng",), lin.scale(last, 8)))


def run(mod, f, spec, setup, deadline=None, max_paths=30000, unroll=6, part=None):
    """interpret f from the specified start (or from part i of the n parts the specification splits it into)"""
    m = MtxModel(mod, f, spec)
    it = PI(f, m, max_paths=max_paths, max_unroll=unroll, max_steps=8000000)
    st = new_state(XM())
    for i in range(f.nargs):
        st.env[i] = ("P", ("arg", i), Z)
    setup(m, st)
    todo = [st]
    for t in spec.splits:
        todo = [x for s in todo for x in three(s, t)]
    m.nsteps = 0
    m.nparts = len(todo)
    if part is not None:
        todo = todo[part:part + 1]
    if part == -1:
        return m
    for s in todo:
        it.run(s, None, deadline)
        if it.exhausted:
            m.unk[("time limit", f.where)] = it.exhausted
    m.nsteps = it.steps
    return m


def three(st, t):
    """the state where t < 0, t == 0 and t > 0"""
    out = []
    for how in (lambda d: d.add_ge0(sub(neg(t), ONE)), lambda d: d.add_eq0(t), lambda d: d.add_ge0(sub(t, ONE))):
        s = st.copy()
        if how(s.dom) is not False and not s.dom.bad:
            out.append(s)
    return out


class Tasks:
    def __init__(self, mod, deadline=None, only=None):
        self.mod, self.deadline, self.only = mod, deadline, only
        self.res = []
        self.n = -1
        self.fn = {}
        for j in mod.raw:
            f = mod.func(j)
            s = f.sig().replace("mdds::multi_type_matrix::multi_type_matrix(", "mdds::multi_type_matrix::ctor(")
            self.fn.setdefault(s.replace("mdds::multi_type_matrix::", "").replace("[abi:cxx11]", "").replace("unsigned long", "n")
                               .replace("std::pair", "pos").replace("std::__cxx11::basic_string", "string"), f)

    def go(self, sig, label, spec, setup, **k):
        f = self.fn.get(sig)
        if f is None:
            c = [x for s, x in self.fn.items() if s.split("(")[0].split(" ")[-1] == sig]
            f = c[0] if len(c) == 1 else None
        if f is None:
            raise KeyError("multi_type_matrix::%s is missing" % sig)
        self.n += 1
        if self.only == "list":
            self.res.append((self.n, label, run(self.mod, f, spec, setup, part=-1).nparts))
            return
        if self.only is not None and self.only[0] != self.n:
            return
        m = run(self.mod, f, spec, setup, self.deadline, part=self.only and self.only[1], **k)
        self.res.append({"label": label, "where": f.where, "viol": m.viol, "unknown": m.unk, "stats": m.stats, "paths": m.paths, "steps": m.nsteps})


def at(m, st, out, cid, P):
    """the position stored at `out` designates element P"""
    it = st.m.its.get((out, 0))
    if it is None or it[0] != "IT":
        return "no position is returned"
    if it[1] != cid or st.m.cont[cid][0] != it[2]:
        return "the position returned does not belong to the matrix"
    sec = m.I.raw_load(st, out, m.sec, "i64")
    if not (is_lin(sec) and m.I.decide(st, "eq", pn(st, add(sub(it[3], it[4]), sec)), P)):
        return "the position returned designates another element"
    if not (m.I.decide_ge0(st, sec) and m.I.decide_ge0(st, sub(sub(add(it[4], it[5]), sec), ONE))) and not st.dom.eq0(sec):
        return "the position returned is outside its block"
    return None


def elem(st, m, val, kind, P, cid="c0"):
    while kind == 0 and val.__class__ is tuple and val[0] == "B" and val[1] == "ne" and val[3] == Z:
        val = val[2]
    if kind == 0 and (zero(val) or one(val)):          # decided by a test of the element
        for s, e in st.m.elems.items():
            if e[0] == cid and e[-1] == 0 and st.dom.eq0(sub(e[-2], P)):
                if st.dom.eq0(S(s)):
                    return None if zero(val) else "the value returned is not the element at this position"
                if st.dom.ne0(S(s)):
                    return None if one(val) else "the value returned is not the element at this position"
    v = m.desc(st, val, kind)
    if v[0] == "elem" and v[1] == cid and v[3] == kind and m.I.decide(st, "eq", v[2], P):
        return None
    return "the value returned is not the element at this position"


def numeric_ret(P, kinds, boolean=False):
    def g(m, st, val):
        t = known_type(st, "c0", P)
        if t is None:
            return "a value is returned without regard to the type of the element"
        if boolean and val.__class__ is tuple and val[0] == "B" and val[1] == "ne" and val[3] == Z:
            val = val[2]
        if t in (11, -1):
            return None if zero(val) else "something other than zero is returned for an element that is not a number"
        return elem(st, m, val, t, P)
    return g


def zero(v):
    return v == Z or (v.__class__ is tuple and v[0].__class__ is int and len(v[1]) == 1 and v[0] == 0
                      and re.match(r"flt:-?0(\.0+)?(e[+-]?0+)?$", v[1][0][0]) is not None)


def one(v):
    return v == ONE or (v.__class__ is tuple and v[0].__class__ is int and len(v[1]) == 1 and v[0] == 0
                        and re.match(r"flt:1(\.0*)?(e[+-]?0+)?$", v[1][0][0]) is not None)


def known_type(st, cid, P):
    """type of the element at P as far as it has been looked at"""
    seen = {}
    for (c_, ep, q), t in st.m.typ.items():
        if c_ == cid and st.dom.eq0(pn(st, sub(q, P))) and seen.setdefault(ep, t) != t:
            raise Stop("dead", "")         # one element has one type
    for t in seen.values():
        return t
    for it in st.m.its.values():
        if it[0] == "IT" and it[1] == cid and it[6] is not None:
            b = sub(it[3], it[4])
            if st.dom.ge0(pn(st, sub(P, b))) and st.dom.ge0(pn(st, sub(sub(add(b, add(it[4], it[5])), P), ONE))):
                return it[6]
    return None


def basic(T):
    pos0 = add(pmul(R, AC), AR)

    def rc(first, mat, pre=None, mode="full"):
        def g(m, st):
            matrix(m, st, mat, R, C, mode)
            within(st, AR, R), within(st, AC, C)
            numbers(m, st, None, first, [AR, AC])
            if pre:
                pre(m, st)
        return g

    def bypos(mat, arg, P=None, pre=None):
        def g(m, st):
            cid = matrix(m, st, mat, R, C)
            position(m, st, arg, cid, P)
            if pre:
                pre(m, st)
        return g

    H = S("val:h")
    for cn in ("", " const"):
        nm = "const " if cn else ""
        T.go("position(n, n)" + cn, nm + "position(row, column)",
             Spec(this=1, const=True, ret=lambda m, st, v: at(m, st, ("arg", 0), "c0", pos0)), rc(2, 1))
        T.go("position(pos const&, n, n)" + cn, nm + "position(hint, row, column)",
             Spec(this=1, const=True, ret=lambda m, st, v: at(m, st, ("arg", 0), "c0", pos0)),
             rc(3, 1, lambda m, st: position(m, st, 2, "c0")))

        def endpos(m, st, v):
            x = at(m, st, ("arg", 0), "c0", pmul(R, C))
            return x
        T.go("end_position()" + cn, nm + "end_position()", Spec(this=1, const=True, ret=endpos), lambda m, st: matrix(m, st, 1, R, C))
    T.go("matrix_position(pos const&) const", "matrix_position",
         Spec(const=True, ret=lambda m, st, v: None if v.__class__ is tuple and v[0] == "S" and [m.I.norm(st, x) for x in v[1]] == [AR, AC]
              else "row and column of the position are wrong"),
         lambda m, st: (matrix(m, st, 0, R, C), within(st, AR, R), within(st, AC, C), position(m, st, 1, "c0", pos0)))

    def typed(P):
        def g(m, st, v):
            t = known_type(st, "c0", P)
            v = m.I.norm(st, v)
            if t is None:
                return "a type is returned without regard to the element"
            return None if v == const(t) else "the type returned for %s elements is wrong" % TNAME[t]
        return g
    T.go("get_type(n, n) const", "get_type(row, column)", Spec(const=True, ret=typed(pos0)), rc(1, 0))
    T.go("get_type(pos const&) const", "get_type(position)", Spec(const=True, ret=typed(H)), bypos(0, 1))
    for nm in ("get_numeric", "get_integer", "get_boolean"):
        T.go(nm + "(n, n) const", nm + "(row, column)", Spec(const=True, ret=numeric_ret(pos0, None, nm == "get_boolean")), rc(1, 0))
        T.go(nm + "(pos const&) const", nm + "(position)", Spec(const=True, ret=numeric_ret(H, None, nm == "get_boolean")), bypos(0, 1))

    def string_ret(P):
        def g(m, st, v):
            if known_type(st, "c0", P) != 11:
                return "a string is returned for an element that is none"
            if is_ptr(v) and v[1][0] == "el":
                b = v[1][1]
                if b[1] == "c0" and b[4] == 11 and st.m.cont["c0"][0] == b[2] and m.I.decide(st, "eq", add(b[3], v[2]), P):
                    return None
            return "the string returned is not the element at this position"
        return g

    def notstring(P):
        return lambda m, st: known_type(st, "c0", P) not in (11, None)
    T.go("get_string(n, n) const", "get_string(row, column)", Spec(const=True, ret=string_ret(pos0), throws=[notstring(pos0)]), rc(1, 0))
    T.go("get_string(pos const&) const", "get_string(position)", Spec(const=True, ret=string_ret(H), throws=[notstring(H)]), bypos(0, 1))
    for nm, k in (("double", 10), ("bool", 0), ("int", 5)):
        T.go("drv::mtx_get_" + nm, "get<%s>(row, column)" % nm,
             Spec(const=True, ret=lambda m, st, v, k=k: elem(st, m, v, k, pos0)), rc(1, 0))
    # -- single elements are stored
    same = (lambda P: (lambda m, st: m.I.decide(st, "eq", pn(st, S("val:q")), pn(st, P))))

    def val(m, st, arg, k):
        if k != 11:
            st.env[arg] = S("val:v")
    dims = dict(final=(R, C))
    for nm, k in (("double", 10), ("bool", 0), ("int", 5), ("string const&", 11)):
        w = ("arg", "v", k)
        T.go("set(n, n, %s)" % nm, "set(row, column, %s)" % nm.split()[0],
             Spec(q=S("val:q"), varg=3, touched=same(pos0), want=w, **dims),
             rc(1, 0, lambda m, st, k=k: (flat(st, "c0"), val(m, st, 3, k))))
        T.go("set(pos const&, %s)" % nm, "set(position, %s)" % nm.split()[0],
             Spec(this=1, q=S("val:q"), varg=3, touched=same(H), want=w, ret=lambda m, st, v: at(m, st, ("arg", 0), "c0", H), **dims),
             bypos(1, 2, None, lambda m, st, k=k: (flat(st, "c0"), val(m, st, 3, k))))
    e = ("empty",)
    T.go("set_empty(n, n)", "set_empty(row, column)", Spec(q=S("val:q"), touched=same(pos0), want=e, **dims), rc(1, 0, lambda m, st: flat(st, "c0")))
    T.go("set_empty(pos const&)", "set_empty(position)",
         Spec(this=1, q=S("val:q"), touched=same(H), want=e, ret=lambda m, st, v: at(m, st, ("arg", 0), "c0", H), **dims),
         bypos(1, 2, None, lambda m, st: flat(st, "c0")))
    # -- several elements
    N = S("len:n")

    def span(P, n):
        def g(m, st):
            d = sub(S("val:q"), P)
            return m.I.decide_ge0(st, d) and m.I.decide_ge0(st, sub(sub(n, d), ONE))
        return g

    def items(P):
        return lambda m, st: ("item", ("rng",), pn(st, sub(S("val:q"), P)))

    def lenarg(lo, arg):
        def g(m, st):
            flat(st, "c0")
            st.dom.set_lb("len:n", lo)
            st.dom.add_ge0(sub(sub(st.m.cont["c0"][1], pos0), N))
            st.env[arg] = N
        return g
    T.go("set_empty(n, n, n)", "set_empty(row, column, length)",
         Spec(q=S("val:q"), touched=span(pos0, N), want=e, throws=[lambda m, st: st.dom.eq0(N)], **dims), rc(1, 0, lenarg(0, 3)))

    def rngarg(first, fit=None):
        def g(m, st):
            flat(st, "c0")
            st.dom.set_lb("len:n", 0)
            if fit is not None:
                st.dom.add_ge0(sub(sub(st.m.cont["c0"][1], fit), N))
            seqarg(m, st, first, Z, N)
        return g
    T.go("drv::mtx_set_range", "set(row, column, first, last)", Spec(q=S("val:q"), touched=span(pos0, N), want=items(pos0), **dims),
         rc(1, 0, rngarg(3, pos0)))
    T.go("drv::mtx_set_range_pos", "set(position, first, last)",
         Spec(this=1, q=S("val:q"), touched=span(H, N), want=items(H), ret=lambda m, st, v: at(m, st, ("arg", 0), "c0", H), **dims),
         bypos(1, 2, None, rngarg(3, H)))
    col0 = pmul(R, AC)

    def colspan(n):
        def g(m, st):
            d = sub(S("val:q"), col0)
            return m.I.decide_ge0(st, d) and m.I.decide_ge0(st, sub(sub(R, d), ONE)) and (n is None or m.I.decide_ge0(st, sub(sub(n, d), ONE)))
        return g

    def colarg(pre):
        def g(m, st):
            matrix(m, st, 0, R, C)
            within(st, AC, C)
            st.env[1] = AC
            flat(st, "c0")
            pre(m, st)
        return g
    T.go("drv::mtx_set_column", "set_column(column, first, last)", Spec(q=S("val:q"), touched=colspan(N), want=items(col0), **dims), colarg(rngarg(2)))
    T.go("set_column_empty(n)", "set_column_empty", Spec(q=S("val:q"), touched=colspan(None), want=e, **dims), colarg(lambda m, st: None))

    def rowarg(m, st):
        matrix(m, st, 0, R, C)
        within(st, AR, R), within(st, r, R), within(st, c, C)
        st.env[1] = AR
    T.go("set_row_empty(n)", "set_row_empty",
         Spec(q=add(pmul(R, c), r), refs=["val:R", "val:C", "val:ar", "val:r", "val:c"], splits=[sub(r, AR)], touched=lambda m, st: m.I.decide(st, "eq", r, AR), want=e, **dims), rowarg)



class Moved(Spec):
    """every element of the result comes from one place of another matrix, or is left as it was created"""
    src = "c0"
    fresh = None           # ghosts of elements that nothing is copied to
    skolem = ("val:r", "val:c")

    def followed(self, st, cid):
        if cid == self.src:
            raise Stop("unknown", "the matrix is changed in place")
        return True

    def typed(self, m, st, cid, P, t):
        if t == -1 and cid == self.src and self.touched_(m, st):
            if m.I.decide(st, "eq", P, self.want):
                st.m.last = ("empty",)

    def touched_(self, m, st):
        return self.touched is None or self.touched(m, st)

    def good(self, m, st, v):
        if not self.touched_(m, st):
            return "an element the operation does not concern is changed"
        if v == ("empty",):
            if known_type(st, self.src, self.want) == -1:
                return True
            return "an element becomes empty although its source is not known to be"
        if v[0] == "elem" and v[1] == self.src and m.I.decide(st, "eq", v[2], self.want):
            t = known_type(st, self.src, self.want)
            return True if t in (None, v[3]) else "a %s element is copied as %s" % (TNAME[t], TNAME[v[3]])
        return None

    def missing_ok(self, m, st, cid, g):
        return g == ("init", "empty") and st.m.last == ("empty",)

    def untouched(self, m, st, cid, g):
        return g == (self.fresh or ("orig",))


class Walk(Spec):
    """which elements are handed to the function object, and how often"""
    const = True
    two = False
    rows2 = None
    skolem = ("val:r", "val:c")

    def visit(self, m, st, args):
        got = []
        for a in args:
            if not is_ptr(a) or a[2][1]:
                raise Stop("unknown", "node of unknown content")
            v = [m.I.norm(st, m.I.raw_load(st, a[1], a[2][0] + m.nodeoff[n], "ptr" if n == "data" else "i64")) for n in ("type", "offset", "size", "data")]
            if not is_ptr(v[3]) or v[3][1][0] != "data":
                raise Stop("bug", "a node without its block is handed out")
            b = v[3][1]
            if v[0] != const(b[4]):
                raise Stop("bug", "the type of the node is not that of its elements")
            if not is_lin(v[1]) or not is_lin(v[2]):
                raise Stop("unknown", "node of unknown size")
            got.append((b, v[1], v[2]))
        for n, (b, o, k) in enumerate(got):
            if b[1] != "c%d" % n:
                raise Stop("bug", "the node belongs to another matrix")
            if not (m.I.decide_ge0(st, o) and m.I.decide_ge0(st, sub(k, ONE)) and m.I.decide_ge0(st, sub(sub(b[5], o), k))):
                raise Stop("bug", "the node does not lie within its block")
        b, o, k = got[0]
        P = pn(st, add(b[3], o))
        if self.two:
            b2, o2, k2 = got[1]
            P2 = pn(st, add(b2[3], o2))
            if not m.I.decide(st, "eq", pn(st, k), pn(st, k2)):
                raise Stop("bug", "the two nodes are of different size")
            if self.rows2 is None:
                ok = m.I.decide(st, "eq", P, P2)
            else:
                A, B = split(P, "val:R")
                A2, B2 = split(P2, "val:R2")
                ok = m.I.decide(st, "eq", A, A2) and m.I.decide(st, "eq", B, B2)
            if not ok:
                raise Stop("bug", "the two nodes do not start at the same element")
        if self.inside(m, st, P, k):
            st.m.last = ("visits", 1 + (st.m.last[1] if st.m.last else 0))

    def exit(self, m, st, kind, val):
        if kind == "throw":
            return [] if self.allowed(m, st) else ["a valid call fails with an exception"]
        if self.allowed(m, st):
            return ["an invalid call is not reported"]
        n = st.m.last[1] if st.m.last else 0
        want = 1 if self.touched is None or self.touched(m, st) else 0
        if n != want:
            return ["an element %s is visited %s" % ("in the range" if want else "outside the range", "%d times" % n if n != 1 else "once")]
        return []


class Numeric(Spec):
    const = True
    q = S("val:q")

    def typed_block(self, m, st, cid, base, size, t):
        if st.m.last is None and self.inside(m, st, base, size):
            st.m.last = ("seen", t)

    def typed(self, m, st, cid, P, t):
        if st.m.last is None and self.inside(m, st, P, ONE):
            st.m.last = ("seen", t)

    def exit(self, m, st, kind, val):
        if kind == "throw":
            return ["a valid call fails with an exception"]
        val = m.I.truth(st, val) if not is_lin(val) else m.I.decide(st, "ne", val, Z)
        if val:
            if st.dom.bad or m.I.decide(st, "eq", st.m.cont["c0"][1], Z):
                return ["an empty matrix is reported to be numeric"]
            if st.m.last is None:
                return ["an element is not looked at"]
            if st.m.last[1] in (11, -1):
                return ["a matrix with %s elements is reported to be numeric" % TNAME[st.m.last[1]]]
        elif not any(i[0] == "IT" and i[6] in (11, -1) for i in st.m.its.values()) and not any(t in (11, -1) for t in st.m.typ.values()):
            if not m.I.decide(st, "eq", st.m.cont["c0"][1], Z):
                return ["a matrix is reported not to be numeric without an element that is none"]
        return []


NAMES = ["val:R", "val:C", "val:ar", "val:ac", "val:r", "val:c"]


def whole(T):
    def sk(st, rows, cols):
        within(st, r, rows), within(st, c, cols)

    # transpose
    T.go("transpose()", "transpose", Moved(q=add(pmul(C, c), r), want=add(pmul(R, r), c), refs=NAMES[:2] + NAMES[4:], final=(C, R)),
         lambda m, st: (matrix(m, st, 0, R, C), sk(st, C, R)))
    for mode, d in (("norows", (C, Z)), ("nocols", (Z, R))):
        T.go("transpose()", "transpose of a matrix without %s" % mode[2:], Spec(refs=NAMES[:2], final=d), lambda m, st: matrix(m, st, 0, R, C, mode))
    # resize
    inside = lambda m, st: m.I.decide_ge0(st, sub(sub(R, r), ONE)) and m.I.decide_ge0(st, sub(sub(C, c), ONE))
    for nm, g, first in (("resize(n, n)", ("init", "empty"), 1), ("drv::mtx_resize_value", ("init", ("arg", "v", 10)), 1)):
        lab = "resize with a value" if "value" in nm else "resize"

        def args(st):
            numbers(None, st, None, first, [AR, AC])
            st.dom.set_lb("val:ar", 1), st.dom.set_lb("val:ac", 1)
        T.go(nm, lab, Moved(q=add(pmul(AR, c), r), want=add(pmul(R, c), r), refs=NAMES, final=(AR, AC), touched=inside, fresh=g, varg=3,
                            splits=[sub(r, R), sub(c, C)]),
             lambda m, st: (matrix(m, st, 0, R, C), args(st), sk(st, AR, AC)))
        for mode in ("norows", "nocols", "default"):
            T.go(nm, lab + " of an empty matrix (%s)" % mode, Moved(q=add(pmul(AR, c), r), want=Z, refs=NAMES, final=(AR, AC), touched=lambda m, st: False, fresh=g, varg=3),
                 lambda m, st: (matrix(m, st, 0, R, C, mode), args(st), sk(st, AR, AC)))
        for z in ([Z, AC], [AR, Z]):
            T.go(nm, lab + " to nothing", Spec(refs=NAMES, final=(Z, Z)),
                 lambda m, st: (matrix(m, st, 0, R, C), numbers(None, st, None, first, z), st.dom.set_lb("val:ar", 1), st.dom.set_lb("val:ac", 1)))
    # copy of another matrix
    inside2 = lambda m, st: m.I.decide_ge0(st, sub(sub(R2, r), ONE)) and m.I.decide_ge0(st, sub(sub(C2, c), ONE))
    N6 = ["val:R", "val:C", "val:R2", "val:C2", "val:r", "val:c"]
    T.go("copy(multi_type_matrix const&)" if "copy(multi_type_matrix const&)" in T.fn else "copy(mdds::multi_type_matrix const&)", "copy(matrix)",
         Moved(src="c1", q=add(pmul(R, c), r), want=add(pmul(R2, c), r), refs=N6, final=(R, C), touched=inside2, splits=[sub(r, R2), sub(c, C2)]),
         lambda m, st: (matrix(m, st, 0, R, C), matrix(m, st, 1, R2, C2, ghost=("src",)), sk(st, R, C)))
    for a, b in (("full", "norows"), ("full", "nocols"), ("full", "default")):
        T.go("copy(mdds::multi_type_matrix const&)", "copy(matrix), source without elements",
             Moved(src="c1", q=add(pmul(R, c), r), want=Z, refs=N6, final=(R, C), touched=lambda m, st: False),
             lambda m, st: (matrix(m, st, 0, R, C, a), matrix(m, st, 1, R2, C2, b, ghost=("src",)), sk(st, R, C)))
    for a in ("norows", "nocols", "default"):
        T.go("copy(mdds::multi_type_matrix const&)", "copy(matrix), nothing to copy to",
             Spec(refs=N6, final=(Z if a != "nocols" else R, Z if a != "norows" else C)),
             lambda m, st: (matrix(m, st, 0, R, C, a), matrix(m, st, 1, R2, C2, ghost=("src",))))

    def alias(m, st):
        matrix(m, st, 0, R, C)
        sk(st, R, C)
        st.env[1] = st.env[0]
    T.go("copy(mdds::multi_type_matrix const&)", "copy(matrix) from itself", Spec(q=add(pmul(R, c), r), refs=N6, final=(R, C), touched=lambda m, st: False), alias)
    # copy of a sequence
    NN = pmul(AR, AC)
    big = lambda m, st: not (m.I.decide_ge0(st, sub(R, AR)) and m.I.decide_ge0(st, sub(C, AC)))
    ins = lambda m, st: m.I.decide_ge0(st, sub(sub(AR, r), ONE)) and m.I.decide_ge0(st, sub(sub(AC, c), ONE))

    def cparg(n):
        def g(m, st):
            matrix(m, st, 0, R, C)
            sk(st, R, C)
            numbers(m, st, None, 1, [AR, AC])
            st.dom.set_lb("val:ar", 1), st.dom.set_lb("val:ac", 1)
            seqarg(m, st, 3, Z, n)
            for s_, _ in n[1]:
                st.dom.set_lb(s_, 1)
            if n != NN:
                st.dom.add_ne0(sub(n, NN))
        return g
    T.go("drv::mtx_copy_range", "copy(rows, columns, first, last)",
         Spec(q=add(pmul(R, c), r), refs=NAMES, final=(R, C), touched=ins, want=lambda m, st: ("item", ("rng",), add(pmul(AR, c), r)), throws=[big],
              splits=[sub(r, AR), sub(c, AC)], skolem=("val:r", "val:c")), cparg(NN))
    T.go("drv::mtx_copy_range", "copy(rows, columns, first, last) with too few or too many values",
         Spec(refs=NAMES, throws=[lambda m, st: True]), cparg(S("len:n")))

    def none(m, st):
        cparg(NN)(m, st)
        seqarg(m, st, 3, Z, Z)
    T.go("drv::mtx_copy_range", "copy(rows, columns, first, last) without values",
         Spec(q=add(pmul(R, c), r), refs=NAMES, final=(R, C), touched=lambda m, st: False), none)
    # numeric
    def num(m, st):
        matrix(m, st, 0, R, C)
        st.m.cont["c0"] = ("ep-c0", S("size:n"), ("orig",))
        st.dom.set_lb("size:n", 1)
        flat(st, "c0")
    T.go("numeric() const", "numeric", Numeric(refs=["size:n", "val:q"]), num)
    T.go("numeric() const", "numeric of an empty matrix", Numeric(refs=[]), lambda m, st: matrix(m, st, 0, R, C, "default"))
    # walks
    def walk1(m, st):
        num(m, st)
        for s_ in (st.env,):
            s_[1], s_[0] = ("P", ("arg", 0), Z), ("P", ("arg", 9), Z)
    T.go("drv::mtx_walk", "walk", Walk(q=S("val:q"), refs=["size:n", "val:q"]), walk1)

    def walk1e(m, st):
        matrix(m, st, 0, R, C, "default")
        st.env[1], st.env[0] = ("P", ("arg", 0), Z), ("P", ("arg", 9), Z)
    T.go("drv::mtx_walk", "walk of an empty matrix", Walk(q=Z, touched=lambda m, st: False), walk1e)
    SR, SC, ER, EC = S("val:sr"), S("val:sc"), S("val:er"), S("val:ec")

    def pairs(m, st, k):
        for a, (x, y) in ((k, (SR, SC)), (k + 1, (ER, EC))):
            m.I.raw_store(st, ("arg", a), m.pair[0], x)
            m.I.raw_store(st, ("arg", a), m.pair[1], y)
        for s_ in ("val:sr", "val:sc", "val:er", "val:ec"):
            st.dom.set_lb(s_, 0)
    order = lambda m, st: not (m.I.decide_ge0(st, sub(ER, SR)) and m.I.decide_ge0(st, sub(EC, SC)))
    out1 = lambda m, st: not (m.I.decide_ge0(st, sub(sub(R, ER), ONE)) and m.I.decide_ge0(st, sub(sub(C, EC), ONE)))
    out2 = lambda m, st: not (m.I.decide_ge0(st, sub(sub(R2, ER), ONE)) and m.I.decide_ge0(st, sub(sub(C2, EC), ONE)))
    rect = lambda m, st: all(m.I.decide_ge0(st, x) for x in (sub(r, SR), sub(ER, r), sub(c, SC), sub(EC, c)))
    N8 = ["val:R", "val:C", "val:r", "val:c", "val:sr", "val:sc", "val:er", "val:ec"]
    sp = [sub(r, SR), sub(r, ER), sub(c, SC), sub(c, EC)]

    def walkr(m, st):
        matrix(m, st, 0, R, C)
        sk(st, R, C)
        st.env[1], st.env[0] = ("P", ("arg", 0), Z), ("P", ("arg", 9), Z)
        pairs(m, st, 3)
    T.go("drv::mtx_walk_range", "walk of a range", Walk(q=add(pmul(R, c), r), refs=N8, touched=rect, throws=[order, out1], splits=sp), walkr)

    def walk2(m, st):
        st.env[1], st.env[0], st.env[3] = ("P", ("arg", 0), Z), ("P", ("arg", 9), Z), ("P", ("arg", 1), Z)
        matrix(m, st, 0, R, C), matrix(m, st, 1, R2, C2, ghost=("src",))
        st.dom.set_lb("size:n", 1)
        st.m.cont["c0"] = ("ep-c0", S("size:n"), ("orig",))
        st.m.cont["c1"] = ("ep-c1", S("size:n"), ("src",))
        flat(st, "c0")
    diff = lambda m, st: not (m.I.decide(st, "eq", R, R2) and m.I.decide(st, "eq", C, C2))
    T.go("drv::mtx_walk2", "walk of two matrices", Walk(q=S("val:q"), refs=["size:n", "val:q"], two=True, throws=[diff]), walk2)

    def walk2e(m, st):
        walk2(m, st)
        matrix(m, st, 0, R, C, "default")
        st.m.obj[(("arg", 0), m.so)] = "c0"
        st.m.cont["c0"] = ("ep-c0", Z, ("orig",))
        st.m.cont["c1"] = ("ep-c1", pmul(R2, C2), ("src",))
        st.dom.set_lb("val:R2", 0), st.dom.set_lb("val:C2", 0)
    T.go("drv::mtx_walk2", "walk of two matrices, one empty",
         Walk(q=Z, touched=lambda m, st: False, two=True, throws=[lambda m, st: not (m.I.decide(st, "eq", R2, Z) and m.I.decide(st, "eq", C2, Z))]), walk2e)

    def walk2r(m, st):
        st.env[1], st.env[0], st.env[3] = ("P", ("arg", 0), Z), ("P", ("arg", 9), Z), ("P", ("arg", 1), Z)
        matrix(m, st, 0, R, C), matrix(m, st, 1, R2, C2, ghost=("src",))
        sk(st, R, C)
        pairs(m, st, 4)
    T.go("drv::mtx_walk2_range", "walk of a range of two matrices",
         Walk(q=add(pmul(R, c), r), refs=N8 + ["val:R2", "val:C2"], touched=rect, throws=[order, out1, out2], two=True, rows2=R2, splits=sp), walk2r)


def everything(T):
    basic(T)
    whole(T)
    return T.res


MOD = [None, None]
LEFT = None


# loops over two element stores of different shape (or over parts of columns) at once: outside of what this analysis decides
OUTSIDE = {"copy(matrix)", "resize", "resize with a value", "walk of a range", "walk of two matrices", "walk of a range of two matrices"}


class Cut(BaseException):
    """the time of a part is over"""


def cut(sig, frame):
    raise Cut()


def worker(job):
    import signal
    import time
    with LEFT.get_lock():
        left = LEFT.value
        LEFT.value -= 1
    rest = (MOD[1] or time.time() + 3600) - time.time()
    cap = min(rest, max(3.0, 1.5 * 8 * rest / max(left, 1)))
    if cap <= 0.5:
        return job, None
    T = Tasks(MOD[0], time.time() + cap, job)
    signal.signal(signal.SIGALRM, cut)
    signal.setitimer(signal.ITIMER_REAL, cap + 2)
    try:
        return job, everything(T)
    except Cut:
        return job, None
    except Exception as e:             # code of a form the analysis has no description for
        import traceback
        if os.environ.get("VERIF_DEBUG"):
            traceback.print_exc()
        return job, None
    finally:
        signal.setitimer(signal.ITIMER_REAL, 0)


def start(left):
    global LEFT
    LEFT = left


def all_tasks(mod, deadline=None):
    """every operation, the parts of the larger ones in parallel; one result per operation"""
    MOD[:] = [mod, deadline]
    tasks = [t for t in everything(Tasks(mod, deadline, "list")) if t[1] not in OUTSIDE]
    label = {n: lb for n, lb, parts in tasks}
    parts = {n: k for n, lb, k in tasks}
    # the first parts of every operation before the second parts of any
    jobs = sorted(((n, p) for n in parts for p in range(parts[n])), key=lambda j: (parts[j[0]] > 1, j[1], j[0]))
    got = {}
    for again in (False, True):
        todo = [j for j in jobs if j not in got or late(got[j])]
        if not todo:
            break
        with Pool(8, start, (Value("i", len(todo)),)) as p:
            for job, rs in p.imap_unordered(worker, todo, chunksize=1):
                if rs is not None or job not in got:
                    got[job] = rs
    out = {}
    for job, rs in got.items():
        lb = label[job[0]]
        if rs is None:
            rs = [{"label": lb, "where": "include/mdds/multi_type_matrix_def.inl", "viol": [], "unknown": {("time limit", "part of the case split"): 1}, "stats": {}, "paths": 0, "steps": 0}]
        for r in rs:
            o = out.setdefault(r["label"], r)
            if o is r:
                continue
            if r["paths"]:
                o["where"] = r["where"]
            o["viol"] += r["viol"]
            o["paths"] += r["paths"]
            o["steps"] += r["steps"]
            for k in ("unknown", "stats"):
                for a, b in r[k].items():
                    o[k][a] = o[k].get(a, 0) + b if isinstance(b, int) else b
    return list(out.values())


def late(rs):
    return rs is None or any(k[0] == "time limit" for r in rs for k in r["unknown"])
