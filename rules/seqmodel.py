"""Abstract machine for code that moves ranges of elements between std::vector objects.

The content of a vector is a list of pieces, each a slice of something that existed when the function
was entered (another vector, the caller's array, a single value), a run of clones of such a slice, or a
run of default values; the bounds are linear forms.  Loops over elements are closed by extrapolating the
change of two consecutive iterations to t further ones and checking that one more iteration leads from t
to t+1 (otherwise the function is reported as not analysed).
"""
import re
import lin
from lin import const, add, sub
from absint import Interp, Model, Fork, Stop, fresh, new_state, is_ptr, is_lin, PNULL

Z, ONE = lin.ZERO, const(1)
INT = ("i8", "i16", "i32", "i64")


class Vec:
    __slots__ = ("ps", "ep", "res", "esz")

    def __init__(self, ps, ep=0, res=False, esz=1):
        self.ps, self.ep, self.res, self.esz = ps, ep, res, esz


class SM:
    __slots__ = ("vecs", "logs", "orig", "dec", "isym", "ne", "n", "maps", "called")

    def __init__(self):
        self.vecs = {}
        self.logs = {}
        self.orig = {}
        self.dec = ()
        self.isym = {}
        self.ne = None
        self.n = 0
        self.maps = {}
        self.called = None

    def copy(self):
        s = SM.__new__(SM)
        for k in SM.__slots__:
            v = getattr(self, k)
            setattr(s, k, dict(v) if v.__class__ is dict else v)
        return s


def plen(p):
    return sub(p[3], p[2])


def piece(t):
    return (t[0], t[1], t[2], add(t[2], ONE), t[3])


class SeqModel(Model):
    def __init__(self, mod, func):
        self.mod = mod
        self.func = func
        self.viol = []
        self.stats = {}
        self.unk = {}
        self.nogen = set()

    # ---- pieces --------------------------------------------------------------------
    def tidy(self, st, ps):
        out = []
        d = st.dom
        for p in ps:
            lo, hi = d.norm(p[2]), d.norm(p[3])
            if lo == hi:
                continue
            p = (p[0], p[1], lo, hi, d.norm(p[4]) if is_lin(p[4]) else p[4])
            if out:
                q = out[-1]
                if q[0] == p[0] and q[1] == p[1] and q[4] == p[4]:
                    if p[0] in "fd":
                        out[-1] = (q[0], q[1], Z, d.norm(add(q[3], plen(p))), q[4])
                        continue
                    x = d.norm(sub(p[2], q[3]))
                    if x == Z or d.eq0(x):
                        out[-1] = (q[0], q[1], q[2], p[3], q[4])
                        continue
            if p[0] in "fd":
                p = (p[0], p[1], Z, plen(p), p[4])
            out.append(p)
        return tuple(out)

    def total(self, st, ps):
        n = Z
        for p in ps:
            n = add(n, plen(p))
        return st.dom.norm(n)

    def cut(self, st, ps, n):
        acc = Z
        for i, p in enumerate(ps):
            if self.I.decide(st, "eq", n, acc):
                return ps[:i], ps[i:]
            e = add(acc, plen(p))
            if self.I.decide_ge0(st, sub(n, e)):
                acc = e
                continue
            m = add(p[2], sub(n, acc))
            return ps[:i] + ((p[0], p[1], p[2], m, p[4]),), ((p[0], p[1], m, p[3], p[4]),) + ps[i + 1:]
        if self.I.decide(st, "eq", n, acc):
            return ps, ()
        raise Stop("bug", "position past the end of a vector")

    def slice(self, st, ps, a, b):
        _, r = self.cut(st, ps, a)
        m, _ = self.cut(st, r, sub(b, a))
        return m

    def elem(self, st, ps, i):
        """token of element i"""
        if not self.I.decide_ge0(st, i):
            raise Stop("bug", "element access before the beginning of a vector")
        _, r = self.cut(st, ps, i)
        while r and self.I.decide(st, "eq", plen(r[0]), Z):
            r = r[1:]
        if not r:
            raise Stop("bug", "element access past the end of a vector")
        p = r[0]
        if p[0] == "f":
            return p[4]
        if p[0] == "d":
            return ("d", p[1], Z, p[4])
        return (p[0], p[1], p[2], p[4])

    def same_token(self, st, a, b):
        if a[0] != b[0] or a[1] != b[1]:
            return False
        if a[0] == "d":
            return True
        return self.I.decide(st, "eq", a[2], b[2]) and self.same_extra(st, a[3], b[3])

    def same_extra(self, st, a, b):
        if is_lin(a) and is_lin(b):
            return self.I.decide(st, "eq", a, b)
        return a == b

    def same(self, st, A, B):
        """do the two piece lists denote the same sequence?"""
        A, B = list(self.tidy(st, A)), list(self.tidy(st, B))
        while A or B:
            for X in (A, B):
                while X and self.I.decide(st, "eq", plen(X[0]), Z):
                    X.pop(0)
            if not A and not B:
                return True
            if not A or not B:
                return False
            a, b = A[0], B[0]
            if a[0] == "f" and b[0] != "f" and b[0] != "d":
                # one element at a time
                if self.I.decide(st, "eq", plen(b), ONE):
                    a0 = piece(a[4])
                    if not self.same_token(st, a[4], (b[0], b[1], b[2], b[4])):
                        return False
                    B.pop(0)
                    A[0] = (a[0], a[1], add(a[2], ONE), a[3], a[4])
                    continue
                return False
            if b[0] == "f" and a[0] != "f" and a[0] != "d":
                A, B = B, A
                continue
            if a[0] != b[0] or a[1] != b[1]:
                return False
            if a[0] == "f":
                if not self.same_token(st, a[4], b[4]):
                    return False
            elif a[0] != "d":
                if not self.I.decide(st, "eq", a[2], b[2]) or not self.same_extra(st, a[4], b[4]):
                    return False
            la, lb = plen(a), plen(b)
            if self.I.decide(st, "eq", la, lb):
                A.pop(0)
                B.pop(0)
            elif self.I.decide_ge0(st, sub(la, lb)):
                B.pop(0)
                A[0] = (a[0], a[1], add(a[2], lb), a[3], a[4])
            else:
                A.pop(0)
                B[0] = (b[0], b[1], add(b[2], la), b[3], b[4])
        return True

    def show(self, ps):
        import re

        def src(s):
            if s.__class__ is tuple and s[0] == "v":
                return "block%s" % (s[1][1] if s[1][0] == "arg" else "")
            if s.__class__ is tuple and s[0] == "xs":
                return "input"
            if s.__class__ is tuple and s[0] == "av":
                return "value"
            return str(s)
        out = []
        for p in ps:
            if p[0] == "f":
                out.append("%s x (%s)" % (src(p[4][1]), lin.show(plen(p))))
            elif p[0] == "d":
                out.append("default x (%s)" % lin.show(plen(p)))
            else:
                t = "%s[%s, %s)" % (src(p[1]), lin.show(p[2]), lin.show(p[3]))
                if p[0] == "k":
                    t = "copies of " + t
                if p[0] not in "ck":
                    t = p[0] + " " + t
                if is_lin(p[4]) and p[4] != Z:
                    t += "+(%s)" % lin.show(p[4])
                out.append(t)
        return re.sub(r"#\d+|@\d+", "", re.sub(r"m:arg(\d+):\d+", r"front\1", " ++ ".join(out)) or "(empty)")

    # ---- vectors ----------------------------------------------------------------------
    def vkey(self, p):
        if not is_ptr(p):
            raise Stop("bug", "null container")
        return (p[1], p[2])

    def vec(self, st, p, ins):
        k = self.vkey(p)
        v = st.m.vecs.get(k)
        if v is None:
            if k[0][0] != "arg":
                raise Stop("unknown", "vector of unknown origin")
            v = self.make(st, k, self.esz(ins))
        return k, v

    def make(self, st, k, esz):
        n = lin.sym("n%s" % "".join(str(x) for x in k[0][1:]) + ("" if k[1] == Z else "@%d" % k[1][0]))
        st.dom.set_lb(n[1][0][0], 0)
        v = Vec((("c", ("v", k[0], k[1]), Z, n, Z),), 0, False, esz)
        st.m.vecs[k] = v
        st.m.orig[k] = v.ps
        return v

    def esz(self, ins):
        t = self.mod.ftab[ins.a[1]][1] if ins.a[1].__class__ is int else ""
        i = t.find("std::vector<")
        if i < 0:
            return 1
        d = 0
        for j in range(i + 12, len(t)):
            c = t[j]
            if c in "<(":
                d += 1
            elif c in ">)" and d:
                d -= 1
            elif c in ",>" and d == 0:
                a = t[i + 12:j].strip()
                break
        if a.endswith("*") or a in ("unsigned long", "long", "double"):
            return 8
        if a in ("int", "unsigned int", "float"):
            return 4
        return 1

    def put(self, st, k, ps, bump=True, res=None):
        v = st.m.vecs[k]
        st.m.vecs[k] = Vec(self.tidy(st, ps), v.ep + (1 if bump else 0), v.res if res is None else res, v.esz)
        return st.m.vecs[k]

    def dptr(self, k, v, off):
        return ("P", ("sd", k[0], k[1], v.ep), off)

    def idx(self, off, esz):
        if off[0] % esz or any(c % esz for _, c in off[1]):
            raise Stop("bug", "misaligned element address")
        return (off[0] // esz, tuple((s, c // esz) for s, c in off[1]))

    def resolve(self, st, p):
        """element pointer -> (kind, key, index)"""
        if not is_ptr(p):
            raise Stop("bug", "null element pointer")
        r = p[1]
        if r[0] == "sd":
            v = st.m.vecs[(r[1], r[2])]
            if v.ep != r[3]:
                raise Stop("bug", "an iterator is used after the vector changed")
            return "v", (r[1], r[2]), self.idx(p[2], v.esz)
        if r[0] == "xs":
            return "xs", r, self.idx(p[2], r[2])
        return None, None, None

    def content(self, st, p):
        """token of the element object at p"""
        k, key, i = self.resolve(st, p)
        if k == "v":
            return self.elem(st, st.m.vecs[key].ps, i)
        if k == "xs":
            return ("c", key, i, Z)
        r = p[1]
        if r[0] == "el":
            return ("o",) + r[2:5] if r[1] == "c" else r[1:5]
        if r[0] == "arg":
            return ("c", ("av", r[1]), Z, Z)
        c = st.mem.get(r)
        if c is not None and not p[2][1]:
            t = c.get(p[2][0])
            if t is not None and t.__class__ is tuple and t[0] == "T":
                return t[1]
        raise Stop("unknown", "element object of unknown content")

    def set_content(self, st, p, t):
        k, key, i = self.resolve(st, p)
        if k == "v":
            v = st.m.vecs[key]
            if not self.I.decide_ge0(st, i):
                raise Stop("bug", "element store before the beginning of a vector")
            a, r = self.cut(st, v.ps, i)
            if not r or self.I.decide(st, "eq", self.total(st, r), Z):
                raise Stop("bug", "element store past the end of a vector")
            _, b = self.cut(st, r, ONE)
            self.put(st, key, a + (piece(t),) + b, False)
            return
        if k == "xs":
            raise Stop("bug", "the caller's input is modified")
        self.I.raw_store(st, p[1], p[2][0], ("T", t))

    def log(self, st, name, ps):
        st.m.logs[name] = self.tidy(st, st.m.logs.get(name, ()) + tuple(ps))

    # ---- memory ---------------------------------------------------------------------------
    def ptr_token(self, st, v):
        """token of a pointer value that is stored as an element"""
        if not is_ptr(v):
            return ("d", "default", Z, Z)
        r = v[1]
        if r[0] == "el":
            return r[1:5]
        if r[0] == "new":
            c = st.mem.get(r, {}).get(0)
            if c is not None and c.__class__ is tuple and c[0] == "T":
                t = c[1]
                return ("k", t[1], t[2], t[3]) if t[0] == "o" else t
        raise Stop("unknown", "pointer element of unknown origin")

    def load(self, st, reg, off, ty):
        if reg[0] in ("sd", "xs"):
            t = self.content(st, ("P", reg, off))
            if ty == "ptr":
                if t[0] == "d":
                    return PNULL
                return ("P", ("el",) + t, Z)
            s = fresh("e")
            if t[0] in ("c", "k"):
                st.m.isym[s] = (t[0], t[1], t[2], Z)
                return add(lin.sym(s), t[3])
            if t[0] == "i":
                return t[3]
            return Z if t[0] == "d" else lin.sym(s)
        if reg[0] == "arg" and ty == "ptr" and reg[1] in self.refs and off == Z:
            return self.refs[reg[1]]
        if off[1]:
            raise Stop("unknown", "memory access at a variable offset")
        return self.I.raw_load(st, reg, off[0], ty)

    def store(self, st, reg, off, v, ty):
        if reg[0] in ("sd", "xs"):
            if ty == "ptr":
                t = self.ptr_token(st, v)
            else:
                v = self.I.as_lin(st, v)
                t = None
                for s, c in v[1]:
                    if c == 1 and s in st.m.isym:
                        o = st.m.isym[s]
                        t = (o[0], o[1], o[2], sub(v, lin.sym(s)))
                        break
                if t is None:
                    t = ("i", "int", Z, v)
            self.set_content(st, ("P", reg, off), t)
            return
        if off[1]:
            raise Stop("unknown", "memory access at a variable offset")
        self.I.raw_store(st, reg, off[0], v)

    def initial(self, st, reg, off, ty):
        if reg[0] == "g":
            return Z if ty != "ptr" else ("P", ("gp", reg[1], off), Z)
        if ty == "ptr":
            return ("P", ("d", reg, off), Z)
        s = "m:%s:%d" % ("".join(str(x) for x in reg), off)
        if reg[0] == "arg":
            st.dom.set_lb(s, -(1 << 31) if ty == "i32" else 0)
        return lin.sym(s)

    def cmp_ptr(self, st, pred, a, b):
        if is_ptr(a) and is_ptr(b):
            if a[1] == b[1]:
                p = pred if pred in ("eq", "ne") else "s" + pred[1:]
                x, y = a[2], b[2]
                if a[1][0] in ("sd", "xs"):
                    e = st.m.vecs[a[1][1:3]].esz if a[1][0] == "sd" else a[1][2]
                    if e > 1:
                        x, y = self.idx(x, e), self.idx(y, e)
                return self.I.decide(st, p, x, y)
            ra, rb = a[1], b[1]
            if ra[0] == "sd" and rb[0] == "sd" and ra[1:3] == rb[1:3]:
                # iterators of different generations: the newer one decides, the older is stale
                raise Stop("bug", "an iterator is used after the vector changed")
            if pred in ("eq", "ne"):
                if ra[0] == "el" and rb[0] == "el":
                    return None
                if ra[0] == "arg" and rb[0] == "arg":
                    return pred == "ne"
                return pred == "ne"
            return None
        if is_ptr(a) or is_ptr(b):
            o = b if is_ptr(a) else a
            if is_lin(o) and not o[1] and o[0] == 0 and pred in ("eq", "ne"):
                return pred == "ne"
        return None

    # ---- calls ---------------------------------------------------------------------------------
    def flag(self, st, ins):
        """a fresh boolean decision at this call"""
        if st.m.dec:
            r = st.m.dec[0]
            st.m.dec = ()
            return r

        def t(s):
            s.m.dec = (True,)
            return True

        def f(s):
            s.m.dec = (False,)
            return True
        raise Fork([t, f])

    def call(self, st, ins, name, args):
        name = name or "?"
        if name.startswith("llvm."):
            if name.startswith("llvm.memcpy") or name.startswith("llvm.memmove"):
                d, s = args[0], args[1]
                if is_ptr(d) and is_ptr(s) and d[1][0] in ("a", "new") and s[1] in st.mem:
                    for o, v in st.mem[s[1]].items():
                        self.I.raw_store(st, d[1], o - s[2][0] + d[2][0], v)
                elif is_ptr(d) and is_ptr(s) and s[1][0] == "g" and s[1][1] in self.mod.consts:
                    for o, v in self.mod.consts[s[1][1]]:
                        self.I.raw_store(st, d[1], o - s[2][0] + d[2][0], self.I.val(st, v))
                return None
            if name.startswith("llvm.memset"):
                return None
            if name.startswith("llvm.is.constant"):
                return Z
            if name.startswith(("llvm.umax", "llvm.smax", "llvm.umin", "llvm.smin")):
                g = self.I.decide_ge0(st, sub(args[0], args[1]))
                return args[0] if g == ("max" in name) else args[1]
            if ins.a[0] == "void":
                return None
            return self.I.unknown(st, ins.id, ins.a[0])
        if name in ("operator new", "operator new[]"):
            st.m.n += 1
            return ("P", ("new", ins.id, st.m.n), Z)
        if name in ("operator delete", "operator delete[]"):
            return None
        if name.startswith(("std::__cxx11::basic_string::", "std::basic_string::", "std::allocator::")) or re.search(r"(error|exception|out_of_range)::", name):
            return None if ins.a[0] == "void" else self.I.unknown(st, ins.id, ins.a[0])
        if name in ("std::terminate", "abort", "__cxa_throw", "__cxa_rethrow") or "throw" in name:
            raise Stop("throw")
        if name == "__cxa_guard_acquire":
            return ONE
        if name.startswith("__cxa_"):
            return None if ins.a[0] == "void" else ("P", ("exc", ins.id), Z)
        if name.startswith("std::vector::"):
            return self.vector(st, ins, name[13:], args)
        if name.startswith("std::unordered_map::") or name.startswith("std::function::"):
            return self.table(st, ins, name[5:], args)
        if name.startswith("drv::"):
            r = self.element(st, ins, name[5:], args)
            if r is not NotImplemented:
                return r
        if name.startswith("mdds::mtv::clone_value"):
            p = args[-1]
            t = self.ptr_token(st, p)
            return ("P", ("el", "k", t[1], t[2], t[3]), Z)
        if name == "memcmp":
            a, b, n = args
            ka, xa, ia = self.resolve(st, a)
            kb, xb, ib = self.resolve(st, b)
            if ka != "v" or kb != "v":
                raise Stop("unknown", "memcmp")
            e = st.m.vecs[xa].esz
            m = self.idx(n, e)
            A = self.slice(st, st.m.vecs[xa].ps, ia, add(ia, m))
            B = self.slice(st, st.m.vecs[xb].ps, ib, add(ib, m))
            if self.flag(st, ins):
                self.log(st, "eqA", A)
                self.log(st, "eqB", B)
                return Z
            st.m.ne = "range"
            return ONE
        if ins.a[0] == "void":
            raise Stop("unknown", "call of " + name)
        raise Stop("unknown", "call of " + name)

    def element(self, st, ins, name, args):
        cls, _, m = name.partition("::")
        if m == cls:
            if len(args) == 1:
                self.set_content(st, args[0], ("d", "default", Z, Z))
                return None
            t = self.content(st, args[1])
            self.set_content(st, args[0], t)
            return None
        if m == "~" + cls:
            p = args[0]
            if is_ptr(p) and p[1][0] == "el":
                self.log(st, "del", [piece(p[1][1:5])])
            elif is_ptr(p) and p[1][0] in ("sd", "xs"):
                raise Stop("bug", "an element is destroyed in place")
            return None
        if m == "operator=":
            self.set_content(st, args[0], self.content(st, args[1]))
            return args[0]
        if m == "operator==":
            a, b = self.content(st, args[0]), self.content(st, args[1])
            if self.flag(st, ins):
                self.log(st, "eqA", [piece(a)])
                self.log(st, "eqB", [piece(b)])
                return ONE
            st.m.ne = (a, b)
            return Z
        return NotImplemented

    def one(self, st, ins, p, esz):
        """token of a `const T&` argument of a vector operation"""
        if esz == 8:
            v = self.I.load(st, p, "ptr" if "*" in self.mod.ftab[ins.a[1]][1].split("std::vector<", 1)[-1].split(",")[0] else "i64")
            if is_lin(v) and (v[1] or v[0]):
                for s, c in v[1]:
                    if c == 1 and s in st.m.isym:
                        o = st.m.isym[s]
                        return (o[0], o[1], o[2], sub(v, lin.sym(s)))
                return ("i", "int", Z, v)
            return self.ptr_token(st, v)
        return self.content(st, p)

    def range(self, st, a, b):
        ka, xa, ia = self.resolve(st, a)
        kb, xb, ib = self.resolve(st, b)
        if ka is None or ka != kb or xa != xb:
            raise Stop("unknown", "range of unknown origin")
        if not self.I.decide_ge0(st, sub(ib, ia)):
            raise Stop("bug", "reversed range")
        if ka == "xs":
            return (("c", xa, ia, ib, Z),)
        return self.slice(st, st.m.vecs[xa].ps, ia, ib)

    def vector(self, st, ins, m, args):
        p = args[0]
        if m in ("vector", "~vector"):
            k = self.vkey(p)
            if m == "~vector":
                return None
            e = self.esz(ins)
            rest = [a for a in args[1:] if not (is_ptr(a) and a[1][0] == "a" and (a[1] not in st.mem or not st.mem[a[1]]) and a[2] == Z)]
            sig = self.mod.ftab[ins.a[1]][1]
            st.m.vecs[k] = Vec((), 0, False, e)
            if not rest:
                ps = ()
            elif is_ptr(rest[0]) and len(rest) >= 2 and is_ptr(rest[1]):
                ps = self.range(st, rest[0], rest[1])
            elif is_ptr(rest[0]):
                o = st.m.vecs.get(self.vkey(rest[0]))
                if o is None:
                    if rest[0][1][0] != "arg":
                        raise Stop("unknown", "copy of a vector of unknown origin")
                    o = self.make(st, self.vkey(rest[0]), e)
                ps = o.ps
                if "&&" in sig.split("(")[-1]:
                    self.put(st, self.vkey(rest[0]), ())
            elif len(rest) >= 2 and is_ptr(rest[1]):
                t = self.one(st, ins, rest[1], e)
                ps = (("f", "fill", Z, rest[0], t),)
            else:
                ps = (("d", "default", Z, rest[0], Z),)
            self.put(st, k, ps)
            return None
        if m in ("rbegin", "crbegin", "rend", "crend"):
            # a reverse iterator is returned through the first argument and holds the iterator behind it
            k, v = self.vec(st, args[1], ins)
            q = self.dptr(k, v, lin.scale(self.total(st, v.ps), v.esz) if "begin" in m else Z)
            self.I.raw_store(st, p[1], p[2][0], q)
            return None
        k, v = self.vec(st, p, ins)
        n = self.total(st, v.ps)
        if m in ("begin", "cbegin", "data"):
            return self.dptr(k, v, Z)
        if m in ("end", "cend"):
            return self.dptr(k, v, lin.scale(n, v.esz))
        if m == "size":
            return n
        if m == "empty":
            return ONE if self.I.decide(st, "eq", n, Z) else Z
        if m == "capacity":
            s = fresh("cap")
            st.dom.set_lb(s, 0)
            return lin.sym(s)
        if m in ("operator[]", "at"):
            if not self.I.decide_ge0(st, sub(add(n, const(-1)), args[1])):
                if m == "at":
                    raise Stop("throw")
                raise Stop("bug", "subscript past the end of a vector")
            return self.dptr(k, v, lin.scale(args[1], v.esz))
        if m in ("front", "back"):
            if self.I.decide(st, "eq", n, Z):
                raise Stop("bug", m + "() of an empty vector")
            return self.dptr(k, v, Z if m == "front" else lin.scale(add(n, const(-1)), v.esz))
        if m in ("push_back", "emplace_back"):
            t = self.one(st, ins, args[1], v.esz) if len(args) > 1 else ("d", "default", Z, Z)
            w = self.put(st, k, v.ps + (piece(t),), not v.res)
            return None if ins.a[0] == "void" else self.dptr(k, w, lin.scale(n, v.esz))
        if m == "pop_back":
            a, _ = self.cut(st, v.ps, add(n, const(-1)))
            self.put(st, k, a, False)
            return None
        if m == "reserve":
            self.put(st, k, v.ps, True, True)
            return None
        if m == "shrink_to_fit":
            self.put(st, k, v.ps, True, False)
            return None
        if m == "clear":
            self.put(st, k, ())
            return None
        if m == "resize":
            c = args[1]
            if self.I.decide_ge0(st, sub(n, c)):
                a, _ = self.cut(st, v.ps, c)
                self.put(st, k, a)
            else:
                t = self.one(st, ins, args[2], v.esz) if len(args) > 2 else None
                ps = ("d", "default", Z, sub(c, n), Z) if t is None else ("f", "fill", Z, sub(c, n), t)
                self.put(st, k, v.ps + (ps,))
            return None
        if m == "assign":
            if is_ptr(args[1]):
                ps = self.range(st, args[1], args[2])
            else:
                ps = (("f", "fill", Z, args[1], self.one(st, ins, args[2], v.esz)),)
            self.put(st, k, ps)
            return None
        if m == "insert":
            kk, x, i = self.resolve(st, args[1])
            if kk != "v" or x != k:
                raise Stop("bug", "insert position of another vector")
            if len(args) == 3:
                ps = (piece(self.one(st, ins, args[2], v.esz)),)
            elif is_ptr(args[2]):
                ps = self.range(st, args[2], args[3])
            else:
                ps = (("f", "fill", Z, args[2], self.one(st, ins, args[3], v.esz)),)
            a, b = self.cut(st, v.ps, i)
            w = self.put(st, k, a + tuple(ps) + b)
            return None if ins.a[0] == "void" else self.dptr(k, w, lin.scale(i, v.esz))
        if m == "erase":
            kk, x, i = self.resolve(st, args[1])
            if kk != "v" or x != k:
                raise Stop("bug", "erase position of another vector")
            if len(args) == 2:
                j = add(i, ONE)
            else:
                k2, x2, j = self.resolve(st, args[2])
                if k2 != "v" or x2 != k:
                    raise Stop("bug", "erase position of another vector")
            if not self.I.decide_ge0(st, sub(j, i)):
                raise Stop("bug", "reversed range")
            a, r = self.cut(st, v.ps, i)
            _, b = self.cut(st, r, sub(j, i))
            w = self.put(st, k, a + b)
            return None if ins.a[0] == "void" else self.dptr(k, w, lin.scale(i, v.esz))
        if m == "swap":
            k2, v2 = self.vec(st, args[1], ins)
            a, b = v.ps, v2.ps
            self.put(st, k, b)
            self.put(st, k2, a)
            return None
        if m == "operator=":
            k2, v2 = self.vec(st, args[1], ins)
            if k2 != k:
                self.put(st, k, v2.ps)
                if "&&" in self.mod.ftab[ins.a[1]][1].split("(")[-1]:
                    self.put(st, k2, ())
            return p
        raise Stop("unknown", "call of std::vector::" + m)

    def table(self, st, ins, name, args):
        raise Stop("unknown", "call of std::" + name)

    # ---- loops ---------------------------------------------------------------------------------
    nested = False           # a loop inside a loop was met: what it does is followed only roughly

    def generalise(self, st, snap, head, new, it):
        if len(st.loops) > 1:
            self.nested = True
        flag = st.loops[-1][3]
        cur_env = dict(st.env)
        cur_env.update(new)
        if flag != 0:
            pat, t, tmpl = flag
            got = self.shape(st, cur_env, tmpl["keys"])
            want = self.subst(pat, t, add(lin.sym(t), ONE))
            if not self.match(st, got, want):
                return None       # a last iteration that leaves the pattern is followed explicitly
            for c in tmpl["cons"]:
                if not st.dom.ge0(self.subst1(c, t, add(lin.sym(t), ONE))):
                    return None
            return []
        if it == 0:
            return None
        if it > 1 or head in self.nogen:
            return None
        # values after one and after two iterations
        keys = [k for k in cur_env if k in snap.env]
        a = self.shape(snap, snap.env, keys)
        b = self.shape(st, cur_env, keys)
        t = fresh("t")
        T = lin.sym(t)
        pat = self.extrapolate(snap, st, a, b, T)
        if pat is None:
            return None
        # constraints that move with the iterations
        s2 = st.copy()
        s2.dom.set_lb(t, 0)
        cons = []
        c1 = {}
        for c in self.ineqs(snap):
            c1.setdefault(c[1], []).append(c[0])
        for c in self.ineqs(st):
            if c[1] in c1:
                k1 = min(c1[c[1]])
                if c[0] < k1:
                    cons.append(add((c[0], c[1]), lin.scale(T, c[0] - k1)))
        ok = []
        for c in cons:
            if s2.dom.add_ge0(c):
                ok.append(c)
        self.install(s2, pat, keys)
        fl = (pat, t, {"keys": keys, "cons": ok})
        # t = 0 is the state after two iterations itself
        return [(s2, fl)]

    def ineqs(self, st):
        return [a for k, a in st.dom.constraints() if k == "ge"]

    def shape(self, st, env, keys):
        n = lambda v: self.deep(st, v)
        m = st.m
        return {"env": {k: n(self.I.norm(st, env[k]) if k in env else None) for k in keys},
                "mem": {r: {o: n(v) for o, v in c.items()} for r, c in st.mem.items()},
                "vecs": {k: (tuple(n(p) for p in self.tidy(st, v.ps)), v.ep, v.res, v.esz) for k, v in m.vecs.items()},
                "logs": {k: tuple(n(p) for p in self.tidy(st, v)) for k, v in m.logs.items()}}

    def deep(self, st, v):
        if is_lin(v):
            return st.dom.norm(v)
        if v.__class__ is tuple:
            return tuple(self.deep(st, x) for x in v)
        return v

    def extrapolate(self, s1, s2, a, b, T):
        """shape after two iterations plus T times the difference"""
        DROP = object()

        def ex(x, y):
            if x == y:
                return y
            if is_lin(x) and is_lin(y):
                d = sub(y, x)
                if d[1]:
                    return DROP
                return add(y, lin.scale(T, d[0]))
            if x.__class__ is tuple and y.__class__ is tuple and len(x) == len(y):
                out = []
                for p, q in zip(x, y):
                    r = ex(p, q)
                    if r is DROP:
                        return DROP
                    out.append(r)
                return tuple(out)
            return DROP
        out = {"env": {}, "mem": {}, "vecs": {}, "logs": {}}
        for k in b["env"]:
            r = ex(a["env"].get(k), b["env"][k])
            if r is not DROP:
                out["env"][k] = r
        for r, c in b["mem"].items():
            o = {}
            for f, v in c.items():
                x = ex(a["mem"].get(r, {}).get(f), v)
                if x is not DROP:
                    o[f] = x
            out["mem"][r] = o
        for k, v in b["vecs"].items():
            x = a["vecs"].get(k)
            if x is None or len(x[0]) != len(v[0]) or x[2:] != v[2:]:
                return None
            r = ex(x[0], v[0])
            if r is DROP:
                return None
            # a changed generation counter makes every iterator taken so far stale
            out["vecs"][k] = (r, v[1] if x[1] == v[1] else int(fresh("g").split("#")[1]) + 10 ** 6, v[2], v[3])
        for k, v in b["logs"].items():
            x = a["logs"].get(k)
            if x is None or len(x) != len(v):
                return None
            r = ex(x, v)
            if r is DROP:
                return None
            out["logs"][k] = r
        return out

    def install(self, st, pat, keys):
        for k in keys:
            st.env.pop(k, None)
        st.env.update(pat["env"])
        st.mem = {r: dict(c) for r, c in pat["mem"].items()}
        for k, (ps, ep, res, esz) in pat["vecs"].items():
            st.m.vecs[k] = Vec(ps, ep, res, esz)
        st.m.logs = dict(pat["logs"])

    def subst1(self, c, t, by):
        for s, k in c[1]:
            if s == t:
                return add(sub(c, lin.scale(lin.sym(t), k)), lin.scale(by, k))
        return c

    def subst(self, v, t, by):
        if is_lin(v):
            return self.subst1(v, t, by)
        if v.__class__ is tuple:
            return tuple(self.subst(x, t, by) for x in v)
        if v.__class__ is dict:
            return {k: self.subst(x, t, by) for k, x in v.items()}
        return v

    def match(self, st, got, want):
        def eq(x, y):
            if x == y:
                return True
            if is_lin(x) and is_lin(y):
                d = st.dom.norm(sub(x, y))
                return d == Z or st.dom.eq0(d)
            if x.__class__ is tuple and y.__class__ is tuple and len(x) == len(y):
                return all(eq(p, q) for p, q in zip(x, y))
            return False
        for k, v in want["env"].items():
            if not eq(got["env"].get(k), v):
                return False
        for r, c in want["mem"].items():
            for o, v in c.items():
                if not eq(got["mem"].get(r, {}).get(o), v):
                    return False
        for k, v in want["vecs"].items():
            g = got["vecs"].get(k)
            w = self.tidy(st, v[0])
            if g is None or len(g[0]) != len(w) or not eq(g[0], w) or g[2:] != v[2:]:
                return False
        for k in set(want["logs"]) | set(got["logs"]):
            if not eq(got["logs"].get(k, ()), self.tidy(st, want["logs"].get(k, ()))):
                return False
        return True

    # ---- reporting -----------------------------------------------------------------------------
    def path(self, st):
        out = []
        for i, t in st.trail[-30:]:
            s = self.mod.loc_str(i.loc)
            if s.startswith("include/mdds"):
                out.append("%s%s" % (s.split("/")[-1], "+" if t else "-"))
        return out

    def bad(self, st, o, cat, msg):
        if self.nested:
            self.unk[("loops inside a loop", self.func.where)] = 1
            return
        self.viol.append((cat, msg, self.mod.chain_str(o.ins.loc) if o.ins is not None else "?", self.path(st)))

    def at_exit(self, interp, o):
        st = o.st
        if o.kind == "unreachable":
            return
        if o.kind == "unknown":
            k = (o.why, self.mod.chain_str(o.ins.loc).split(" <- ")[0] if o.ins is not None else "?")
            self.unk[k] = self.unk.get(k, 0) + 1
        elif o.kind == "bug":
            self.bad(st, o, "bug", o.why)
        elif o.kind == "throw":
            m = self.check_throw(st)
            if m:
                self.bad(st, o, "throw", m)
        else:
            for m in self.check(st, o.val) or ():
                self.bad(st, o, "content", m)
        self.stats[o.kind] = self.stats.get(o.kind, 0) + 1
        interp.out.append(o.kind)

    def check_throw(self, st):
        return None

    def check(self, st, ret):
        return ()
